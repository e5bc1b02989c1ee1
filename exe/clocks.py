# -*- coding: utf-8 -*-
"""Replaces the clock functions of the time module by callables that answer
with the real clock until a virtual one is installed.  Import this before the
code under test, so that it does not matter how that code imports a clock."""
import _thread
import time

REAL = {n: getattr(time, n) for n in
        ('clock', 'time', 'process_time', 'thread_time', 'clock_gettime',
         'perf_counter', 'monotonic', 'sleep') if hasattr(time, n)}


class Fake(object):
    """Not a function, so that it does not bind as a method."""
    __slots__ = ('real', 'virtual', '__name__')

    def __init__(self, name):
        self.__name__ = name
        self.real = REAL[name]
        self.virtual = None

    def __call__(self, *args):
        v = self.virtual
        return self.real(*args) if v is None else v(*args)


cpu = Fake('clock')
wall = Fake('time')
process_time = Fake('process_time')
thread_time = Fake('thread_time') if 'thread_time' in REAL else None
clock_gettime = Fake('clock_gettime')


def install():
    time.clock = cpu
    time.time = wall
    time.process_time = process_time
    if thread_time is not None:
        time.thread_time = thread_time
    time.clock_gettime = clock_gettime


def set_cpu(f):
    """f() -> process CPU seconds, or None for the real clock."""
    cpu.virtual = f
    process_time.virtual = f


def set_wall(f):
    wall.virtual = f


def set_thread(f):
    """f(thread_ident) -> CPU seconds of that thread, or None."""
    if f is None:
        clock_gettime.virtual = None
        if thread_time is not None:
            thread_time.virtual = None
        return
    ident = _thread.get_ident
    real = REAL['clock_gettime']
    tid = time.CLOCK_THREAD_CPUTIME_ID

    def gettime(clk):
        return f(ident()) if clk == tid else real(clk)
    clock_gettime.virtual = gettime
    if thread_time is not None:
        thread_time.virtual = lambda: f(ident())


def reset():
    set_cpu(None)
    set_wall(None)
    set_thread(None)


install()
