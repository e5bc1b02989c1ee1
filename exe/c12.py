# -*- coding: utf-8 -*-
import signal
import sys
import threading

from base import expect, expect_eq, Violation
from c01 import IdleSampler, VTimer
from profiling.profiler import Profiler, ProfilerWrapper
from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import ItimerSampler, Sampler, TracingSampler
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import ContextualTimer, GreenletTimer, ThreadTimer, Timer
from profiling.utils import Runnable


class Fault(Exception):
    pass


class Exit(BaseException):
    pass


class Block(Exception):
    pass


def behave(kind, log):
    """A run() of each kind: (generator or other iterable)."""
    def ok():
        log.append('up')
        yield
        log.append('down')

    def none():
        log.append('up')
        return
        yield

    def value():
        yield 42

    def falsy():
        yield 0

    def twice():
        log.append('up')
        yield
        yield

    def fail():
        raise Fault('before')
        yield

    def fail_exit():
        raise Exit('before')
        yield

    def fail_late():
        log.append('up')
        yield
        raise Fault('after')

    def fail_late_exit():
        log.append('up')
        yield
        raise Exit('after')
    if kind == 'raise':
        raise Fault('run()')
    return locals()[kind]()


#: kind -> (error of start, error of stop)
KINDS = {'ok': (None, None), 'none': (TypeError, None), 'value': (TypeError, None), 'falsy': (TypeError, None),
         'twice': (None, TypeError), 'fail': (Fault, None), 'fail_exit': (Exit, None),
         'fail_late': (None, Fault), 'fail_late_exit': (None, Exit), 'raise': (Fault, None)}


class Subject(object):
    """What is started and stopped."""
    marks = None           # counts what was recorded, for profilers
    args = ()

    def __init__(self, obj, faulty=False):
        self.obj = obj
        self.faulty = faulty


def make(what, kinds, log):
    turn = [0]

    def run_faulty(*args, **kwargs):
        kind = kinds[turn[0] % len(kinds)]
        turn[0] += 1
        return behave(kind, log)

    class R(Runnable):
        def run(self, *args):
            return run_faulty()

    class T(Timer):
        def run(self, profiler):
            return run_faulty()

    class S(Sampler):
        def run(self, profiler):
            return run_faulty()

    class P(Profiler):
        def run(self):
            return run_faulty()

    class W(ProfilerWrapper):
        def run(self):
            self.profiler.start()
            yield
            self.profiler.stop()
    if what == 'runnable':
        s = Subject(R(), True)
        s.args = (1, 2)
    elif what == 'bare':
        s = Subject(Runnable())
    elif what in ('timer', 'sampler'):
        s = Subject(T() if what == 'timer' else S(), True)
        s.args = (None,)
    elif what == 'profiler':
        s = Subject(P(), True)
        s.marks = 'ensure'
    elif what == 'tracing':
        s = Subject(TracingProfiler(timer=T()), True)
        s.marks = 'trace'
    elif what == 'sampling':
        s = Subject(SamplingProfiler(sampler=S()), True)
        s.marks = 'sample'
    elif what == 'wrapper':
        s = Subject(W(SamplingProfiler(sampler=IdleSampler())))
        s.marks = 'wrapped'
    else:
        cls = {'Timer': Timer, 'ThreadTimer': ThreadTimer, 'GreenletTimer': GreenletTimer,
               'ContextualTimer': ContextualTimer}.get(what)
        if cls is not None:
            s = Subject(cls())
            s.args = (TracingProfiler(),)
        else:
            cls = {'ItimerSampler': ItimerSampler, 'TracingSampler': TracingSampler, 'Sampler': IdleSampler}[what]
            s = Subject(cls(1000.0))
            s.profiler = SamplingProfiler(sampler=IdleSampler())
            s.args = (s.profiler,)
    return s


def mark():
    return sys._getframe()


def hits(stats):
    n = 0
    queue = list(stats)
    for s in queue:
        queue.extend(s)
        if s.name == 'mark' and s.filename == __file__:
            n += s.own_hits
    return n


class State(object):
    running = False
    error_on_stop = None
    marks = 0
    turn = 0


def run(plan, out):
    what = plan['what']
    log = []
    kinds = plan['kinds'] or ['ok']
    s = make(what, kinds, log)
    st = State()
    try:
        steps(plan['ops'], s, st, kinds, out)
    finally:
        sys.setprofile(None)
        threading.setprofile(None)
        if what == 'ItimerSampler':
            signal.setitimer(signal.ITIMER_PROF, 0, 0)
            signal.signal(signal.SIGPROF, signal.SIG_IGN)
        if what == 'GreenletTimer':
            import greenlet
            greenlet.settrace(None)
    out.tag(what)


def attempt(f, *args):
    try:
        f(*args)
    except (Fault, Exit, TypeError, RuntimeError) as exc:
        return exc
    return None


def check(s, st, what):
    expect_eq(bool(s.obj.is_running()), st.running, 'is_running() after %s' % what)
    if s.marks:
        n = hits(s.obj.stats)
        expect(n == st.marks, 'after %s the statistics have %d of %d calls', what, n, st.marks)


def started(s, st, kinds, exc, what):
    """The model of a start; returns whether it succeeded."""
    if st.running:
        expect(type(exc) is RuntimeError, '%s of a running one: %r', what, exc)
        return False
    if s.marks:
        st.marks = 0
    if isinstance(s.obj, Runnable) and type(s.obj) is Runnable:
        expect(isinstance(exc, NotImplementedError), 'start without run(): %r', exc)
        return False
    if s.faulty:
        kind = kinds[st.turn % len(kinds)]
        st.turn += 1
        error, st.error_on_stop = KINDS[kind]
        if error is not None:
            expect(type(exc) is error, '%s with a run() of kind %s: %r', what, kind, exc)
            return False
    expect(exc is None, '%s failed: %r', what, exc)
    st.running = True
    return True


def stopped(s, st, exc, what):
    if not st.running:
        expect(type(exc) is RuntimeError, '%s of one that is not running: %r', what, exc)
        return
    st.running = False
    error, st.error_on_stop = st.error_on_stop, None
    if error is None:
        expect(exc is None, '%s failed: %r', what, exc)
    else:
        expect(type(exc) is error, '%s: %r, expected %s', what, exc, error.__name__)


def steps(ops, s, st, kinds, out, depth=0):
    obj = s.obj
    for op in ops:
        name = op[0]
        if name == 'start':
            if st.running:
                out.tag('refused-start')
            exc = attempt(obj.start, *s.args)
            if not started(s, st, kinds, exc, 'start'):
                out.tag('failed-start')
            else:
                out.nontrivial = True
        elif name == 'stop':
            exc = attempt(obj.stop)
            if not st.running:
                out.tag('refused-stop')
            stopped(s, st, exc, 'stop')
        elif name == 'mark' and s.marks:
            frame = mark()
            if st.running:
                if s.marks == 'sample' or s.marks == 'wrapped':
                    p = obj if s.marks == 'sample' else obj.profiler
                    p.sample(frame)
                    st.marks += 1
                elif s.marks == 'trace':
                    st.marks += 1
                else:
                    obj.stats.ensure_child(frame.f_code).own_hits += 1
                    st.marks += 1
        elif name == 'with' and not s.args:
            entered = []

            def block():
                with obj as x:
                    entered.append(x)
                    started(s, st, kinds, None, 'with')
                    check(s, st, 'entering with')
                    steps(op[1], s, st, kinds, out, depth + 1)
                    if op[2]:
                        raise Block()
            try:
                block()
            except Violation:
                raise
            except BaseException as exc_:
                exc = exc_
            else:
                exc = None
            if not entered:
                started(s, st, kinds, exc, 'with')
            else:
                out.nontrivial = True
                out.tag('with')
                expect(entered[0] is obj, 'with gives %r', entered[0])
                if op[2] and st.running and st.error_on_stop is None:
                    expect(type(exc) is Block, 'the exception of the block became %r', exc)
                    st.running = False
                    out.tag('with-raising')
                else:
                    stopped(s, st, exc, 'leaving with')
        check(s, st, name)
