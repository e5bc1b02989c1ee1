# -*- coding: utf-8 -*-
import signal
import sys
import threading

import greenlet

from base import expect, expect_eq
from c01 import IdleSampler
from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import ItimerSampler, Sampler, TracingSampler
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import GreenletTimer, ThreadTimer, Timer

ISOLATE = True


class Fault(Exception):
    pass


def user_profile(frame, event, arg):
    pass


def user_handler(signum, frame):
    pass


def user_trace(event, args):
    pass


class FailingTimer(Timer):
    def __init__(self, at):
        self.at = at

    def run(self, profiler):
        if self.at == 'start':
            raise Fault()
        if self.at == 'exit':
            raise SystemExit()
        yield
        raise Fault()


class FailingSampler(Sampler):
    at = None

    def run(self, profiler):
        if self.at == 'start':
            raise Fault()
        yield
        raise Fault()


def thread_hook():
    res = []
    t = threading.Thread(target=lambda: res.append(sys.getprofile()))
    t.start()
    t.join()
    return res[0]


def snapshot():
    return {'profile': sys.getprofile(), 'SIGPROF handler': signal.getsignal(signal.SIGPROF),
            'greenlet trace': greenlet.gettrace(), 'itimer': signal.getitimer(signal.ITIMER_PROF)}


def compare(now, before, what, handler_may_be_ignored):
    for k in ('profile', 'greenlet trace'):
        expect(now[k] == before[k], '%s: %s is %r, was %r', what, k, now[k], before[k])
    k = 'SIGPROF handler'
    want = before[k]
    if want == signal.SIG_DFL and handler_may_be_ignored:
        want = signal.SIG_IGN
    expect(now[k] == want, '%s: %s is %r, expected %r', what, k, now[k], want)
    (v1, i1), (v0, i0) = now['itimer'], before['itimer']
    expect(abs(i1 - i0) < 0.5 and abs(v1 - v0) < 60, '%s: interval timer %r, was %r', what,
           now['itimer'], before['itimer'])


def make(kind):
    """(profiler, expected error of start, of stop)"""
    if kind.startswith('tracing'):
        timer, e1, e2 = {
            'tracing': (None, None, None), 'tracing-thread': (ThreadTimer(), None, None),
            'tracing-greenlet': (GreenletTimer(), None, None),
            'tracing-fail': (FailingTimer('start'), Fault, None),
            'tracing-exit': (FailingTimer('exit'), SystemExit, None),
            'tracing-fail-stop': (FailingTimer('stop'), None, Fault)}[kind]
        return TracingProfiler(timer=timer), e1, e2
    sampler, e1, e2 = {
        'itimer': (ItimerSampler(2000.0), None, None),
        'itimer-invalid': (ItimerSampler(-1), Exception, None),
        'itimer-nan': (ItimerSampler('x'), TypeError, None),
        'hook': (TracingSampler(1000.0), None, None),
        'idle': (IdleSampler(), None, None),
        'fail': (FailingSampler(), Fault, None), 'fail-stop': (FailingSampler(), None, Fault)}[kind]
    if kind == 'fail':
        sampler.at = 'start'
    return SamplingProfiler(sampler=sampler), e1, e2


def attempt(f):
    try:
        f()
    except (Exception, SystemExit) as exc:
        return exc
    return None


def run(plan, out):
    signal.signal(signal.SIGPROF, {'default': signal.SIG_DFL, 'ignore': signal.SIG_IGN,
                                   'user': user_handler}[plan['handler']])
    signal.setitimer(signal.ITIMER_PROF, *plan['itimer'])
    greenlet.settrace(user_trace if plan['trace'] else None)
    # a profile function costs time here, so it is set last
    if plan['profile']:
        sys.setprofile(user_profile)
    stack = []
    objects = {}
    original = snapshot()
    itimer_used = [False]
    for i, op in enumerate(plan['ops'] + [['pop']] * len(plan['ops'])):
        if op[0] == 'push':
            step(op[1], stack, objects, itimer_used, out, op[2])
        elif stack:
            pop(stack, itimer_used)
            out.nontrivial = True
        if not stack:
            compare(snapshot(), original, 'nothing runs', itimer_used[0])
            if i >= len(plan['ops']) - 1 or plan['threads']:
                expect(thread_hook() is None, 'new threads are profiled while nothing runs')
    sys.setprofile(None)
    greenlet.settrace(None)


def step(kind, stack, objects, itimer_used, out, again):
    if any(s[0] == kind for s in stack):
        return
    before = snapshot()
    p, e1, e2 = objects.get(kind) if again and kind in objects else make(kind)
    objects[kind] = (p, e1, e2)
    if kind.startswith('tracing') and before['profile'] is not None:
        e1 = RuntimeError
        out.tag('refused')
    in_thread = kind == 'itimer' and again == 2
    if in_thread:
        # signals cannot be set in other threads
        res = []
        t = threading.Thread(target=lambda: res.append(attempt(p.start)))
        t.start()
        t.join()
        exc, e1 = res[0], ValueError
        out.tag('failed-in-thread')
    else:
        exc = attempt(p.start)
    if kind.startswith('itimer') and not in_thread:
        itimer_used[0] = True
    if e1 is not None:
        expect(isinstance(exc, e1), '%s: start raised %r', kind, exc)
        expect(not p.is_running(), '%s is running after a failed start', kind)
        compare(snapshot(), before, 'after the failed start of ' + kind, kind.startswith('itimer') and not in_thread)
        out.tag('failed:' + kind)
        return
    expect(exc is None, '%s: start raised %r', kind, exc)
    now = snapshot()
    if kind.startswith('tracing') or kind == 'hook':
        expect(callable(now['profile']) and now['profile'] != before['profile'], '%s: no profile hook', kind)
        expect(thread_hook() is not None, '%s: new threads are not profiled', kind)
    if kind == 'itimer':
        expect(callable(now['SIGPROF handler']) and now['SIGPROF handler'] != before['SIGPROF handler'],
               'no SIGPROF handler')
        expect(abs(now['itimer'][1] - 2000.0) < 0.5 and now['itimer'][0] > 1900, 'interval timer is %r', now['itimer'])
    if kind == 'tracing-greenlet':
        expect(callable(now['greenlet trace']) and now['greenlet trace'] != before['greenlet trace'],
               'no greenlet trace')
    out.tag(kind)
    stack.append((kind, p, e2, before))


def pop(stack, itimer_used):
    kind, p, e2, before = stack.pop()
    exc = attempt(p.stop)
    if e2 is None:
        expect(exc is None, '%s: stop raised %r', kind, exc)
    else:
        expect(isinstance(exc, e2), '%s: stop raised %r', kind, exc)
    expect(not p.is_running(), '%s is running after stop', kind)
    compare(snapshot(), before, 'after stopping ' + kind, itimer_used[0])
