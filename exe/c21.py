# -*- coding: utf-8 -*-
"""Background threads start and stop the profiling of the main thread."""
import clocks
import collections
import ctypes
import os
import signal
import sys
import threading

from base import expect, expect_eq, Violation
from profiling.profiler import Profiler
from profiling.remote.background import BackgroundProfiler
from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import Sampler
from profiling.stats import RecordingStatistics
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import Timer

ISOLATE = True
LIMIT = 25
SIGNALS = [None, signal.SIGUSR1, signal.SIGUSR2, signal.SIGWINCH, signal.SIGHUP, signal.SIGRTMIN + 3]
sleep = clocks.REAL['sleep']
usleep = ctypes.CDLL(None).usleep
now = clocks.REAL['monotonic']


class Fault(Exception):
    pass


class Faults(object):
    at = None

    def check(self, at):
        if self.at == at:
            self.at = None
            raise Fault(at)


class Recorder(Profiler):
    """Remembers who ran it."""

    def __init__(self, faults, **kw):
        super(Recorder, self).__init__(**kw)
        self.faults = faults
        self.log = []

    def run(self):
        self.faults.check('start')
        self.log.append(('start', threading.current_thread().name))
        yield
        self.faults.check('stop')
        self.log.append(('stop', threading.current_thread().name))


class FaultyTimer(Timer):

    def __init__(self, faults):
        self.faults = faults

    def run(self, profiler):
        self.faults.check('start')
        yield
        self.faults.check('stop')


class FaultySampler(Sampler):

    def __init__(self, faults):
        self.faults = faults

    def run(self, profiler):
        self.faults.check('start')
        yield
        self.faults.check('stop')


SOURCE = '''
def f(rest):
    step(f, rest)

def g(rest):
    step(g, rest)

def h(rest):
    step(h, rest)

def step(me, rest):
    for k, sub in rest:
        FUNCS[k](sub)
'''
space = {}
exec(compile(SOURCE, '<program>', 'exec'), space)
FUNCS = space['FUNCS'] = [space['f'], space['g'], space['h']]
NAMES = ['f', 'g', 'h']


def work(calls):
    for k, sub in calls:
        FUNCS[k](sub)


def paths(calls, at=()):
    for k, sub in calls:
        p = at + (NAMES[k],)
        yield p
        if sub:
            pass
        q = p + ('step',)
        yield q
        for x in paths(sub, q):
            yield x


def counts(stats):
    """Calls of the program's functions by path; everything else is left out."""
    res = collections.Counter()
    todo = [(stats, ())]
    while todo:
        s, path = todo.pop()
        for c in s:
            p = path + (c.name,)
            if c.filename != '<program>':
                continue
            if c.own_hits:
                res[p] += c.own_hits
            todo.append((c, p))
    return res


class Hand(threading.Thread):
    """A background thread which does what it is told."""

    def __init__(self, name):
        super(Hand, self).__init__(name=name)
        self.daemon = True
        self.job = None
        self.result = None
        self.start()

    def run(self):
        while True:
            while self.job is None:
                sleep(0.0001)
            try:
                res = (None, self.job())
            except BaseException as exc:
                res = (exc, None)
            self.job = None
            self.result = res


class Session(object):

    def __init__(self, plan, out):
        self.out = out
        self.plan = plan
        self.faults = Faults()
        code = work.__code__
        self.kind = plan['kind']
        if self.kind == 'record':
            self.inner = Recorder(self.faults, base_code=code)
        elif self.kind == 'trace':
            self.inner = TracingProfiler(base_code=code, timer=FaultyTimer(self.faults))
        else:
            self.inner = SamplingProfiler(base_code=code, sampler=FaultySampler(self.faults))
        signum = SIGNALS[plan['signal'] % len(SIGNALS)]
        self.signum = signum or BackgroundProfiler.signum
        self.others = {s: signal.getsignal(s) for s in SIGNALS if s and s != self.signum}
        self.p = BackgroundProfiler(self.inner, signum) if signum else BackgroundProfiler(self.inner)
        previous = signal.getsignal(self.signum)
        got = self.p.prepare()
        expect(got == previous or got is previous, 'prepare() returned %r, the handler was %r', got, previous)
        self.hands = [Hand('hand%d' % i) for i in range(2)]
        self.running = False
        self.want = collections.Counter()
        self.log = []

    def be_deaf(self, sec, hand, job):
        """The main thread handles no signals for a while."""
        signal.pthread_sigmask(signal.SIG_BLOCK, [self.signum])
        try:
            hand.job = job
            if callable(sec):
                sec()
            else:
                usleep(int(sec * 1e6))
        finally:
            signal.pthread_sigmask(signal.SIG_UNBLOCK, [self.signum])

    def tell(self, i, job, meanwhile=None, deaf=0):
        """Lets a background thread do something.  Returns (its exception, its
        result, whether the main thread was hit by a Fault)."""
        hand = self.hands[i]
        hand.result = None
        hit = False
        given = False
        end = now() + LIMIT
        while True:
            # the Fault may come up anywhere
            try:
                if not given:
                    given = True
                    if deaf:
                        self.be_deaf(deaf, hand, job)
                    else:
                        hand.job = job
                while hand.result is None:
                    if meanwhile is not None:
                        meanwhile()
                    elif not self.plan['busy']:
                        sleep(0.0001)
                    if now() > end:
                        raise Violation('the background thread waits forever')
                break
            except (Fault, RuntimeError):
                # TracingProfiler refuses to start with a RuntimeError
                hit = True
        return hand.result + (hit,)

    def state(self, what):
        expect_eq(self.inner.is_running(), self.running, 'the wrapped profiler is running %s' % what)
        expect_eq(self.p.is_running(), self.running, 'the background profiler is running %s' % what)
        expect(self.p.stats is self.inner.stats, 'the statistics are not those of the wrapped profiler')
        expect_eq(self.p.table_class, type(self.inner).table_class, 'table class')
        if self.kind == 'trace':
            expect_eq(sys.getprofile() is not None, self.running, 'profile hook installed %s' % what)
        if self.kind == 'record':
            expect_eq(self.inner.log, self.log, 'what the wrapped profiler did %s' % what)
        else:
            got = counts(self.inner.stats)
            expect_eq(dict(got), dict(self.want), 'calls of the main thread %s' % what)

    def note(self, what):
        self.log.append((what, 'MainThread'))

    def begin(self, i, fault=False, deaf=0):
        if fault:
            self.faults.at = 'start'
        exc, now_running, hit = self.tell(i, lambda: (self.p.start(), self.inner.is_running())[1], deaf=deaf)
        if exc is None and not fault:
            expect(now_running, 'start() is done before the wrapped profiler is started')
        if self.running:
            self.faults.at = None
            expect(isinstance(exc, RuntimeError), 'starting twice: %r', exc)
            expect(not hit, 'a refused start reached the main thread')
            self.out.tag('refused-start')
        elif fault:
            expect(isinstance(exc, Fault), 'the failure of the wrapped profiler got lost: %r', exc)
            expect(not hit, 'the failure of the wrapped profiler disturbed the main thread')
            self.want.clear()
            self.out.tag('failed-start')
        else:
            expect(exc is None and not hit, 'start failed: %r', exc)
            self.running = True
            self.want.clear()
            self.note('start')
        self.state('after start')

    def end(self, i, fault=False, deaf=0):
        if fault:
            self.faults.at = 'stop'
        exc, still_running, hit = self.tell(i, lambda: (self.p.stop(), self.inner.is_running())[1], deaf=deaf)
        if exc is None and not fault:
            expect(not still_running, 'stop() is done before the wrapped profiler is stopped')
        if not self.running:
            self.faults.at = None
            expect(isinstance(exc, RuntimeError), 'stopping twice: %r', exc)
            expect(not hit, 'a refused stop reached the main thread')
            self.out.tag('refused-stop')
        elif fault:
            expect(isinstance(exc, Fault), 'the failure of the wrapped profiler got lost: %r', exc)
            expect(not hit, 'the failure of the wrapped profiler disturbed the main thread')
            self.running = False
            self.out.tag('failed-stop')
        else:
            expect(exc is None and not hit, 'stop failed: %r', exc)
            self.running = False
            self.note('stop')
            self.out.tag('stopped')
        self.state('after stop')

    def do_start(self, i):
        self.begin(i)

    def do_stop(self, i):
        self.end(i)

    def do_deaf(self, i, sec):
        """The signal is not handled at once."""
        if self.running:
            self.end(i, deaf=sec)
        else:
            self.begin(i, deaf=sec)
        self.out.tag('deaf')

    def do_twins(self, i, lead, turns):
        """Another background profiler, of another signal, is at work at the
        same time.  Its signals are handled, ours is not yet."""
        signum = [x for x in SIGNALS if x and x != self.signum][turns % 4]
        inner = Recorder(Faults())
        twin = BackgroundProfiler(inner, signum)
        previous = twin.prepare()
        hand = self.hands[1 - i]
        mine = self.hands[i]
        seen = []

        def job():
            for x in range(turns + 1):
                twin.start()
                seen.append(inner.is_running())
                twin.stop()
                seen.append(inner.is_running())

        def meanwhile():
            sleep(lead)
            hand.result = None
            hand.job = job
            end = now() + LIMIT
            while hand.result is None:
                sleep(0.0001)
                if now() > end:
                    raise Violation('the background thread of the other background profiler waits forever')
            sleep(0.002)
            expect(mine.result is None, 'start() or stop() is done although the signal has not been handled yet')
        # no other thread takes the signal for the main thread
        for k in (0, 1):
            self.tell(k, lambda: signal.pthread_sigmask(signal.SIG_BLOCK, [self.signum]))
        if self.running:
            self.end(i, deaf=meanwhile)
        else:
            self.begin(i, deaf=meanwhile)
        result = hand.result
        for k in (0, 1):
            self.tell(k, lambda: signal.pthread_sigmask(signal.SIG_UNBLOCK, [self.signum]))
        signal.signal(signum, previous)
        expect(result[0] is None, 'the other background profiler failed: %r', result[0])
        expect_eq(seen, [True, False] * (turns + 1), 'the other background profiler is running')
        self.out.tag('twins')

    def do_fail(self, i, what):
        if what == 'start':
            self.begin(i, True)
        else:
            self.end(i, True)

    def do_occupied(self, i):
        """Another profile function keeps the tracing profiler from starting."""
        if self.running or self.kind != 'trace':
            return
        other = lambda *a: None
        sys.setprofile(other)
        try:
            exc, _, hit = self.tell(i, self.p.start)
            expect(isinstance(exc, RuntimeError), 'the refusal of the wrapped profiler got lost: %r', exc)
            expect(not hit, 'the refusal of the wrapped profiler disturbed the main thread')
            expect(sys.getprofile() is other, 'the profile function was replaced')
        finally:
            sys.setprofile(None)
        self.want.clear()
        self.state('after a refused start')
        self.out.tag('occupied')

    def do_work(self, calls):
        work(calls)
        if self.running and self.kind == 'trace':
            self.want.update(paths(calls))
            if calls:
                self.out.tag('recorded')
        elif self.running and self.kind == 'sample':
            # a sampler thread would give any frame
            frame = sys._getframe()
            sampled = []

            def f():
                sampled.append(sys._getframe())
            self.inner.sample(frame)
        self.state('after work')

    def do_foreign(self):
        """Somebody else sends the signal, twice: nothing changes in the end."""
        if self.running:
            return
        for running in (True, False):
            os.kill(os.getpid(), self.signum)
            end = now() + LIMIT
            while self.inner.is_running() != running and now() < end:
                sleep(0.0005)
        self.log = list(self.inner.log) if self.kind == 'record' else []
        self.want = counts(self.inner.stats)
        self.state('after signals of somebody else')
        self.out.tag('foreign-signals')

    def do_result(self):
        a = self.p.result()
        b = self.inner.result()
        expect(a[0] is b[0] or dict(counts(a[0])) == dict(counts(b[0])), 'result')
        if not self.running:
            expect_eq(a[1:], b[1:], 'times of the result')

    def do_with(self, i, calls, boom):
        """A block in the background thread; the main thread works meanwhile."""
        if self.running:
            return
        started, go = [], []

        def block():
            with self.p:
                started.append(self.inner.is_running())
                while not go:
                    sleep(0.0001)
                if boom:
                    raise KeyError('boom')

        def meanwhile():
            if started and not go:
                self.running = True
                self.want.clear()
                self.note('start')
                self.do_work(calls)
                go.append(1)
            else:
                sleep(0.0001)
        exc, _, hit = self.tell(i, block, meanwhile)
        expect(started == [True], 'the profiler did not run in the block')
        expect(isinstance(exc, KeyError) if boom else exc is None, 'the block ended with %r', exc)
        self.running = False
        self.note('stop')
        self.state('after the block')
        self.out.tag('with')

    def do_race(self, i):
        """The main thread never waits for the background thread."""
        if self.running or self.kind != 'trace':
            return
        c = [0]
        seen = {}
        f = FUNCS[0]

        def job():
            seen['before'] = c[0]
            self.p.start()
            seen['started'] = c[0]
            while c[0] < seen['started'] + 20:
                sleep(0.0001)
            seen['stopping'] = c[0]
            self.p.stop()

        def meanwhile():
            for _ in range(10):
                c[0] += 1
                busy(f)
        exc, _, hit = self.tell(i, job, meanwhile)
        after = c[0]
        expect(exc is None and not hit, 'start or stop failed: %r', exc)
        n = sum(x.own_hits for x in find(self.inner.stats, 'f'))
        expect(seen['stopping'] - seen['started'] - 1 <= n <= after - seen['before'] + 1,
               '%d calls recorded of between %d and %d', n, seen['stopping'] - seen['started'] - 1,
               after - seen['before'] + 1)
        self.inner.stats.clear()
        self.want.clear()
        self.state('after a race')
        self.out.tag('race')


def busy(f):
    f([])


def find(stats, name):
    todo = [stats]
    for s in todo:
        for c in s:
            if c.name == name and c.filename == '<program>':
                yield c
            todo.append(c)


def run(plan, out):
    s = Session(plan, out)
    for op in plan['ops']:
        getattr(s, 'do_' + op[0])(*op[1:])
    if s.running:
        s.end(0)
    for signum, handler in s.others.items():
        expect_eq(signal.getsignal(signum), handler, 'handler of signal %d' % signum)
    out.tag(s.kind, 'signal%d' % s.signum)
    out.nontrivial = ('recorded' in out.tags or s.kind == 'record' and 'stopped' in out.tags or
                      'race' in out.tags)
