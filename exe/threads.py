# -*- coding: utf-8 -*-
"""Generated programs of several threads (C14, C28).

The threads run one at a time; control moves only where the program says so
(operation Z), to the thread which the generated schedule names, so every run
of a plan interleaves the calls in the same way.  The model runs the same
programs in greenlets under the same schedule."""
import clocks
import _thread
import signal
import sys
import threading

import greenlet

from base import expect
import prog


from c01 import IdleSampler, VTimer
from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import ItimerSampler, TracingSampler
from profiling.stats import RecordingStatistics
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import ThreadTimer, Timer

MAXT = 4


def norm(ops, main, signals):
    res = []
    for op in ops:
        k = op[0]
        if k in ('C', 'Y'):
            res.append([k, op[1] % prog.NFUNC, norm(op[2], main, signals)])
        elif k == 'G':
            res.append([k, op[1], op[2] % prog.NGEN, norm(op[3], main, signals)])
        elif k in ('S', 'Q') and not main or k == 's' and not signals:
            pass
        else:
            res.append(list(op))
    return res


def entry(plan, i):
    """Which function a thread runs.  All but the main thread, which is
    not called by the threading module, may run the same one."""
    if i and plan.get('share'):
        return 1 + (i - 1) % plan['share']
    return i


class Schedule(object):
    """Who runs next."""

    def __init__(self, choices):
        self.choices = choices or [0]
        self.at = 0
        self.alive = [0]
        self.spawned = set([0])
        self.switches = 0

    def spawn(self, j):
        if j in self.spawned:
            return False
        self.spawned.add(j)
        self.alive.append(j)
        return True

    def next(self, me, other=False):
        """The thread that runs after `me` gives way."""
        c = self.choices[self.at % len(self.choices)]
        self.at += 1
        alive = self.others(me) if other else self.alive
        j = alive[c % len(alive)]
        if j != me:
            self.switches += 1
        return j

    def finish(self, me):
        self.alive.remove(me)
        return self.next(me)

    def others(self, me):
        return [j for j in self.alive if j != me]


def switching(cls, real):
    """A timer which may give way to another thread when it is read, in the
    middle of the work of the profiler."""
    if not real.plan.get('inner'):
        return cls

    class Switching(cls):

        def __call__(self):
            real.midway(sys._getframe(1))
            return cls.__call__(self)
    return Switching


def in_pool(frame):
    # not while this file is busy with switching
    while frame is not None:
        if frame.f_code.co_filename == __file__:
            return False
        if frame.f_code.co_filename.startswith('<pool'):
            return True
        frame = frame.f_back


class Real(object):

    def __init__(self, plan, kind):
        self.plan = plan
        self.kind = kind
        self.n = len(plan['threads'])
        self.sched = Schedule(plan['schedule'])
        self.locks = [_thread.allocate_lock() for _ in range(self.n)]
        for lock in self.locks:
            lock.acquire()
        self.threads = [None] * self.n
        self.finished = []
        self.pending = []
        self.work = {}
        self.idents = {_thread.get_ident(): 0}
        self.total = plan.get('origin', 0)
        self.snaps = []
        self.frozen = None
        self.errors = []
        hooks = {'Z': self.switch, 'F': self.fork}
        # built-in functions only: the signal interrupts the pool function
        self.pool = prog.Pool(self.pending.append, self.start, self.stop, signal.raise_signal, hooks=hooks,
                              sarg=[signal.SIGPROF].__getitem__)
        self.entries = []
        self.keys = list(self.pool.keys)
        for i in range(self.n):
            name = 'thread%d' % i
            code = compile(prog.FUNC.format(name=name), '<pool:%s>' % name, 'exec')
            exec(code, self.pool.env)
            fn = self.pool.env.pop(name)
            self.entries.append(fn)
            self.keys.append((name, '<pool:%s>' % name, fn.__code__.co_firstlineno))
        self.entries = [self.entries[entry(plan, i)] for i in range(self.n)]
        self.current = 0
        self.at = 0

    # clocks
    def flush(self):
        w = sum(self.pending)
        del self.pending[:]
        self.total += w
        me = self.current
        self.work[me] = self.work.get(me, 0) + w

    def thread_clock(self, ident):
        self.flush()
        return self.work.get(self.idents.get(ident), 0) * prog.UNIT

    def process_clock(self):
        self.flush()
        return self.total * prog.UNIT

    # scheduling
    def midway(self, frame):
        """Called in the middle of the work of the profiler."""
        inner = self.plan['inner']
        self.at += 1
        if (inner[self.at % len(inner)] and self.idents.get(_thread.get_ident()) == self.current and
                in_pool(frame)):
            self.switch()

    def switch(self, op=None):
        me = self.current
        self.give(me, self.sched.next(me))

    def give(self, me, j):
        if j == me:
            return
        self.flush()
        self.current = j
        # no events of this thread while another one runs
        hook = sys.getprofile()
        sys.setprofile(None)
        self.locks[j].release()
        self.locks[me].acquire()
        sys.setprofile(hook)
        self.join()

    def join(self):
        while self.finished:
            self.finished.pop().join()

    def fork(self, op):
        j = op[1] % self.n
        if not self.sched.spawn(j):
            return
        ready = _thread.allocate_lock()
        ready.acquire()
        self.threads[j] = threading.Thread(target=self.boot, args=(j, ready))
        self.threads[j].daemon = True
        self.threads[j].start()
        ready.acquire()

    def boot(self, i, ready):
        # an identifier may have been that of a thread which has ended
        self.idents[_thread.get_ident()] = i
        hook = sys.getprofile()
        sys.setprofile(None)
        ready.release()
        self.locks[i].acquire()
        sys.setprofile(hook)
        self.join()
        try:
            self.entries[i](self.plan['threads'][i])
        except prog.Boom:
            pass
        except BaseException as exc:
            self.errors.append(exc)
        self.finish(i)

    def finish(self, i):
        self.flush()
        j = self.sched.finish(i)
        self.finished.append(self.threads[i])
        del self.idents[_thread.get_ident()]
        self.current = j
        sys.setprofile(None)
        self.locks[j].release()

    # profiling
    def start(self):
        if not self.p.is_running():
            self.unchanged('until the next start')
            self.p.start()

    def stop(self):
        if self.p.is_running():
            self.p.stop()
            self.snaps.append(prog.contract(self.p.stats, self.keys))
            self.frozen = dump(self.p.stats)

    def unchanged(self, when):
        if self.frozen is not None:
            now = dump(self.p.stats)
            expect(now == self.frozen, 'the statistics changed after stop, %s:\n%s\nat stop:\n%s',
                   when, diff(now, self.frozen), diff(self.frozen, now))

    def run(self):
        # other threads run inside these, which would be part of their time
        kwargs = {'base_frame': sys._getframe(),
                  'ignored_codes': [f.__code__ for f in (
                      Real.switch, Real.give, Real.join, Real.fork, Real.boot, Real.finish, Real.flush,
                      Real.start, Real.stop)]}
        if self.kind == 'plain':
            self.p = TracingProfiler(timer=switching(Timer, self)(), **kwargs)
        elif self.kind == 'thread':
            self.p = TracingProfiler(timer=switching(ThreadTimer, self)(), **kwargs)
        elif self.kind == 'hook':
            self.p = SamplingProfiler(sampler=TracingSampler(0), **kwargs)
        elif self.kind == 'itimer':
            self.p = SamplingProfiler(sampler=ItimerSampler(100000), **kwargs)
        clocks.set_cpu(self.process_clock)
        clocks.set_thread(self.thread_clock)
        real_init = RecordingStatistics.__init__

        def init(stats, *args, **kwargs):
            real_init(stats, *args, **kwargs)
            self.midway(sys._getframe(1))
        if self.plan.get('inner'):
            # another thread may come to the same function meanwhile
            RecordingStatistics.__init__ = init
        try:
            try:
                if self.plan.get('auto'):
                    self.start()
                try:
                    self.entries[0](self.plan['threads'][0])
                except prog.Boom:
                    pass
                while self.sched.others(0):
                    self.give(0, self.sched.next(0, True))
                self.join()
                self.stop()
                self.unchanged('at the end')
            finally:
                sys.setprofile(None)
                threading.setprofile(None)
        finally:
            RecordingStatistics.__init__ = real_init
            clocks.reset()
        for exc in self.errors:
            raise exc


def dump(root):
    """Every node with its figures."""
    res = {}
    todo = [((), root)]
    while todo:
        path, stats = todo.pop()
        res[path] = (stats.own_hits, stats.deep_time)
        for i, child in enumerate(stats):
            todo.append((path + ((i, child.name, child.filename, child.lineno),), child))
    return res


def diff(a, b):
    return '\n'.join('  %s: %s' % (' > '.join(str(x[1]) for x in k) or '(root)', a[k])
                     for k in sorted(a, key=repr) if b.get(k) != a[k])


class TModel(prog.Model):

    def __init__(self, coop, i):
        self.coop = coop
        self.mine = 0
        self.i = i
        self.hooked = False
        prog.Model.__init__(self, coop.keys, running=False)

    def enter(self, key, frame=None):
        if self.hooked and self.cur is None and self.coop.sessions:
            self.coop.after += 1
        return prog.Model.enter(self, key, frame)

    def get_w(self):
        return self.coop.total if self.coop.kind == 'plain' else self.mine

    def set_w(self, w):
        if self.coop.kind == 'plain':
            self.coop.total = w
        else:
            self.mine = w

    w = property(get_w, set_w)

    def start(self):
        return self.coop.start()

    def stop(self):
        return self.coop.stop()

    def other(self, op):
        if op[0] == 'Z':
            self.coop.switch()
        elif op[0] == 'F':
            self.coop.fork(op)


class Model(object):
    """The same schedule in greenlets."""

    def __init__(self, plan, kind, keys):
        self.plan = plan
        self.kind = kind
        self.keys = keys
        self.n = len(plan['threads'])
        self.sched = Schedule(plan['schedule'])
        self.total = 0
        self.sessions = []
        self.cur = None
        self.greenlets = {}
        self.models = [TModel(self, i) for i in range(self.n)]
        for m in self.models:
            m.sampling = kind == 'itimer'
        self.models[0].hooked = True
        self.current = 0
        self.gens = {}
        self.old_recorded = False
        self.after = 0      # calls of hooked threads while nothing is recorded

    def start(self):
        if self.cur is not None:
            return False
        s = prog.Session(len(self.sessions), self.models[0].visible(self.models[0].stack))
        s.threads = set()
        for m in self.models:
            if m.hooked:
                for k in range(1, len(m.stack)):
                    s.start_paths.append(m.visible(m.stack[:k]))
                s.start_paths.append(m.visible(m.stack))
                m.cur = s
                if m.i and m.stack:
                    self.old_recorded = True
        self.cur = s
        self.sessions.append(s)
        return True

    def stop(self):
        if self.cur is None:
            return False
        self.cur = None
        for m in self.models:
            m.cur = None
        return True

    def switch(self):
        me = self.current
        j = self.sched.next(me)
        if j != me:
            self.give(j)

    def give(self, j):
        self.current = j
        self.greenlets[j].switch()

    def fork(self, op):
        j = op[1] % self.n
        if not self.sched.spawn(j):
            return
        m = self.models[j]
        if self.cur is not None:
            m.hooked = True
            m.cur = self.cur
        self.greenlets[j] = greenlet.greenlet(lambda: self.boot(j))

    def boot(self, j):
        self.top(j)
        # never switched to again
        self.give(self.sched.finish(j))

    def top(self, j):
        m = self.models[j]
        m.gens = self.gens
        m.enter(self.keys[len(prog.SPECS) + entry(self.plan, j)])
        try:
            m.body(self.plan['threads'][j])
        except prog.Boom:
            if m.cur is not None:
                m.cur.exc += 1
        finally:
            m.leave()

    def run(self):
        self.greenlets[0] = greenlet.getcurrent()
        if self.plan.get('auto'):
            self.start()
        self.top(0)
        while self.sched.others(0):
            self.give(self.sched.next(0, True))
        self.stop()


def run(plan, kind):
    plan = dict(plan, threads=[norm(ops, i == 0, i == 0 and kind == 'itimer') for i, ops in enumerate(plan['threads'][:MAXT])])
    real = Real(plan, kind)
    real.run()
    model = Model(plan, kind, real.keys)
    model.run()
    return real, model
