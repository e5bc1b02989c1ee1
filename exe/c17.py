# -*- coding: utf-8 -*-
import clocks
import sys
import threading as _threading

from base import expect
import prog
import threads


from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import TracingSampler

ISOLATE = False


class Recorder(SamplingProfiler):
    """Notes when each thread was sampled."""

    def sample(self, frame):
        self.note(frame)
        super(Recorder, self).sample(frame)


def leaf():
    pass


def raising():
    raise prog.Boom


class Real(threads.Real):

    def __init__(self, plan):
        threads.Real.__init__(self, plan, 'sampler')
        self.interval = plan['interval']
        self.pool.env['H'].update({'K': self.check, 'B': self.bulk, 'R': self.late})
        self.late_events = 0
        self.last = {}          # thread -> its CPU time at the last sample
        self.hooked = set([0])
        self.samples = {}
        self.sampled_at = {}
        self.session_samples = 0
        self.checked = 0
        self.running = False
        self.waited = set()

    def note(self, frame):
        me = self.current
        self.flush()
        t = self.work[me]
        if me in self.last:
            expect(t - self.last[me] >= self.interval,
                   'thread %d was sampled at %d and at %d of its time, the interval is %d', me, self.last[me], t,
                   self.interval)
        self.last[me] = t
        self.sampled_at[me] = [t] + self.sampled_at.get(me, [])[:7]
        self.samples[me] = self.samples.get(me, 0) + 1
        self.session_samples += 1

    def check(self, op=None):
        # calling this was an event
        me = self.current
        if not self.running or me not in self.hooked:
            return
        t = self.work.get(me, 0)
        self.checked += 1
        since = t - self.last.get(me, 0)
        expect(since < self.interval, 'thread %d was last sampled %s, it made a call at %d of its time, '
               'the interval is %d', me, self.last.get(me, 'never'), t, self.interval)

    def sink(self, n):
        # no event but those of calling and leaving this
        self.pending += [n]

    def late(self, op):
        me = self.current
        self.flush()
        t0 = self.work[me]
        last = self.last[me] if me in self.last else 0
        self.pending += [op[1]]
        self.sink(op[2])
        seen = self.sampled_at[me] if me in self.sampled_at else ()
        if self.running and me in self.hooked:
            for t, what in ((t0 + op[1], 'called'), (t0 + op[1] + op[2], 'left')):
                if t - last >= self.interval:
                    self.late_events += 1
                    expect(t in seen, 'thread %d was last sampled at %s of its time, it %s a function at %d but was '
                           'not sampled, the interval is %d', me, last, what, t, self.interval)
                    last = t

    def bulk(self, op):
        push = self.pending.append
        for i in range(op[1]):
            push(op[2])
            if i % 3 == 2:
                try:
                    raising()
                except prog.Boom:
                    pass
            else:
                leaf()
            if i % 16 == 0:
                self.check()

    def fork(self, op):
        j = op[1] % self.n
        if j not in self.sched.spawned and self.running:
            self.hooked.add(j)
        threads.Real.fork(self, op)

    def start(self):
        if not self.running:
            # a call that was due before the start is not an event
            self.session_samples = 0
            self.p.start()
            self.running = True

    def stop(self):
        if self.running:
            self.running = False
            self.p.stop()
            total = self.p.stats.deep_hits
            expect(total == self.session_samples, '%d hits recorded, %d samples taken', total, self.session_samples)

    def run(self):
        self.p = Recorder(sampler=TracingSampler(self.interval * prog.UNIT), base_frame=sys._getframe())
        self.p.note = self.note
        clocks.set_thread(self.thread_clock)
        try:
            try:
                if self.plan.get('auto'):
                    self.start()
                try:
                    self.entries[0](self.plan['threads'][0])
                except prog.Boom:
                    pass
                while self.sched.others(0):
                    self.give(0, self.sched.next(0, True))
                self.join()
                self.check()
                self.stop()
            finally:
                sys.setprofile(None)
                _threading.setprofile(None)
        finally:
            clocks.reset()
        for exc in self.errors:
            raise exc


def run(plan, out):
    plan = dict(plan, threads=[threads.norm(ops, i == 0, False) for i, ops in enumerate(plan['threads'])])
    real = Real(plan)
    real.run()
    n = sum(real.samples.values())
    if len(real.samples) >= 2:
        out.tag('several-threads-sampled')
    if real.late_events:
        out.tag('due-at-a-call-or-return')
    if n > 10000:
        out.tag('over-10000-samples')
    if real.checked and not n:
        out.tag('never-due')
    out.nontrivial = n >= 2 and real.checked >= 2
