# -*- coding: utf-8 -*-
import clocks
import functools
import sys
import threading as _threading

import greenlet

from base import expect, expect_eq
import c01
import prog
import threads


from profiling.tracing import TracingProfiler
from profiling.tracing.timers import ContextualTimer, GreenletTimer

ISOLATE = False


# ---------------------------------------------------------------- contexts

class Timer(ContextualTimer):
    now = 0
    current = 'main'

    def clock(self):
        return self.now * prog.UNIT

    def detect_context(self):
        return self.current


CONTEXTS = ['main', 'a', 7, ('b', 1)]


class MContext(object):
    """running: None (never paused or resumed), True, False"""

    def __init__(self):
        self.running = None
        self.ran = 0
        self.last = None        # (reading, ran) of the last reading


def run_contexts(plan, out):
    t = Timer()
    t.now = plan['start']
    ctx = {}
    checked = 0
    for op in plan['ops']:
        k = op[0]
        if k == 'T':
            t.now += op[1]
            for m in ctx.values():
                if m.running is not False:
                    m.ran += op[1]
            continue
        name = CONTEXTS[op[1] % len(CONTEXTS)]
        if k == 'switch':
            t.current = name
            continue
        implicit = op[2] or False
        if implicit:
            name = t.current
        arg = () if implicit else (name,)
        m = ctx.setdefault(name, MContext())
        if k == 'pause':
            t.pause(*arg)
            if m.running is False:
                out.tag('paused-again')
            m.running = False
        elif k == 'resume':
            t.resume(*arg)
            if m.running is True:
                out.tag('resumed-again')
            elif m.running is None:
                # it begins here
                m.last = None
            m.running = True
        elif k == 'read':
            r = t(*arg)
            if m.last is not None:
                r0, ran0 = m.last
                expect(r - r0 == (m.ran - ran0) * prog.UNIT,
                       'context %r: %r measured between two readings, it ran for %r', name, r - r0,
                       (m.ran - ran0) * prog.UNIT)
                checked += 1
                if m.ran - ran0:
                    out.tag('ran-between-readings')
            m.last = (r, m.ran)
    out.nontrivial = checked >= 2 and len(ctx) >= 2


# --------------------------------------------------------------- greenlets

class GReal(threads.Real):
    """Greenlets instead of threads."""

    def __init__(self, plan):
        threads.Real.__init__(self, plan, 'greenlet')
        self.pool.env['H'].update({'W': self.throw, 'R': self.read})
        self.greenlets = {0: greenlet.getcurrent()}
        self.started = set([0])
        self.readings = {}
        self.timer = GreenletTimer()

    def read(self, op):
        self.flush()
        me = self.current
        if not self.p.is_running():
            self.readings.clear()
            return
        value = self.timer()
        self.flush()
        ran = self.work[me]
        if me in self.readings:
            v0, ran0 = self.readings[me]
            expect(value - v0 == (ran - ran0) * prog.UNIT,
                   'greenlet %d: %r measured between two readings, it ran for %r', me, value - v0,
                   (ran - ran0) * prog.UNIT)
            self.checked = getattr(self, 'checked', 0) + 1
        self.readings[me] = (value, ran)

    def start(self):
        if not self.p.is_running():
            self.readings.clear()
            self.p.start()

    def stop(self):
        if self.p.is_running():
            self.p.stop()
            self.readings.clear()
            self.snaps.append(prog.contract(self.p.stats, self.keys))

    def give(self, me, j, throw=False):
        if j == me:
            return
        self.flush()
        self.current = j
        if throw and j in self.started:
            self.greenlets[j].throw(prog.Boom)
            return
        self.started.add(j)
        self.greenlets[j].switch()

    def throw(self, op):
        me = self.current
        self.give(me, self.sched.next(me), True)

    def join(self):
        pass

    def fork(self, op):
        j = op[1] % self.n
        if self.sched.spawn(j):
            self.greenlets[j] = greenlet.greenlet(functools.partial(self.boot, j), self.greenlets[0])

    def boot(self, i, *ignored):
        try:
            self.entries[i](self.plan['threads'][i])
        except prog.Boom:
            pass
        except BaseException as exc:
            self.errors.append(exc)
        self.flush()
        j = self.sched.finish(i)
        if j in self.started and j % 2 == self.plan['die']:
            self.current = j
            self.greenlets[i].parent = self.greenlets[j]
            return
        self.give(i, j)

    def run(self):
        own = [f.__code__ for f in (
            threads.Real.switch, GReal.give, GReal.throw, GReal.fork, threads.Real.flush,
            GReal.start, GReal.stop, GReal.read)]
        # PyPy shows the first frame of a greenlet as called by the switching one
        first = getattr(greenlet, '_greenlet_start', None)
        if first is not None:
            own.append(first.__code__)
        # PyPy shows the frames of the switching greenlet below a greenlet
        self.p = TracingProfiler(timer=self.timer, base_frame=sys._getframe(), base_code=GReal.boot.__code__,
                                 ignored_codes=own)
        clocks.set_cpu(self.process_clock)
        try:
            try:
                if self.plan.get('auto'):
                    self.start()
                try:
                    self.entries[0](self.plan['threads'][0])
                except prog.Boom:
                    pass
                while self.sched.others(0):
                    try:
                        self.give(0, self.sched.next(0, True))
                    except prog.Boom:
                        pass
                self.stop()
            finally:
                sys.setprofile(None)
                _threading.setprofile(None)
                greenlet.settrace(None)
        finally:
            clocks.reset()
        for exc in self.errors:
            raise exc


class GModel(threads.Model):

    def __init__(self, plan, keys):
        threads.Model.__init__(self, plan, 'greenlet', keys)
        self.started = set([0])
        for m in self.models:
            m.hooked = True
            m.other = self.other

    def other(self, op):
        if op[0] == 'Z':
            self.switch()
        elif op[0] == 'F':
            self.fork(op)
        elif op[0] == 'W':
            me = self.current
            j = self.sched.next(me)
            if j != me:
                self.give(j, True)

    def give(self, j, throw=False):
        self.current = j
        if throw and j in self.started:
            self.greenlets[j].throw(prog.Boom)
            return
        self.started.add(j)
        self.greenlets[j].switch()

    def run(self):
        self.greenlets[0] = greenlet.getcurrent()
        if self.plan.get('auto'):
            self.start()
        self.top(0)
        while self.sched.others(0):
            try:
                self.give(self.sched.next(0, True))
            except prog.Boom:
                pass
        self.stop()


def run_greenlets(plan, out):
    plan = dict(plan, threads=[threads.norm(ops, True, False) for ops in plan['threads'][:threads.MAXT]])
    real = GReal(plan)
    real.run()
    model = GModel(plan, real.keys)
    model.run()
    expect(len(real.snaps) == len(model.sessions), '%d sessions recorded, %d started', len(real.snaps),
           len(model.sessions))
    for sess, snap in zip(model.sessions, real.snaps):
        c01.check_hits(sess, snap)
        c01.check_times(sess, snap)
    if len(model.sessions) > 1:
        out.tag('restarted')
    if getattr(real, 'checked', 0):
        out.tag('readings')
    out.nontrivial = model.sched.switches >= 2 and any(
        len(set(p[0] for p in s.hits)) >= 2 for s in model.sessions)


def run(plan, out):
    if plan['mode'] == 'contexts':
        out.tag('contexts')
        run_contexts(plan, out)
    else:
        out.tag('greenlets')
        run_greenlets(plan, out)
