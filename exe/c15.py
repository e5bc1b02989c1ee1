# -*- coding: utf-8 -*-
import clocks
import sys
import threading

from base import expect, expect_eq
import c01
import prog

import threads
from threads import dump

from profiling.profiler import Profiler, ProfilerWrapper
from profiling.sampling import SamplingProfiler
from profiling.tracing import TracingProfiler

ISOLATE = False
KINDS = ['tracing', 'tracing-apart', 'sampling', 'null']


class NullProfiler(Profiler):
    def run(self):
        yield


class State(object):
    def __init__(self):
        self.cpu = 0
        self.wall = 0


#: leaves a call which began before the session
STARTER = """
def starter(costs, work):
    START()
    SET(clock, 'costs', costs)
    P(work)
"""


def refuse(f, what):
    try:
        f()
    except RuntimeError:
        return
    expect(False, '%s was not refused', what)


def run_threads(plan, out):
    # sessions in the middle of the calls of several threads
    real, model = threads.run(plan, ['plain', 'thread'][plan['timer']])
    expect(len(real.snaps) == len(model.sessions), '%d sessions recorded, %d started', len(real.snaps),
           len(model.sessions))
    for sess, snap in zip(model.sessions, real.snaps):
        c01.check_hits(sess, snap)
        c01.check_times(sess, snap)
    out.tag('threads')
    if model.old_recorded:
        out.tag('restarted-with-old-threads')
    out.nontrivial = len(model.sessions) >= 2 and any(s.hits for s in model.sessions[1:])


def run(plan, out):
    if 'threads' in plan:
        return run_threads(plan, out)
    kind = KINDS[plan['kind']]
    st = State()
    st.wall = plan['wall0']
    st.cpu = plan['cpu0']
    clock = prog.VClock([0])
    costs = plan['costs']
    apart = kind == 'tracing-apart'     # a timer that is not the CPU clock
    clocks.set_cpu(lambda: (st.cpu + (clock.work if apart else clock.now)) * prog.UNIT)
    clocks.set_wall(lambda: st.wall * prog.UNIT)
    pool = prog.Pool(clock.push, None, None, lambda f: p.sample(f) if p.is_running() else None)
    kwargs = {'base_frame': sys._getframe()}
    if kind.startswith('tracing'):
        p = TracingProfiler(timer=c01.VTimer(clock), **kwargs)
    elif kind == 'sampling':
        p = SamplingProfiler(sampler=c01.IdleSampler(), **kwargs)
    else:
        p = NullProfiler(**kwargs)
    view = ProfilerWrapper(p) if plan['wrap'] else p
    env = {'START': p.start, 'SET': setattr, 'clock': clock, 'P': clock.push}
    exec(compile(STARTER, '<starter>', 'exec'), env)
    model = prog.Model(pool.keys, running=False, sampling=kind == 'sampling')
    running = False
    started = stopped = None        # (cpu, wall) in units
    sessions = 0
    asked = 0

    def flush():
        clock()

    def check_result(what):
        flush()
        if started is None:
            want = (0, 0)
        else:
            now = (st.cpu + clock.work, st.wall) if running else stopped
            want = (max(0, now[0] - started[0]) * prog.UNIT, max(0, now[1] - started[1]) * prog.UNIT)
        stats, cpu, wall = view.result()
        expect_eq(wall, want[1], '%s: wall time' % what)
        if apart:
            least = max(0, want[0] - (clock.now - clock.work) * prog.UNIT)
            expect(least <= cpu <= want[0], '%s: CPU time %r, passed %r', what, cpu, want[0])
        else:
            expect_eq(cpu, want[0], '%s: CPU time' % what)
        return stats

    def tree(stats):
        return {k: v.hits for k, v in prog.contract(stats, pool.keys).items()}
    try:
        for op in plan['ops']:
            k = op[0]
            if k == 'S':
                if running:
                    refuse(p.start, 'a second start')
                    check_result('after a refused start')
                    out.tag('refused-start')
                else:
                    flush()
                    started = (st.cpu + clock.work, st.wall)
                    running = True
                    p.start()
                    model.start()
                    sessions += 1
            elif k == 'I':
                if not running:
                    flush()
                    started = (st.cpu + clock.work, st.wall)
                    running = True
                    env['starter'](costs, op[1])
                    clock.costs = [0]
                    model.start()
                    model.step(['T', op[1]])
                    sessions += 1
                    out.tag('started-inside-a-call')
            elif k == 'Q':
                if running:
                    flush()
                    p.stop()
                    running = False
                    stopped = (st.cpu + clock.work, st.wall)
                    model.stop()
                else:
                    refuse(p.stop, 'a second stop')
                    out.tag('refused-stop')
            elif k == 'T':
                st.cpu += op[1]
                st.wall += op[2]
            elif k == 'P':
                flush()
                body = prog.norm(op[2])
                func = pool.func(op[1])
                clock.costs = costs
                try:
                    clock.push(0)
                    func(body)
                except prog.Boom:
                    pass
                clock.costs = [0]
                try:
                    model.call(op[1] % prog.NFUNC, body)
                except prog.Boom:
                    pass
            elif k == 'R':
                stats = check_result('result')
                asked += 1
                if running:
                    out.tag('asked-while-running')
                else:
                    before = dump(stats)
                    expect(dump(check_result('result again')) == before, 'asking for the result changed it')
                    expect(dump(view.stats) == before, 'stats and result differ')
                if kind != 'null':
                    want = model.sessions[-1].hits if model.sessions else {}
                    got = {q: n for q, n in tree(stats).items() if n}
                    expect_eq(sorted(got.items()), sorted(want.items()), 'calls of the latest session')
                elif sessions:
                    expect_eq(len(stats), 0, 'children of an empty result')
    finally:
        sys.setprofile(None)
        threading.setprofile(None)
        clocks.reset()
    out.tag(kind)
    if sessions > 1:
        out.tag('several-sessions')
    if clock.reads and any(costs):
        out.tag('overhead')
    out.nontrivial = sessions >= 1 and asked >= 1
