# -*- coding: utf-8 -*-
"""C01-C03: tracing generated programs."""
import clocks
import signal
import sys

from base import Inconclusive, expect, Violation
import prog

from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import ItimerSampler, Sampler
from profiling.stats import RecordingStatistics
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import Timer

ISOLATE = False
FOCUS = 'C01'


class VTimer(Timer):
    clock = None

    def __init__(self, clock):
        self.clock = clock


class IdleSampler(Sampler):
    """Samples only when it is told to."""

    def run(self, profiler):
        yield


def pick_frames(plan, n):
    """Indices of the base frame and of the ignored frames in the stack."""
    base, ignored = plan['byframe']
    if n == 0:
        return None, []
    bi = None if base is None else base % n
    return bi, sorted(set(i % n for i in ignored if i % n != bi))


def run_traced(plan, kind='trace'):
    """Runs the program under a profiler.  Returns (pool, model, [snapshots],
    profiler).  kind: 'trace'; 'sample' (the program passes frames to
    sample()); 'signal' (the program raises SIGPROF)."""
    ops = prog.norm(plan['ops'])
    if plan.get('deep'):
        sys.setrecursionlimit(8000)
        n, cycle = plan['deep']
        for i in range(n):
            ops = [['C', cycle[i % len(cycle)] % prog.NFUNC, ops]]
    clock = prog.VClock(plan.get('costs', [0]), plan.get('origin', 0))
    snaps = []
    state = {}

    def start():
        p = state['p']
        if not p.is_running():
            if by_frame:
                set_frames(p)
            p.start()

    def set_frames(p):
        """Picks the base and the ignored frames from the stack."""
        stack = []
        frame = sys._getframe(2)
        while frame is not None:
            if frame.f_code in pool.codes:
                stack.append(frame)
            frame = frame.f_back
        stack.reverse()
        n = len(stack)
        bi, ii = pick_frames(plan, n)
        if bi is not None:
            p.base_frame = stack[bi]
        p.ignored_frames = container([stack[i] for i in ii])
    by_frame = plan.get('byframe')
    container = {0: tuple, 1: list, 2: set}[plan.get('container', 0) % 3]

    def stop():
        p = state['p']
        if p.is_running():
            p.stop()
            snap(p)

    nest = plan.get('nest')
    nested = []
    real_init = RecordingStatistics.__init__

    def init(stats, *args, **kwargs):
        real_init(stats, *args, **kwargs)
        frame = sys._getframe(1)
        state['made'] = state.get('made', 0) + 1
        if not nest[state['made'] % len(nest)] or not p.is_running():
            return
        path = []
        sampling = 0
        while frame is not None:
            sampling += frame.f_code is SamplingProfiler.sample.__code__
            # codes of different files may be equal
            path += [key for key, code in zip(pool.keys, pool.codes) if code is frame.f_code]
            frame = frame.f_back
        if not path or sampling > 1:
            return
        # another sample is due while one is being taken.  (The handler of a
        # signal may run a little later, outside this function.)
        if kind == 'signal':
            signal.raise_signal(signal.SIGPROF)
        else:
            p.sample(sys._getframe())
        nested.append((len(snaps), tuple(reversed(path))))

    def snap(p):
        tree = prog.contract(p.stats, pool.keys)
        snaps.append(tree)
        roots.append((p.stats.own_hits, p.stats.deep_hits))

    roots = state['roots'] = []
    # start() and stop() run inside frames of this file, which contract() skips
    def sample(frame):
        p = state['p']
        if p.is_running():
            p.sample(frame)
    sarg = None
    if kind == 'signal':
        # built-in functions only: the signal interrupts the pool function
        sample, sarg = signal.raise_signal, [signal.SIGPROF].__getitem__
    pool = prog.Pool(clock.push, start, stop, sample, sarg=sarg)
    kwargs = {}
    base = plan.get('base')
    ignored = [i % len(pool.codes) for i in plan.get('ignored', ())]
    if base is not None:
        base %= len(pool.codes)
        kwargs['base_code'] = pool.codes[base]
    elif plan.get('frame', True):
        kwargs['base_frame'] = sys._getframe()
    if ignored:
        codes = [pool.codes[i] for i in ignored]
        kwargs['ignored_codes'] = container(codes)
    if kind == 'trace':
        p = TracingProfiler(timer=VTimer(clock), **kwargs)
        if any(plan.get('work', ())):
            slow_down(p, clock, plan['work'])
    else:
        sampler = IdleSampler() if kind == 'sample' else ItimerSampler(100000)
        p = SamplingProfiler(sampler=sampler, **kwargs)
    state['p'] = p
    if kind == 'signal':
        signal.signal(signal.SIGPROF, signal.SIG_IGN)
    auto = plan.get('auto', True)
    model = prog.Model(pool.keys, running=auto,
                       base=pool.keys[base] if base is not None else None,
                       ignored=[pool.keys[i] for i in ignored], sampling=kind != 'trace')
    if by_frame:
        def on_start():
            bi, ii = pick_frames(plan, len(model.stack))
            if bi is not None:
                model.base_frame = model.stack[bi]
            model.ignored_frames = [model.stack[i] for i in ii]
        model.on_start = on_start
    root = pool.func(plan.get('root', 0))
    if sys.getprofile() is not None:
        sys.setprofile(None)
        raise Violation('a profile hook was left behind by an earlier session')
    try:
        if nest:
            RecordingStatistics.__init__ = init
        if auto:
            p.start()
        try:
            root(ops)
        except prog.Boom:
            pass
        if p.is_running():
            for _ in range(plan.get('outside', 0)):
                # the base frame itself is on top
                if kind == 'signal':
                    signal.raise_signal(signal.SIGPROF)
                else:
                    p.sample(sys._getframe())
            p.stop()
            snap(p)
            state['outside'] = plan.get('outside', 0)
    finally:
        RecordingStatistics.__init__ = real_init
        sys.setprofile(None)
        import threading
        threading.setprofile(None)
    try:
        model.call(plan.get('root', 0) % prog.NFUNC, ops)
    except prog.Boom:
        pass
    p.roots = roots
    p.nested = nested
    if state.get('outside'):
        model.sessions[-1].samples += state['outside']
    return pool, model, snaps, p


def slow_down(p, clock, work):
    """Makes the profiler's own work take time."""
    turn = [0]

    def slow(f):
        def wrapped(*args, **kwargs):
            turn[0] += 1
            clock.now += work[turn[0] % len(work)]
            return f(*args, **kwargs)
        return wrapped
    for name in ('frame_stack', 'record_entering', 'record_leaving'):
        setattr(p, name, slow(getattr(p, name)))


def check_hits(sess, snap):
    for path in sorted(set(sess.hits) | set(snap), key=lambda p: (len(p), p)):
        got = snap[path].hits if path in snap else 0
        want = sess.hits.get(path, 0)
        expect(got == want, 'session %d, %s: %d calls recorded, %d made',
               sess.number, prog.fmt(path), got, want)


def check_times(sess, snap):
    U = prog.UNIT
    for path, want in sess.deep.items():
        if path not in snap:
            raise Violation('%s is missing' % prog.fmt(path))
        node = snap[path]
        expect(node.deep == want * U, 'session %d, %s: inclusive time %r, expected %r',
               sess.number, prog.fmt(path), node.deep / U, want)
        for st in node.stats:
            sub = st.sub_time
            expect(st.own_time == max(0.0, st.deep_time - sub),
                   '%s: exclusive time %r of %r with sub calls %r', prog.fmt(path),
                   st.own_time, st.deep_time, sub)
            hits = st.own_hits
            expect(st.deep_time_per_call == (st.deep_time / hits if hits else 0.0),
                   '%s: inclusive time per call', prog.fmt(path))
            expect(st.own_time_per_call == (st.own_time / hits if hits else 0.0),
                   '%s: exclusive time per call', prog.fmt(path))


def check_placeholders(sess, snap):
    need = sess.placeholders()
    on_stack = set(p[:k] for p in sess.start_paths for k in range(1, len(p) + 1))
    for path in need:
        expect(path in snap, '%s was running when its callee was called but is not in the tree',
               prog.fmt(path))
    for path, node in snap.items():
        if path in sess.hits:
            continue
        expect(path in need or path in on_stack,
               'session %d: %s appears but was neither called nor running at the start',
               sess.number, prog.fmt(path))
        expect(node.hits == 0, '%s has calls', prog.fmt(path))
        want = sess.derived(path) * prog.UNIT
        expect(node.deep == want, '%s: time of the placeholder %r, beneath it %r',
               prog.fmt(path), node.deep, want)
        for st in node.stats:
            expect(st.own_time == 0, '%s takes time for itself', prog.fmt(path))


def run(plan, out):
    pool, model, snaps, p = run_traced(plan)
    expect(len(snaps) == len(model.sessions), '%d sessions recorded, %d started', len(snaps),
           len(model.sessions))
    for sess, snap in zip(model.sessions, snaps):
        check_hits(sess, snap)
    tags(plan, model, out)
    calls = sum(s.calls for s in model.sessions)
    out.nontrivial = calls >= 3 and model.maxdepth >= 2


def tags(plan, model, out):
    if any(s.promoted for s in model.sessions):
        out.tag('called-again-after-placeholder')
    if any(s.start_stack for s in model.sessions):
        out.tag('started-inside-a-call')
    if len(model.sessions) > 1:
        out.tag('several-sessions')
    if any(s.exc for s in model.sessions):
        out.tag('exception')
    if model.seen_gens:
        out.tag('generator')
    if any(len(set(p)) < len(p) for s in model.sessions for p in s.hits):
        out.tag('recursion')
    if any(c for c in plan.get('costs', ())):
        out.tag('profiler-overhead')
    if model.maxdepth >= 5:
        out.tag('depth>=5')
    if model.maxdepth > 500:
        out.tag('depth>500')
