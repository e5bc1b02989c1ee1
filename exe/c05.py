# -*- coding: utf-8 -*-
import os
import subprocess
import sys
import tempfile
import types

import c01
import c04
from base import expect, Violation
import prog

from profiling import utils


def build_speedup():
    d = tempfile.mkdtemp(prefix='speedup-', dir=os.environ.get('VERIF_SCRATCH') or None)
    import sysconfig
    so = os.path.join(d, 'speedup' + (sysconfig.get_config_var('EXT_SUFFIX') or '.so'))
    inc = sysconfig.get_paths()['include']
    for i in (inc, '/usr/include/pypy3.9'):
        if os.path.exists(os.path.join(i, 'Python.h')):
            inc = i
            break
    subprocess.check_output(['gcc', '-shared', '-fPIC', '-O1', '-I' + inc, '-w',
                             '/repo/profiling/speedup.c', '-o', so], stderr=subprocess.STDOUT)
    sys.path.insert(0, d)
    try:
        import speedup
    finally:
        sys.path.remove(d)
    return speedup


def sped_up(speedup):
    """profiling.utils as it is where the extension is installed."""
    import profiling
    res = types.ModuleType('profiling.utils')
    res.__file__ = utils.__file__
    none = object()
    before, module = getattr(profiling, 'speedup', none), sys.modules.get('profiling.speedup', none)
    profiling.speedup = sys.modules['profiling.speedup'] = speedup
    try:
        with open(utils.__file__) as f:
            exec(compile(f.read(), utils.__file__, 'exec'), res.__dict__)
    finally:
        if before is none:
            del profiling.speedup
        else:
            profiling.speedup = before
        if module is none:
            del sys.modules['profiling.speedup']
        else:
            sys.modules['profiling.speedup'] = module
    return res


speedup = build_speedup()
fast_utils = sped_up(speedup)
CONTAINERS = [tuple, list, set]


def reference(frame, base_frame, base_code, frames, codes):
    res = []
    while frame is not None and frame is not base_frame and frame.f_code is not base_code:
        if not any(frame is f for f in frames) and not any(frame.f_code == c for c in codes):
            res.append(frame)
        frame = frame.f_back
    res.reverse()
    return res


def run_stacks(plan, out):
    ops = prog.norm(plan['ops'])
    seen = []
    calls = [0]

    def at(frame):
        q = plan['queries'][calls[0] % len(plan['queries'])]
        calls[0] += 1
        stack = []
        f = frame
        while f is not None:
            stack.append(f)
            f = f.f_back
        # frames which finished or never were callers of this one
        others = seen[-3:]
        seen.append(frame)
        # the innermost, some in the middle and the outermost
        pickable = stack[:6] + stack[6::max(1, len(stack) // 4)][:4] + stack[-3:] + others

        def frames(ix):
            return [pickable[i % len(pickable)] for i in ix]

        def codes(ix):
            res = []
            for i in ix:
                if i < len(pool.codes):
                    res.append(pool.codes[i])
                else:
                    res.append(pickable[i % len(pickable)].f_code)
            return res
        bf = frames([q['bf']])[0] if q['bf'] is not None else None
        bc = codes([q['bc']])[0] if q['bc'] is not None else None
        igf, igc = frames(q['igf']), codes(q['igc'])
        want = reference(frame, bf, bc, igf, igc)
        kind = CONTAINERS[q['kind'] % 3]
        args = (frame, bf, bc, kind(igf), kind(igc))
        got = list(utils.frame_stack(*args))
        same(got, want, 'utils.frame_stack')
        # PyPy's emulation of C frames remembers the first caller of a
        # generator, so those stacks cannot be walked in C here.
        if not any(s.f_code.co_flags & 0x20 for s in stack):
            got = list(speedup.frame_stack(frame, bf, bc, set(igf), set(igc)))
            same(got, want, 'speedup.frame_stack')
            same(list(fast_utils.frame_stack(*args)), want, 'utils.frame_stack with the extension')
            if not igf:
                kw = {'ignored_codes': kind(igc)} if igc else {}
                same(list(fast_utils.frame_stack(frame, bf, bc, **kw)), want, 'utils.frame_stack with the extension')
                same(list(utils.frame_stack(frame, bf, bc, **kw)), want, 'utils.frame_stack')
            out.tag('C')
        p = c01.TracingProfiler(bf, bc, kind(igf), kind(igc))
        same(list(p.frame_stack(frame)), want, 'profiler.frame_stack')
        if len(want) < len(stack):
            out.tag('base-in-stack' if (bf in stack or bc in [s.f_code for s in stack]) else 'ignored')
        if bf is None and bc is None and not igf and not igc:
            out.tag('nothing-cut')
        if 2 <= len(want) < len(stack):
            out.nontrivial = True

    def same(got, want, what):
        expect(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
               '%s: got %s, expected %s', what, [f.f_code.co_name for f in got],
               [f.f_code.co_name for f in want])
    pool = prog.Pool(lambda n: None, None, None, at)

    def deepen(n):
        if n:
            deepen(n - 1)
        else:
            pool.func(plan.get('root', 0))(ops)
    if plan['deep']:
        sys.setrecursionlimit(8000)
        out.tag('deep-stack')
    try:
        deepen(plan['deep'])
    except prog.Boom:
        pass
    out.tag('stacks')


def run_profiler(plan, out):
    kind = plan['kind']
    pool, model, snaps, p = c01.run_traced(plan, kind)
    expect(len(snaps) == len(model.sessions), '%d sessions recorded, %d started', len(snaps),
           len(model.sessions))
    for sess, snap, root in zip(model.sessions, snaps, p.roots):
        if kind == 'trace':
            c01.check_hits(sess, snap)
            c01.check_placeholders(sess, snap)
        else:
            c04.check_samples(sess, snap, None)
        for path in snap:
            for key in path:
                expect(key not in model.ignored, 'the ignored function %s is shown', prog.fmt((key,)))
    out.tag(kind)
    if model.walked_up:
        out.tag('event-in-ignored-frame')
    if model.base_frame is not None:
        out.tag('base-frame-on-stack')
    if model.ignored_frames:
        out.tag('ignored-frames')
    cut = model.ignored or model.ignored_frames or model.base is not None or model.base_frame is not None
    out.nontrivial = bool(cut) and sum(len(s.hits) for s in model.sessions) >= 2


def run(plan, out):
    if plan['kind'] == 'stacks':
        run_stacks(plan, out)
    else:
        run_profiler(plan, out)
