# -*- coding: utf-8 -*-
import clocks  # noqa
from base import expect
import c01
import threads

ISOLATE = False


def without(ops, kinds):
    return [[x if not isinstance(x, list) else without(x, kinds) for x in op] for op in ops if op[0] not in kinds]


def run(plan, out):
    kind = ['plain', 'thread'][plan['timer']]
    if plan['inner']:
        # an event which is being recorded when the profiler stops or starts
        # belongs to neither
        plan = dict(plan, auto=True, threads=[without(ops, 'SQ') for ops in plan['threads']])
        out.tag('switched-while-recording')
    real, model = threads.run(plan, kind)
    expect(len(real.snaps) == len(model.sessions), '%d sessions recorded, %d started', len(real.snaps),
           len(model.sessions))
    recorded = set()
    for sess, snap in zip(model.sessions, real.snaps):
        c01.check_hits(sess, snap)
        if not plan['inner'] or kind == 'thread':
            # the time of other threads passes while one is recording
            c01.check_times(sess, snap)
        for path in sess.hits:
            recorded.add(path[0])
    out.tag(kind)
    if model.sched.switches:
        out.tag('interleaved')
    if model.old_recorded:
        out.tag('restarted-with-old-threads')
    if any(not m.hooked and m.i in model.sched.spawned for m in model.models):
        out.tag('thread-started-before')
    if any(s.exc for s in model.sessions):
        out.tag('exception')
    out.nontrivial = len(recorded) >= 2 and model.sched.switches >= 2
