# -*- coding: utf-8 -*-
import clocks  # noqa
import c01
import threads
from base import expect


def run(plan, out):
    if 'threads' in plan:
        run_threads(plan, out)
    else:
        run_program(plan, out)


def run_threads(plan, out):
    real, model = threads.run(plan, 'plain')
    expect(len(real.snaps) == len(model.sessions), '%d sessions recorded, %d started', len(real.snaps),
           len(model.sessions))
    timed = 0
    for sess, snap in zip(model.sessions, real.snaps):
        c01.check_times(sess, snap)
        timed += sum(1 for d in sess.deep.values() if d)
    out.tag('threads')
    if model.sched.switches:
        out.tag('interleaved')
    out.nontrivial = timed >= 2


def run_program(plan, out):
    pool, model, snaps, p = c01.run_traced(plan)
    expect(len(snaps) == len(model.sessions), '%d sessions recorded, %d started', len(snaps),
           len(model.sessions))
    timed = 0
    for sess, snap in zip(model.sessions, snaps):
        c01.check_times(sess, snap)
        timed += sum(1 for d in sess.deep.values() if d)
    c01.tags(plan, model, out)
    out.nontrivial = timed >= 2
