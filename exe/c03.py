# -*- coding: utf-8 -*-
import c01
from base import expect


def run(plan, out):
    pool, model, snaps, p = c01.run_traced(plan)
    expect(len(snaps) == len(model.sessions), '%d sessions recorded, %d started', len(snaps),
           len(model.sessions))
    n = 0
    for sess, snap in zip(model.sessions, snaps):
        c01.check_placeholders(sess, snap)
        n += sum(1 for p_ in sess.placeholders())
    c01.tags(plan, model, out)
    out.nontrivial = n >= 1
