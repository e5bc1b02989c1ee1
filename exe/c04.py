# -*- coding: utf-8 -*-
import c01
from base import expect
import prog


def check_samples(sess, snap, root, nested=()):
    for path in sorted(set(sess.hits) | set(snap), key=lambda p: (len(p), p)):
        got = snap[path].hits if path in snap else 0
        want = sess.hits.get(path, 0)
        expect(got == want, 'session %d, %s: %d samples recorded, %d taken',
               sess.number, prog.fmt(path), got, want)
        if path in snap:
            deep = sum(f.deep_hits for f in snap[path].stats)
            want = sum(n for q, n in sess.hits.items() if q[:len(path)] == path)
            want += sum(q[:len(path)] == path for q in nested)
            expect(deep == want, 'session %d, %s: %d samples in it and its callees, %d taken',
                   sess.number, prog.fmt(path), deep, want)
    taken = sess.samples + len(nested)
    own, deep = root or (0, taken)
    expect(deep == taken, 'session %d: %d samples in the whole tree, %d taken', sess.number, deep, taken)
    expect(own == 0, 'samples on the root')
    need = sess.placeholders()
    for path, node in snap.items():
        expect(path in sess.hits or path in need, 'session %d: %s appears but was never sampled',
               sess.number, prog.fmt(path))


def run(plan, out):
    kind = 'signal' if plan['signal'] else 'sample'
    pool, model, snaps, p = c01.run_traced(plan, kind)
    expect(len(snaps) == len(model.sessions), '%d sessions recorded, %d started', len(snaps),
           len(model.sessions))
    for sess, snap, root in zip(model.sessions, snaps, p.roots):
        check_samples(sess, snap, root, [q for n, q in p.nested if n == sess.number])
    out.tag(kind)
    if p.nested:
        out.tag('sampled-while-sampling')
    if plan['outside']:
        out.tag('base-frame-sampled')
    if any(s.promoted for s in model.sessions):
        out.tag('caller-sampled-after-callee')
    if len(model.sessions) > 1:
        out.tag('several-sessions')
    if model.seen_gens:
        out.tag('generator')
    out.nontrivial = sum(len(s.hits) for s in model.sessions) >= 3
