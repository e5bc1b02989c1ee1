# -*- coding: utf-8 -*-
import clocks  # noqa
import signal
from base import expect
import c01
import prog
import threads

ISOLATE = False
KINDS = ['plain', 'thread', 'hook', 'itimer']


def run(plan, out):
    kind = KINDS[plan['kind']]
    if kind == 'itimer':
        signal.signal(signal.SIGPROF, signal.SIG_IGN)
    real, model = threads.run(plan, kind)
    expect(len(real.snaps) == len(model.sessions), '%d sessions recorded, %d started', len(real.snaps),
           len(model.sessions))
    for sess, snap in zip(model.sessions, real.snaps):
        if kind == 'hook':
            # every event of a hooked thread is sampled at interval 0
            for path in sess.hits:
                expect(path in snap and snap[path].hits > 0,
                       'session %d: %s was called but never sampled', sess.number, prog.fmt(path))
            known = set(sess.hits) | set(p[:k] for p in sess.start_paths for k in range(1, len(p) + 1))
            for path in sess.hits:
                known.update(path[:k] for k in range(1, len(path)))
            for path in snap:
                expect(path in known, 'session %d: %s was sampled but was not on any stack',
                       sess.number, prog.fmt(path))
        else:
            c01.check_hits(sess, snap)
            if kind != 'itimer':
                c01.check_times(sess, snap)
    out.tag(kind)
    if model.old_recorded:
        out.tag('restarted-with-old-threads')
    if any(m.hooked and m.i for m in model.models):
        out.tag('thread-started-while-profiling')
    if len(model.sessions) > 1:
        out.tag('several-sessions')
    out.nontrivial = model.after >= 1
    if model.after:
        out.tag('calls-after-stop')
