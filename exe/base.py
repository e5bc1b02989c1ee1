# -*- coding: utf-8 -*-
"""Shared by all executors (run on the project's interpreter, PyPy)."""
import os
import sys
import traceback

import prog

REPO = '/repo'


class Violation(Exception):
    """The property does not hold for this plan."""


class Inconclusive(Exception):
    """The plan could not be decided (never counted as a violation)."""


def expect(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


def expect_eq(got, want, what):
    if not (got == want):
        raise Violation('%s: got %s, expected %s' % (what, short(got), short(want)))


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


class Out(object):
    """What a case did; returned to the driver."""

    def __init__(self):
        self.tags = []
        self.nontrivial = False
        self.n = 1

    def tag(self, *names):
        for name in names:
            if name not in self.tags:
                self.tags.append(name)


def in_repo(tb):
    """Whether the exception passed through code of the repository."""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + '/profiling'):
            return True
        tb = tb.tb_next
    return False


def run_case(func, plan):
    """Runs one case and classifies how it ended."""
    out = Out()
    prog.tune(plan)
    try:
        func(plan, out)
    except Violation as exc:
        return {'status': 'fail', 'msg': str(exc)[:2000], 'tags': out.tags}
    except Inconclusive as exc:
        return {'status': 'inconclusive', 'msg': str(exc)[:500], 'tags': out.tags}
    except BaseException as exc:
        etype, evalue, tb = sys.exc_info()
        text = ''.join(traceback.format_exception(etype, evalue, tb))[-3000:]
        harness = (isinstance(exc, (AttributeError, ImportError, NameError, KeyboardInterrupt,
                                    SyntaxError, MemoryError))
                   and not in_repo(tb)
                   and not str(getattr(exc, 'filename', None)).startswith(REPO + '/'))
        if harness:
            return {'status': 'error', 'msg': text, 'tags': out.tags}
        return {'status': 'fail', 'msg': 'unexpected exception: ' + text, 'tags': out.tags}
    return {'status': 'ok', 'tags': out.tags, 'nontrivial': bool(out.nontrivial), 'n': out.n}


def forked(func, plan, timeout=None):
    """Runs one case in a forked child, so that nothing it does to process
    state reaches the next case."""
    import json
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            res = run_case(func, plan)
            data = json.dumps(res).encode('utf-8')
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        try:
            data = os.read(r, 1 << 16)
        except InterruptedError:
            continue
        if not data:
            break
        chunks.append(data)
    os.close(r)
    __, status = os.waitpid(pid, 0)
    if not chunks:
        return {'status': 'died', 'msg': 'case process ended with status %d' % status, 'tags': []}
    return json.loads(b''.join(chunks).decode('utf-8'))
