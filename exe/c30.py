# -*- coding: utf-8 -*-
"""Deferral blocks against a stack machine."""
import sys

from base import expect, expect_eq
from profiling.utils import deferral


class Boom(Exception):
    pass


class Hard(BaseException):
    pass


KINDS = {'boom': Boom, 'hard': Hard, 'key': KeyboardInterrupt, 'exit': SystemExit, 'stop': StopIteration,
         'zero': ZeroDivisionError}


class Machine(object):
    """Executes a plan for real (with deferral()) or in the model."""

    def __init__(self):
        self.log = []
        self.raised = []

    def fail(self, kind):
        exc = KINDS[kind](len(self.raised))
        self.raised.append(exc)
        raise exc

    def body(self, ops, defer, path):
        """Ops of a block or of a deferred call."""
        for i, op in enumerate(ops):
            here = path + (i,)
            self.log.append(('op', here))
            if op[0] == 'd':
                # the very same call may be deferred many times.
                f = self.call
                for _ in range(op[4] if len(op) > 4 else 1):
                    defer(f, here, *op[1], ops=op[3], defer=defer, **op[2])
            elif op[0] == 'b':
                self.block(op, here)
            elif op[0] == 't':
                try:
                    self.block(op, here)
                except BaseException as exc:
                    self.log.append(('caught', here, type(exc).__name__, exc in self.raised))
            else:
                self.fail(op[1])

    def call(self, path, *args, **kwargs):
        ops, defer = kwargs.pop('ops'), kwargs.pop('defer')
        self.log.append(('call', path, args, tuple(sorted(kwargs.items()))))
        self.body(ops, defer, path)
        return args[0] if args else None


class Real(Machine):

    def block(self, op, path):
        if op[2] == 'with':
            with deferral() as defer:
                self.body(op[1], defer, path)
        elif op[2] == 'loop':
            # leaves the block by a jump.
            for _ in range(2):
                with deferral() as defer:
                    self.body(op[1], defer, path)
                    break
        elif op[2] == 'return':
            def f():
                with deferral() as defer:
                    self.body(op[1], defer, path)
                    return 1
            f()
        else:
            # a generator which is closed inside the block, as Runnable.stop()
            # of one which is thrown away.
            def gen():
                with deferral() as defer:
                    self.body(op[1], defer, path)
                    yield
            g = gen()
            next(g)
            if op[2] == 'close':
                g.close()
            else:
                next(g, None)
        self.log.append(('left', path))


class Escape(Exception):
    pass


class Model(Machine):

    def block(self, op, path):
        stack = []
        error = None
        defer = lambda *a, **k: stack.append((a, k))
        try:
            self.body(op[1], defer, path)
        except BaseException as exc:
            error = [exc]
        while stack:
            (f, a, k) = (stack[-1][0][0], stack[-1][0][1:], stack[-1][1])
            stack.pop()
            try:
                f(*a, **k)
            except BaseException as exc:
                error = (error or []) + [exc]
        if error:
            raise Escape(error)
        self.log.append(('left', path))


def drop(log):
    return [e[:2] if e[0] == 'caught' else e for e in log]


def run(plan, out):
    top = ['b', plan['ops'], plan['how']]
    model, real = Model(), Real()
    try:
        model.block(top, ())
        escaped = None
    except Escape as exc:
        escaped = exc.args[0]
    before = sys.exc_info()
    try:
        real.block(top, ())
        got = None
    except BaseException as exc:
        got = exc
    expect_eq(drop(real.log), drop(model.log), 'calls made')
    if escaped is None:
        expect(got is None, 'a block without errors raised %r', got)
    else:
        expect(got is not None, 'the block ended normally although %r was raised', escaped)
        flat = leaves(escaped)
        if len(flat) == 1 and type(flat[0]) is not StopIteration and not nested_stop(plan['ops']):
            expect(got is real.raised[model.raised.index(flat[0])], 'the exception %r came out as %r', flat[0], got)
            out.tag('exception-kept')
        else:
            out.tag('many-exceptions')
    expect_eq(sys.exc_info(), before, 'exception being handled')
    calls = [e for e in model.log if e[0] == 'call']
    if any(len(e[1]) > 1 for e in calls):
        out.tag('nested')
    if len(set(e[1] for e in calls)) < len(calls):
        out.tag('repeated')
    if model.raised:
        out.tag('raising')
    if escaped and any(op[0] == 'x' for op in plan['ops']):
        out.tag('block-raises')
    out.tag(plan['how'])
    out.nontrivial = len(calls) >= 2


def leaves(escaped):
    res = []
    for e in escaped:
        if isinstance(e, Escape):
            res.extend(leaves(e.args[0]))
        else:
            res.append(e)
    return res


def nested_stop(ops):
    """StopIteration changes its type when it leaves a generator."""
    return any(op[0] == 'x' and op[1] == 'stop' or op[0] == 'd' and nested_stop(op[3]) or
               op[0] in 'bt' and nested_stop(op[1]) for op in ops)
