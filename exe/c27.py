# -*- coding: utf-8 -*-
"""Statements under the timeit-profile command and on their own."""
import time
import clocks

clocks.install()


class Clock(object):
    """Real until a virtual time is set."""
    now = None

    def __init__(self, real):
        self.real = real

    def __call__(self):
        return self.real() if Clock.now is None else Clock.now


time.perf_counter = Clock(time.perf_counter)
time.monotonic = Clock(time.monotonic)

import os
import pickle
import shutil
import sys
import tempfile
import timeit
import types

timeit.default_timer = time.perf_counter

import c26
import source
from base import expect, expect_eq, forked, Violation
from profiling.sampling import SamplingProfiler
from profiling.tracing import TracingProfiler

ISOLATE = True


def spend(seconds):
    Clock.now += seconds


clock = types.ModuleType('virtual_clock')
clock.spend = spend
clock.effects = []
sys.modules['virtual_clock'] = clock

SNIPPETS = {
    'count': 'x = globals().get("x", 0) + 1\neffect(x)',
    'pass': 'pass',
    'empty': '',
    'comment': '# nothing',
    'string': '"text"',
    'def': 'def g(n):\n    f0()\n    return n\nfor i in range(2):\n    g(i)',
    'with': 'with open(os.devnull):\n  f0()',
    'if': 'if True: f0()\nelse: pass',
    'semicolon': 'f0(); effect("a"); Thing(1).method()',
    'newlines': '\n\nf0()\n\n# text\n\ndown(1)\n\n',
    'try': 'try:\n\traise Oops(1)\nexcept Oops:\n\tf0()\nfinally:\n\teffect("f")',
    'comp': '[f0() for _ in range(3)]',
    'underscore': 'effect(callable(_) or _); _ = 1',
    'reads': 'effect(_kept)\neffect(i_kept)',
    'gettext': 'effect(_("text"))',
    'long': 'effect("""a\n  b\n""")',
    'parens': 'effect((1,\n2))',
    'class': 'class C(object):\n    y = f0()\n    def m(self): return f0()\nC().m()',
    'lambda': '(lambda: f0())()',
    'range': 'effect(list(range(3)))',
    'annotated': 'z: int = 3\neffect(z)',
    'import': 'from os import path; effect(path.basename("a/b"))',
    'backslash': 'effect(1 + \\\n2)',
    'unicode': 'é = "ü"; effect(ascii(é))',
    'nested': 'for a in (1, 2):\n    while True:\n        f0()\n        if a: break\n        continue\n    else:\n        effect("else")',
    'global': 'def s():\n    global w\n    w = globals().get("w", 0) + 2\ns()\neffect(w)',
    'gen': 'effect(list(count(3)))',
    'slash': 'effect(6 // 2 / 1)',
    'spawn': 'run_in_thread(f0)',
    'dashes': '-1',
    'bump': 'bump(); effect(shared)',
    'peek': 'seen = globals().get("seen", 0) + 1\neffect(peek("seen"))',
    'later': 'later = lambda: f0()\ncall_later()',
    'drop': 'dropped = 1\ndrop("dropped")\neffect("dropped" in globals())',
    'nameof': 'effect((__name__, bump.__globals__ is globals()))',
    'decorated': '@run_in_thread\ndef h():\n    f0()',
}
SETUPS = {
    'shadow': 'range = lambda *a: [41, 42][:len(a)]',
    'gettext': '_ = lambda s: s.upper()',
    'functions': '''
shared = 0

def bump():
    global shared
    shared += 1

def peek(name):
    return globals()[name]

def call_later():
    later()

def drop(name):
    del globals()[name]
''',
    'kept': '_kept = 5; i_kept = 6',
}


EFFECT = '''
def effect(what):
    effects.append('%s' % (what,))

from virtual_clock import effects
'''


def texts(plan, top):
    """(setup, statement)"""
    out = [source.HEAD + source.COMMON, EFFECT]
    n = len(plan['funcs'])
    names = ['f%d' % i for i in range(n)]
    for i in reversed(range(n)):
        out.append('def f%d():' % i)
        source.render(plan['funcs'][i], 1, names[i + 1:], out)
        out.append('')
    out.append('effect("setup")')
    out.append(SETUPS['functions'])
    out.append(SETUPS['kept'])
    out.append(SETUPS['gettext'])
    out.append('import virtual_clock')
    if plan['setup raises']:
        out.append('f0(); raise Oops("in the setup"); effect("never")')
    if plan['shadow']:
        out.append(SETUPS['shadow'])
    parts = []
    for p in plan['stmt']:
        if isinstance(p, str):
            parts.append(SNIPPETS[p])
        elif p[0] == 'boom':
            parts.append('calls = globals().get("calls", 0) + 1\nif calls == %d: raise Oops("at %d")' % (p[1], p[1]))
        else:
            lines = []
            source.render([p], 0, names, lines)
            parts.extend(lines)
    if plan['number'] is None:
        parts.append('virtual_clock.spend(%r)' % plan['cost'])
    setup = '\n'.join(out) if plan['setup'] else ''
    return setup.replace('WHERE', repr(top)), '\n'.join(parts).replace('WHERE', repr(top))


def ours(filename):
    """Whether the code is of the setup or the statement."""
    return filename is not None and not os.path.exists(filename) and not filename.startswith(('<builtin', '<frozen'))


class Recorder(source.Recorder):

    def key(self, code):
        return code.co_name, code.co_firstlineno

    def profile(self, frame, event, arg):
        if event != 'call' or not ours(frame.f_code.co_filename):
            return
        path = []
        f = frame
        while f is not None and f.f_code is not self.base:
            if ours(f.f_code.co_filename):
                path.append(self.key(f.f_code))
            f = f.f_back
        path = tuple(reversed(path))
        if path:
            self.hits[path] = self.hits.get(path, 0) + 1


def hits_of(stats):
    """Calls by their path below the statement itself."""
    res = {}
    todo = [(stats, ())]
    while todo:
        s, path = todo.pop()
        for c in s:
            p = path
            name = c.name or '<module>'
            if ours(c.filename) and not (name == '<module>' and not path):
                p += ((name, c.lineno),)
                if c.own_hits:
                    res[p] = res.get(p, 0) + c.own_hits
            todo.append((c, p))
    return res


def power(plan):
    """The count which is chosen."""
    for x in range(1, 10):
        if 10 ** x * plan['cost'] >= 0.2:
            return x


def reference(plan, top):
    """(effects, stdout, stderr, exception, hits, exception of the setup or
    the tries)"""
    def child(_, out):
        os.chdir(top)
        setup, stmt = texts(plan, top)
        g = {}
        Clock.now = 0.0
        cap = c26.Capture(top)
        early = exc = None
        hits = {}
        with cap:
            code = compile(stmt, 'STATEMENT', 'exec')
            try:
                exec(setup, g)
                if plan['number'] is None:
                    for x in range(1, power(plan) + 1):
                        for _ in range(10 ** x):
                            exec(code, g)
            except BaseException as e:
                early = e
            else:
                rec = Recorder(None, code)
                n = plan['number'] if plan['number'] is not None else 10 ** power(plan)
                for _ in range(n):
                    exc = rec.run(code, g)
                    if exc is not None:
                        break
                hits = rec.hits
        o, e = cap.read()
        name = lambda x: x and [type(x).__name__, str(x)]
        with open(os.path.join(top, '.result'), 'wb') as f:
            pickle.dump((clock.effects, o, e, name(exc), hits, name(early)), f)
    res = forked(child, None)
    if res['status'] != 'ok':
        raise RuntimeError('reference run: %r' % res)
    with open(os.path.join(top, '.result'), 'rb') as f:
        return pickle.load(f)


def run(plan, out):
    d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH') or None)
    try:
        case(plan, out, d)
    finally:
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)


def command(plan, setup, stmt):
    opts = []
    if plan['setup']:
        opts.append([plan['spell'] and '-s' or '--setup', setup])
    if plan['number'] is not None:
        opts.append(['-n', str(plan['number'])] if plan['spell'] else ['--number=%d' % plan['number']])
    if plan['sampling']:
        opts += [['-S'], ['--sampling-interval', '1000']]
    if plan['dump']:
        opts.append(['-d', 'out.prof'])
    opts += [[['-r', '5'], ['-v', 'x'], ['-t', 'x'], ['-c', 'x']][i] for i in plan['ignored']]
    k = plan['rotate'] % (len(opts) + 1)
    opts = opts[k:] + opts[:k]
    name = 'timeit' if plan['spell'] else 'timeit-profile'
    if stmt.startswith('-'):
        return [name] + sum(opts, []) + ['--', stmt]
    if plan['after']:
        return [name, stmt] + sum(opts, [])
    return [name] + sum(opts, []) + [stmt]


def case(plan, out, d):
    a, b = os.path.join(d, 'a'), os.path.join(d, 'b')
    os.mkdir(a)
    os.mkdir(b)
    want_effects, want_out, want_err, want_exc, want_hits, early = reference(plan, a)
    os.chdir(b)
    setup, stmt = texts(plan, b)
    argv = command(plan, setup, stmt)
    Clock.now = 0.0
    for f in (clocks.cpu, clocks.wall, clocks.process_time, clocks.thread_time):
        if f is not None:
            f.virtual = lambda: Clock.now
    o, e, error, viewers, loops = c26.invoke(argv, b)
    shown = repr(stmt)
    if early:
        expect(error is not None and type(error).__name__ == early[0],
               '%s: %r is expected to be raised, got %r', shown, early, error)
        c26.check_effects(clock.effects, want_effects, shown)
        out.tag('setup or try raises')
        return
    if error is not None:
        raise Violation('%s: the command failed: %r' % (shown, error))
    c26.check_effects(clock.effects, want_effects, shown)
    expect(o.startswith(want_out), '%s: standard output %r, of the statement alone %r', shown, o[:500], want_out[:500])
    rest = o[len(want_out):]
    expect(e.startswith(want_err), '%s: standard error %r, of the statement alone %r', shown, e[:500], want_err[:500])
    err = e[len(want_err):]
    if want_exc:
        out.tag('raises ' + want_exc[0])
        expect('Traceback' in err and want_exc[0] in err and want_exc[1] in err,
               '%s: standard error does not tell of %s: %r', shown, want_exc, err[-500:])
    else:
        expect_eq(err, '', 'standard error after the statement ended')
    if plan['dump']:
        expect('out.prof' in rest and 'profiling view' in rest, '%s: nothing is said about the dump: %r', shown, rest)
        with open('out.prof', 'rb') as f:
            cls, (stats, cpu, wall) = pickle.load(f)
        expect(cls is (SamplingProfiler if plan['sampling'] else TracingProfiler), 'profiler class %r', cls)
        expect_eq(len(loops), 0, 'viewers')
    else:
        expect_eq(rest, '', 'standard output after the statement ended')
        expect_eq((len(viewers), len(loops)), (1, 1), 'viewers')
        stats = viewers[0][1]
    if not plan['sampling']:
        got = hits_of(stats)
        if got != want_hits:
            for k in sorted(set(got) | set(want_hits)):
                if got.get(k) != want_hits.get(k):
                    raise Violation('%s: %s calls of %s, made are %s' % (
                        shown, got.get(k, 0), ' > '.join(map(str, k)), want_hits.get(k, 0)))
    out.tag('%d parts' % len(plan['stmt']))
    for p in plan['stmt']:
        if isinstance(p, str):
            out.tag(p)
    if plan['number'] is None:
        out.tag('chosen count %d' % 10 ** power(plan))
    elif plan['number'] > 1:
        out.tag('several times')
    if plan['sampling']:
        out.tag('sampling')
    if not plan['dump']:
        out.tag('viewer')
    out.nontrivial = len(want_hits) >= 2 and (plan['number'] is None or plan['number'] > 1)
