# -*- coding: utf-8 -*-
"""Programs under the profile command and on their own."""
import clocks  # noqa
import os
import pickle
import shutil
import signal
import sys
import tempfile
import threading

import urwid

import profiling.__main__ as main
import source
from base import expect, expect_eq, forked, Violation
from profiling.sampling import SamplingProfiler
from profiling.tracing import TracingProfiler

ISOLATE = True


def layout(plan, top):
    """Writes the program; returns (how the command names it, file,
    package, sys.path[0])."""
    how = plan['how']
    where = top
    os.makedirs(os.path.join(top, 'elsewhere'))
    text = source.program(plan, top)
    if how == 'c':
        source.lay(top)
        return ['-c', text], '<string>', None, ''
    if how == 'm':
        name = plan['module']
        parts = name.split('.')
        for i in range(1, len(parts)):
            os.makedirs(os.path.join(top, *parts[:i]), exist_ok=True)
            with open(os.path.join(top, *(parts[:i] + ['__init__.py'])), 'w') as f:
                f.write('')
        source.lay(top)
        path = os.path.join(top, *parts) + '.py'
        if plan['package']:
            os.makedirs(os.path.join(top, *parts))
            with open(os.path.join(top, *(parts + ['__init__.py'])), 'w') as f:
                f.write('def helper(): pass\n')
            path = os.path.join(top, *(parts + ['__main__.py']))
            parts.append('__main__')
        with open(path, 'w') as f:
            f.write(text)
        return ['-m', name], path, '.'.join(parts[:-1]), ''
    name = plan['script']
    if name.startswith('/'):
        name = top + name
    where = os.path.join(top, os.path.dirname(name))
    for i, part in enumerate(os.path.dirname(name).split('/')):
        if part == '..':
            os.makedirs(os.path.join(top, *os.path.dirname(name).split('/')[:i]), exist_ok=True)
    os.makedirs(os.path.normpath(where), exist_ok=True)
    source.lay(where)
    with open(os.path.join(top, name), 'w') as f:
        f.write(text)
    return [name], name, None, os.path.abspath(where)


class Capture(object):
    """Sends the standard streams to files."""

    def __init__(self, top):
        self.names = [os.path.join(top, '.stdout'), os.path.join(top, '.stderr')]

    def __enter__(self):
        self.old = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = [open(n, 'w', encoding='utf-8') for n in self.names]

    def __exit__(self, *exc):
        for f in (sys.stdout, sys.stderr):
            f.close()
        sys.stdout, sys.stderr = self.old

    def read(self):
        res = []
        for n in self.names:
            with open(n, encoding='utf-8') as f:
                res.append(f.read())
            os.unlink(n)
        return res


def effects(top):
    try:
        with open(os.path.join(top, 'effects')) as f:
            return f.read().splitlines()
    except IOError:
        return []


def reference(plan, top):
    """Runs the program directly, in a process of its own.  Returns (effects,
    stdout, stderr, exception, hits)."""
    def child(_, out):
        os.chdir(top)
        named, filename, package, first = layout(plan, top)
        with open(os.path.join(top, filename) if plan['how'] != 'c' else os.devnull) as f:
            text = f.read() if plan['how'] != 'c' else named[1]
        code = compile(text, filename, 'exec')
        globals_ = {'__name__': '__main__', '__doc__': None, '__package__': package}
        if plan['how'] != 'c':
            globals_['__file__'] = filename
        sys.argv[:] = [filename] + plan['args']
        sys.path.insert(0, first)
        files = program_files(filename)
        rec = source.Recorder(files, code)
        cap = Capture(top)
        with cap:
            exc = rec.run(code, globals_)
        o, e = cap.read()
        with open(os.path.join(top, '.result'), 'wb') as f:
            pickle.dump((effects(top), o, e, exc is not None and [type(exc).__name__, str(exc)], rec.hits, files), f)
    res = forked(child, None)
    if res['status'] != 'ok':
        raise RuntimeError('reference run: %r' % res)
    with open(os.path.join(top, '.result'), 'rb') as f:
        return pickle.load(f)


def program_files(filename):
    return (os.path.basename(filename), 'helper0.py', 'helper1.py')


def run(plan, out):
    d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH') or None)
    try:
        case(plan, out, d)
    finally:
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)


def command(plan, named):
    """The command line."""
    opts = []
    if plan['sampling']:
        opts += [['-S'], ['--sampling-interval', '1000']]
    elif plan['explicit']:
        opts += [['-T']]
    if plan['dump']:
        opts += [['-d', 'out.prof']]
    args = list(plan['args'])
    dashed = any(a.startswith('-') for a in args) or plan['dashes']
    k = plan['rotate'] % (len(opts) + 1)
    opts = opts[k:] + opts[:k]
    if named[0] in ('-m', '-c'):
        opts.insert(plan['rotate'] % (len(opts) + 1), named)
        argv = sum(opts, []) + (['--'] if dashed else []) + args
    elif not dashed and plan['after']:
        argv = named + args + sum(opts, [])
    elif dashed and (plan['after'] or not plan['explicit']):
        argv = sum(opts, []) + named + ['--'] + args
    elif dashed:
        argv = sum(opts, []) + ['--'] + named + args
    else:
        argv = sum(opts, []) + named + args
    return (['profile'] if plan['explicit'] or named[0].startswith('-') else []) + argv


def invoke(argv, top):
    """Runs the command; returns (stdout, stderr, exception, viewers)."""
    loops = []

    def run_loop(self):
        loops.append(self)
    urwid.MainLoop.run = run_loop
    viewers = []
    set_result = main.StatisticsViewer.set_result

    def record(self, stats, *args, **kwargs):
        viewers.append((self, stats))
        return set_result(self, stats, *args, **kwargs)
    main.StatisticsViewer.set_result = record
    cap = Capture(top)
    error = None
    with cap:
        try:
            main.cli.main(argv, prog_name='profiling', standalone_mode=False)
        except BaseException as exc:
            error = exc
            if isinstance(exc, Violation):
                raise
        finally:
            hook = sys.getprofile()
            sys.setprofile(None)
            threading.setprofile(None)
            signal.setitimer(signal.ITIMER_PROF, 0)
    expect(hook is None or error is not None, 'a profile function was left behind')
    o, e = cap.read()
    return o, e, error, viewers, loops


def case(plan, out, d):
    a, b = os.path.join(d, 'a'), os.path.join(d, 'b')
    os.mkdir(a)
    os.mkdir(b)
    want_effects, want_out, want_err, want_exc, want_hits, files = reference(plan, a)
    os.chdir(b)
    named, filename, package, first = layout(plan, b)
    argv = command(plan, named)
    shown = [x if len(x) < 60 else '...' for x in argv]
    o, e, error, viewers, loops = invoke(argv, b)
    if error is not None:
        raise Violation('%s: the command failed: %r' % (shown, error))
    check_effects(effects(b), want_effects, shown)
    expect(o.startswith(want_out), '%s: standard output %r, of the program alone %r', shown, o[:500], want_out[:500])
    rest = o[len(want_out):]
    expect(e.startswith(want_err), '%s: standard error %r, of the program alone %r', shown, e[:500], want_err[:500])
    if want_exc:
        out.tag('raises ' + want_exc[0])
        err = e[len(want_err):]
        expect('Traceback' in err and want_exc[0] in err and want_exc[1] in err,
               '%s: standard error does not tell of %s: %r', shown, want_exc, err[-500:])
    else:
        expect_eq(e[len(want_err):], '', 'standard error after the program ended')
    if plan['dump']:
        expect('out.prof' in rest and 'profiling view' in rest, '%s: nothing is said about the dump: %r', shown, rest)
        path = os.path.join(b, 'elsewhere' if os.getcwd().endswith('elsewhere') else '', 'out.prof')
        with open(path, 'rb') as f:
            cls, (stats, cpu, wall) = pickle.load(f)
        expect(cls is (SamplingProfiler if plan['sampling'] else TracingProfiler), 'profiler class %r', cls)
        expect(cpu >= 0 and wall >= 0, 'times %r %r', cpu, wall)
        expect_eq(len(loops), 0, 'viewers')
    else:
        expect_eq(rest, '', 'standard output after the program ended')
        expect_eq((len(viewers), len(loops)), (1, 1), 'viewers')
        stats = viewers[0][1]
    for name in source.filenames(stats):
        expect(not (name or '').endswith('profiling/__main__.py') and '/click/' not in (name or ''),
               'the result has functions of %s', name)
    if not plan['sampling']:
        got = source.hits_of(stats, files)
        if got != want_hits:
            for k in sorted(set(got) | set(want_hits)):
                if got.get(k) != want_hits.get(k):
                    raise Violation('%s: %s calls of %s, made are %s' % (
                        shown, got.get(k, 0), ' > '.join(x[1] for x in k), want_hits.get(k, 0)))
    out.tag('-' + plan['how'] if plan['how'] != 's' else 'script')
    if any(x.startswith('-') for x in plan['args']):
        out.tag('dashed arguments')
    if not plan['dump']:
        out.tag('viewer')
    if plan['sampling']:
        out.tag('sampling')
    if any(k[-1][0].startswith('helper') for k in want_hits):
        out.tag('imports')
    out.nontrivial = len(want_hits) >= 4


def check_effects(got, want, shown):
    for i, (x, y) in enumerate(zip(got + [None] * len(want), want + [None] * len(got))):
        expect(x == y, '%s: effect %d is %r, of the program alone %r', shown, i, x, y)
