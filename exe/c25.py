# -*- coding: utf-8 -*-
"""The command line and the configuration files."""
import clocks  # noqa
import io
import os
import pickletools
import shutil
import signal
import socket
import sys
import tempfile
import threading
import time

import click
import urwid

import profiling.__main__ as main
from base import expect, expect_eq, Violation
from profiling.remote.client import FailoverProfilingClient, ProfilingClient
from profiling.remote.select import SelectProfilingServer
from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import ItimerSampler, TracingSampler
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import GreenletTimer, ThreadTimer, Timer

ISOLATE = True

CLASSES = {'Timer': Timer, 'ThreadTimer': ThreadTimer, 'GreenletTimer': GreenletTimer,
           'ItimerSampler': ItimerSampler, 'TracingSampler': TracingSampler,
           'tracing': TracingProfiler, 'sampling': SamplingProfiler}
DEFAULTS = {'profiler': 'tracing', 'timer': 'Timer', 'sampler': 'ItimerSampler', 'sampling-interval': 1e-3,
            'pickle-protocol': __import__('pickle').DEFAULT_PROTOCOL, 'interval': 1, 'spawn': 'threading',
            'signum': int(signal.SIGUSR2), 'endpoint': ['127.0.0.1', 8912]}
PROFILERS = ['profiler', 'timer', 'sampler', 'sampling-interval', 'pickle-protocol']
USES = {'profile': PROFILERS, 'timeit': PROFILERS,
        'live': PROFILERS + ['interval', 'spawn', 'signum'],
        'remote': PROFILERS + ['interval', 'spawn', 'signum', 'endpoint'],
        'view': ['endpoint']}
SCRIPT = '''
import sys
sys.modules['c25'].HOOKS.program()
'''


class Hooks(object):

    def __init__(self):
        self.profilers = []
        self.servers = []
        self.clients = []
        self.loops = []
        self.served = []
        self.mode = 'threading'
        self.ran = 0

    def program(self):
        """What the profiled program does: waits for the server."""
        self.ran += 1
        self.handlers = {s: signal.getsignal(s) for s in range(1, 32) if s not in (signal.SIGKILL, signal.SIGSTOP)}
        if self.servers:
            if self.mode == 'gevent':
                import gevent
                sleep = gevent.sleep
            else:
                sleep = clocks.REAL['sleep']
            for _ in range(4000):
                if self.served:
                    break
                sleep(0.001)

    def serve(self, how):
        def f(server, *args):
            where = 'main' if threading.current_thread() is threading.main_thread() else 'thread'
            if where == 'main' and 'gevent' in sys.modules:
                import greenlet
                if greenlet.getcurrent().parent is not None:
                    where = 'greenlet'
            self.served.append((how, where))
        return f


HOOKS = None


def after_init(cls, record):
    init = cls.__init__

    def __init__(self, *args, **kwargs):
        init(self, *args, **kwargs)
        if type(self) is cls:
            record.append(self)
    cls.__init__ = __init__


def write_config(filename, values):
    if values is None:
        return
    with open(filename, 'w') as f:
        f.write('[metadata]\nprofiler = sampling\ntimer = bogus\n\n[profiling]\n')
        for k in sorted(values):
            f.write('%s = %s\n' % (k, values[k][0]))


FLAGS = {('tracing', 0): ['-T'], ('tracing', 1): ['--tracing'], ('sampling', 0): ['-S'], ('sampling', 1): ['--sampling']}
SHORT = {'interval': '-i', 'endpoint': '-b', 'dump': '-d', 'number': '-n'}
LONG = {'endpoint': '--bind'}


def spell(name, text, style):
    if name == 'profiler':
        return FLAGS[text, style % 2]
    long_ = LONG.get(name, '--' + name)
    if name in SHORT and style == 2:
        return [SHORT[name], text]
    if name in SHORT and style == 3:
        return [SHORT[name] + text]
    if style % 2:
        return [long_ + '=' + text]
    return [long_, text]


def run(plan, out):
    global HOOKS
    HOOKS = hooks = Hooks()
    sys.modules['c25'] = sys.modules[__name__]
    d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH') or None)
    try:
        os.chdir(d)
        for before in plan.get('before') or ():
            out.tag('after another command')
            earlier(before)
        case(plan, out, hooks)
    finally:
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)


def earlier(before):
    """Runs a command under other configuration files, which are gone afterwards."""
    os.mkdir('earlier')
    os.chdir('earlier')
    stdout, stderr = sys.stdout, sys.stderr
    try:
        write_config('setup.cfg', before['setup.cfg'])
        write_config('.profiling', before['.profiling'])
        if not before['elsewhere']:
            for filename in ('setup.cfg', '.profiling'):
                if os.path.exists(filename):
                    os.rename(filename, os.path.join('..', filename))
            os.chdir('..')
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        try:
            main.cli.main(before['argv'], prog_name='profiling', standalone_mode=False)
        except (click.ClickException, click.Abort, SystemExit):
            pass
    finally:
        sys.stdout, sys.stderr = stdout, stderr
        sys.setprofile(None)
        threading.setprofile(None)
        signal.setitimer(signal.ITIMER_PROF, 0)
        if before['elsewhere']:
            os.chdir('..')
        for filename in ('setup.cfg', '.profiling'):
            if os.path.exists(filename):
                os.remove(filename)
        shutil.rmtree('earlier')


def case(plan, out, hooks):
    cmd = plan['cmd']
    uses = USES[cmd]
    effective, wrong, sources = {}, [], {}
    for name in uses:
        effective[name] = DEFAULTS[name]
        sources[name] = 'default'
        for source in ('cli', '.profiling', 'setup.cfg'):
            got = (plan[source] or {}).get(name)
            if got is not None:
                effective[name] = got[1]
                sources[name] = source
                if got[1] is None:
                    wrong.append(name)
                break
    write_config('setup.cfg', plan['setup.cfg'])
    write_config('.profiling', plan['.profiling'])
    with open('script.py', 'w') as f:
        f.write(SCRIPT)
    argv = [plan['alias']] if plan['alias'] else []
    options = []
    for i, name in enumerate(sorted(plan['cli'])):
        if name in uses and not (cmd == 'view' and name == 'endpoint'):
            options.append(spell(name, plan['cli'][name][0], plan['styles'][i % len(plan['styles'])]))
    if cmd in ('profile', 'timeit'):
        if plan['dump']:
            options.append(spell('dump', 'out.prof', plan['styles'][-1]))
        if plan['mono']:
            options.append(['--mono'])
    if cmd == 'timeit':
        options.append(spell('number', '1', plan['styles'][0]))
        options.append(['-s', SCRIPT])
    if cmd == 'remote' and plan['verbose']:
        options.append(['-v'])
    if cmd == 'view' and plan['mono']:
        options.append(['--mono'])
    k = plan['rotate'] % (len(options) + 1)
    options = options[k:] + options[:k]
    target, want_src = [], None
    if cmd == 'timeit':
        target = ['pass']
    elif cmd == 'view':
        target, want_src = source_of(plan, effective)
        if want_src is None:
            wrong.append('source')
        elif target:
            wrong = []
    else:
        target = ['script.py']
    at = plan['at'] % (len(options) + 1) if cmd in ('timeit', 'view') or plan['between'] else len(options)
    for o in options[:at]:
        argv += o
    argv += target
    for o in options[at:]:
        argv += o
    hooks.mode = effective.get('spawn')
    text, exc = invoke(argv, cmd, hooks)
    for source in set(sources.values()):
        out.tag('from ' + source)
    out.tag(cmd)
    out.nontrivial = len(set(sources.values())) >= 2 or bool(wrong) or cmd == 'view'
    if wrong:
        out.tag('invalid')
        expect(isinstance(exc, click.UsageError), '%s: %s should be a usage error, not %r', argv, wrong, exc)
        expect(not hooks.ran or cmd == 'timeit', 'the program ran in spite of a usage error')
        return
    if exc is not None:
        raise Violation('%s failed: %r' % (argv, exc))
    if cmd == 'view':
        return check_view(plan, hooks, want_src, out)
    expect_eq(hooks.ran, 1, 'runs of the program')
    # of the kind, with the timer or the sampler
    expect(len(hooks.profilers) == 1, '%d profilers made', len(hooks.profilers))
    p, = hooks.profilers
    expect(type(p) is CLASSES[effective['profiler']], '%s: %r', argv, p)
    if effective['profiler'] == 'tracing':
        expect(type(p.timer) is CLASSES[effective['timer']], '%s: timer %r', argv, p.timer)
    else:
        expect(type(p.sampler) is CLASSES[effective['sampler']], '%s: sampler %r', argv, p.sampler)
        expect_eq(p.sampler.interval, effective['sampling-interval'], 'sampling interval')
    if cmd in ('profile', 'timeit'):
        expect_eq(os.path.exists('out.prof'), plan['dump'], 'dump file exists')
        expect_eq(len(hooks.loops), 0 if plan['dump'] else 1, 'viewers')
        if plan['dump']:
            with open('out.prof', 'rb') as f:
                expect_eq(protocol_of(f.read()), effective['pickle-protocol'], 'pickle protocol')
        else:
            check_mono(hooks, plan)
        return
    server, = hooks.servers
    expect_eq(server.interval, effective['interval'], 'interval')
    expect_eq(server.pickle_protocol, effective['pickle-protocol'], 'pickle protocol')
    expect(server.profiler.profiler is p, 'the server profiles with %r', server.profiler.profiler)
    expect_eq(server.profiler.signum, effective['signum'], 'signal')
    ours = [s for s in sorted(hooks.handlers) if hooks.handlers[s] not in
            (signal.SIG_DFL, signal.SIG_IGN, None, signal.default_int_handler)]
    expect(effective['signum'] in ours, 'handled signals are %s without %s', ours, effective['signum'])
    want = {'threading': 'thread', 'gevent': 'greenlet'}[effective['spawn']]
    expect_eq(hooks.served, [('connected' if cmd == 'live' else 'serve_forever', want)], 'where the server runs')
    if cmd == 'remote':
        host, port = server.listener.getsockname()
        ehost, eport = effective['endpoint']
        expect_eq(host, {'localhost': '127.0.0.1'}.get(ehost, ehost), 'address')
        expect(eport == 0 or port == eport, 'port %s, not %s', port, eport)
        server.listener.close()
        expect_eq('Listening on %s:%s' % (host, port) in text, plan['verbose'], 'address in %r' % text)
    else:
        expect(server.listener is None, 'live profiling listens at %r', server.listener)
        expect_eq(len(server.clients), 1, 'clients')


def check_mono(hooks, plan):
    loop, = hooks.loops
    colors = loop.screen.colors
    expect((colors == 1) == plan['mono'], '%s colors although mono is %s', colors, plan['mono'])


def source_of(plan, effective):
    """(command line arguments, (type, name))"""
    kind = plan['source']
    name = plan['name']
    if kind == 'none':
        e = effective['endpoint']
        return [], e and ('tcp', tuple(e))
    if kind == 'endpoint':
        text, e = plan['view-endpoint']
        return [text], e and ('tcp', tuple(e))
    if kind == 'dump':
        p = TracingProfiler()
        p.dump(linked(plan, name))
        return [name], ('dump', name)
    if kind == 'sock':
        s = socket.socket(socket.AF_UNIX)
        s.bind(linked(plan, name))
        s.listen(1)
        KEEP.append(s)
        return [name], ('sock', name)
    if kind == 'dir':
        os.mkdir(linked(plan, name))
    elif kind == 'fifo':
        os.mkfifo(linked(plan, name))
    return [name if kind != 'missing' else 'missing'], None


def linked(plan, name):
    """Where to put what is called by the name."""
    if not plan['link']:
        return name
    os.symlink('real', name)
    return 'real'


KEEP = []


def check_view(plan, hooks, src, out):
    kind, name = src
    out.tag('view ' + kind)
    loop, = hooks.loops
    check_mono(hooks, plan)
    if kind == 'dump':
        expect_eq(hooks.clients, [], 'clients')
        return
    client, = hooks.clients
    expect_eq((client.addr, client.family), (name, socket.AF_INET if kind == 'tcp' else socket.AF_UNIX),
              'where the client connects')
    expect_eq(client.title, '%s:%s' % name if kind == 'tcp' else os.path.basename(name), 'title')
    expect_eq(hooks.started, [client], 'started clients')


def protocol_of(data):
    best = 0
    for op, arg, _ in pickletools.genops(data):
        if op.name == 'PROTO':
            return arg
        best = max(best, op.proto)
    return best


def invoke(argv, cmd, hooks):
    for cls in (TracingProfiler, SamplingProfiler):
        after_init(cls, hooks.profilers)
    after_init(SelectProfilingServer, hooks.servers)
    for cls in (ProfilingClient, FailoverProfilingClient):
        after_init(cls, hooks.clients)
    SelectProfilingServer.serve_forever = hooks.serve('serve_forever')
    SelectProfilingServer.connected = hooks.serve('connected')
    hooks.started = []
    FailoverProfilingClient.start = lambda self: hooks.started.append(self)
    urwid.MainLoop.run = lambda self: hooks.loops.append(self)
    stdout = sys.stdout
    if cmd == 'live':
        # only the side of the child.
        os.fork = lambda: 0
    else:
        sys.stdout = io.StringIO()
    try:
        try:
            main.cli.main(argv, prog_name='profiling', standalone_mode=False)
        except click.Abort:
            raise Violation('%s aborted' % argv)
        except click.ClickException as exc:
            return '', exc
        except SystemExit as exc:
            return '', exc
        except Exception as exc:
            return '', exc
        return sys.stdout.getvalue() if cmd != 'live' else '', None
    finally:
        sys.stdout = stdout
        sys.setprofile(None)
        threading.setprofile(None)
        signal.setitimer(signal.ITIMER_PROF, 0)
