# -*- coding: utf-8 -*-
"""Programs under remote-profile and live-profile and on their own, while
clients come and go."""
import atexit
import os
import pickle
import select
import shutil
import signal
import socket
import struct
import sys
import tempfile
import threading
import time
import traceback

import urwid

import profiling.__main__ as main
import c26
import source
from base import expect, expect_eq, Violation

ISOLATE = True

WELCOME, PROFILER, RESULT = 0x10, 0x11, 0x12
#: seconds after which something does not happen any more
PATIENCE = 40

PHASES = '''
import threading, time, select

def work(n):
    x = 0
    for i in range(n):
        x += i
    return x

def phase(k, step):
    open(os.path.join(WHERE, 'at-%d' % k), 'w').close()
    while not os.path.exists(os.path.join(WHERE, 'go-%d' % k)):
        step()

def piped(size):
    r, w = os.pipe()
    def feed():
        time.sleep(0.01)
        data = b'x' * size
        while data:
            data = data[os.write(w, data[:4096]):]
        os.close(w)
    t = threading.Thread(target=feed)
    t.start()
    got = 0
    while True:
        data = os.read(r, 1 << 12)
        if not data:
            break
        got += len(data)
    t.join()
    os.close(r)
    effect(('piped', got))

def sleeps(ms):
    t = time.time()
    time.sleep(ms / 1000.0)
    effect(('slept', time.time() - t >= ms / 1000.0 * 0.9))

def locked(n):
    lock, total = threading.Lock(), []
    def add(i):
        with lock:
            total.append(i)
    ts = [threading.Thread(target=add, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    effect(('locked', sorted(total)))

def chatter(n):
    sys.stderr.write('noise ' * n + '\\n')

def signals(names):
    import signal
    effect(('signals', [str(signal.getsignal(getattr(signal, n))) for n in names]))

def own_signal(name, ms):
    import signal
    num = getattr(signal, name)
    before = signal.signal(num, lambda *a: effect(('signal', name)))
    os.kill(os.getpid(), num)
    time.sleep(ms / 1000.0)
    signal.signal(num, before)
    effect(('signal over', name))

def junk(n):
    sys.stderr.flush()
    os.write(2, bytes(bytearray(range(n, n + 200))) + b'\\n')

def dies(how):
    sys.stdout.flush()
    sys.stderr.flush()
    if how > 0:
        os.kill(os.getpid(), how)
        time.sleep(10)
    os._exit(-how)

def at_exit():
    import atexit
    atexit.register(effect, 'at exit')

def left_thread():
    def late():
        time.sleep(0.01)
        effect('late')
    threading.Thread(target=late).start()

'''

STEPS = {
    'busy': 'def step%d():\n    work(200)\n',
    'deep': 'def step%d(n=20):\n    work(50)\n    if n: step%d(n - 1)\n',
    'sleep': 'def step%d():\n    time.sleep(0.001)\n',
    'raises': 'def step%d():\n    try:\n        step%d_raise()\n    except Oops:\n        work(200)\n\n'
              'def step%d_raise():\n    raise Oops(1)\n',
    'gen': 'def step%d():\n    return [work(20) for _ in count(20)]\n',
    'join': 'def step%d():\n    t = threading.Thread(target=work, args=(2000,))\n    t.start()\n    t.join()\n',
    'exec': 'def step%d():\n    exec("work(200)")\n',
}


def free_signals(plan):
    """Signals which belong to the program."""
    taken = {None: 'SIGUSR2', '12': 'SIGUSR2', 'USR2': 'SIGUSR2', 'SIGUSR1': 'SIGUSR1'}[plan['signum']]
    return [n for n in ('SIGUSR1', 'SIGUSR2', 'SIGHUP', 'SIGALRM', 'SIGWINCH') if n != taken]


def program(plan, top, script):
    """Replaces the phases by source text."""
    lines = []
    for stmt in plan['body']:
        if stmt[0] == 'phase':
            k, kind = stmt[1], stmt[2]
            text = STEPS[kind]
            lines.append(text % ((k,) * text.count('%d')))
            lines.append('def phase%d():\n    phase(%d, step%d)\n' % (k, k, k))
            lines.append('phase%d()\n' % k)
        elif stmt[0] in ('piped', 'sleeps', 'locked', 'chatter', 'dies', 'junk'):
            lines.append('%s(%d)' % (stmt[0], stmt[1]))
        elif stmt[0] == 'signals':
            lines.append('signals(%r)' % (free_signals(plan),))
        elif stmt[0] == 'own_signal':
            free = free_signals(plan)
            lines.append('own_signal(%r, %d)' % (free[stmt[1] % len(free)], stmt[2]))
        elif stmt[0] in ('at_exit', 'left_thread'):
            lines.append('%s()' % stmt[0])
        else:
            sub = []
            n = len(plan['funcs'])
            source.render([stmt], 0, ['f%d' % i for i in range(n)], sub)
            lines.extend(sub)
    p = {'doc': None, 'funcs': plan['funcs'], 'main': []}
    text = source.program(p, top)
    assert text.endswith('pass\n')
    return text[:-5] + PHASES.replace('WHERE', repr(top)) + '\n'.join(lines).replace('WHERE', repr(top)) + '\n'


class Child(object):
    """func(): in a process of its own, which ends like a Python program."""

    def __init__(self, func, top, execs=False):
        self.top = top
        self.reaped = None
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid:
            return
        rc = 120
        origin = os.getpid()
        try:
            os.setsid()
            os.chdir(top)
            for fd, name, flags in [(0, os.devnull, os.O_RDONLY), (1, '.stdout', os.O_WRONLY | os.O_CREAT),
                                    (2, '.stderr', os.O_WRONLY | os.O_CREAT)]:
                f = os.open(name, flags, 0o600)
                os.dup2(f, fd)
                os.close(f)
            sys.stdin = open(0, 'r', closefd=False)
            sys.stdout = open(1, 'w', closefd=False, encoding='utf-8')
            sys.stderr = open(2, 'w', closefd=False, encoding='utf-8', buffering=1)
            atexit._clear()
            rc = ends(func)
            threading._shutdown()
            atexit._run_exitfuncs()
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            except ValueError:
                pass
        except BaseException:
            traceback.print_exc()
        finally:
            if os.getpid() == origin and execs:
                rc = 119
            os._exit(rc)

    def poll(self):
        if self.reaped is None:
            pid, status = os.waitpid(self.pid, os.WNOHANG)
            if pid:
                self.reaped = status
        return self.reaped

    def wait(self, patience):
        end = time.time() + patience
        while self.poll() is None:
            expect(time.time() < end, 'the program does not end')
            time.sleep(0.002)
        return self.reaped

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        if self.reaped is None:
            os.waitpid(self.pid, 0)

    def outcome(self, patience=PATIENCE):
        status = self.wait(patience)
        o, e = [open(os.path.join(self.top, n), encoding='utf-8', errors='surrogateescape', newline='') for n in ('.stdout', '.stderr')]
        with o, e:
            return c26.effects(self.top), o.read(), e.read(), status


def ends(func):
    """The exit code, as of the interpreter."""
    try:
        func()
    except SystemExit as exc:
        if exc.code is None:
            return 0
        if isinstance(exc.code, int):
            return exc.code & 0xff
        sys.stderr.write('%s\n' % exc.code)
        return 1
    except BaseException:
        traceback.print_exc()
        return 1
    return 0


def layout(plan, top):
    os.mkdir(top)
    name = plan['script']
    source.lay(top)
    with open(os.path.join(top, name), 'w') as f:
        f.write(program(plan, top, name))
    return name


def direct(plan, top):
    """The program on its own; every phase goes on at once."""
    name = layout(plan, top)
    for k in phases(plan):
        open(os.path.join(top, 'go-%d' % k), 'w').close()

    def body():
        with open(os.path.join(top, name)) as f:
            code = compile(f.read(), name, 'exec')
        sys.argv[:] = [name] + plan['args']
        sys.path.insert(0, top)
        exec(code, {'__name__': '__main__', '__doc__': None, '__package__': None, '__file__': name})
    c = Child(body, top)
    try:
        return c.outcome()
    finally:
        c.kill()


def phases(plan):
    return [s[1] for s in plan['body'] if s[0] == 'phase']


class Client(object):

    def __init__(self, addr):
        self.sock = socket.socket()
        self.sock.settimeout(PATIENCE)
        self.sock.connect(addr)
        self.buf = b''
        self.open = True
        self.number = 0

    def exactly(self, n):
        while len(self.buf) < n:
            data = self.sock.recv(1 << 16)
            if not data:
                raise EOFError
            self.buf += data
        res, self.buf = self.buf[:n], self.buf[n:]
        return res

    def message(self):
        try:
            method, size = struct.unpack('!BI', self.exactly(5))
            msg = pickle.loads(self.exactly(size))
        except socket.timeout:
            raise Violation('a client receives nothing for %d s' % PATIENCE)
        self.number += 1
        if self.number == 1:
            expect_eq(method, WELCOME, 'first message')
        elif self.number == 2:
            expect_eq(method, PROFILER, 'second message')
        else:
            expect_eq(method, RESULT, 'message %d' % self.number)
        return method, msg

    def results(self):
        while True:
            method, msg = self.message()
            if method == RESULT:
                yield msg[0]

    def close(self, how):
        self.open = False
        if how == 'reset':
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        elif how == 'garbage':
            try:
                self.sock.sendall(b'garbage')
            except OSError:
                pass
        elif how == 'shutdown':
            try:
                self.sock.shutdown(socket.SHUT_WR)
            except OSError:
                pass
        self.sock.close()


def paths(stats):
    todo = [(stats, ())]
    while todo:
        s, path = todo.pop()
        for c in s:
            p = path + (c.name,)
            yield p
            todo.append((c, p))


def appears(stats, k, kind, plan):
    """Whether the functions of the phase are in the result."""
    want = ('phase%d' % k, 'phase', 'step%d' % k)
    for p in paths(stats):
        if p[-3:] == want:
            return True
    return False


def options(plan):
    opts = []
    if plan['sampling']:
        opts += ['-S', '--sampler', plan['sampling'], '--sampling-interval', '0.0005']
    else:
        opts += ['--timer', plan['timer']]
    opts += ['-i', repr(plan['interval'])]
    if plan['signum']:
        opts += ['--signum', plan['signum']]
    if plan['protocol'] is not None:
        opts += ['--pickle-protocol', str(plan['protocol'])]
    return opts


def visible(plan, kind):
    """Whether the functions of such a phase have to appear."""
    return kind not in ('sleep',) if plan['sampling'] else True


def wait_for(path, child):
    end = time.time() + PATIENCE
    while not os.path.exists(path):
        if child.poll() is not None:
            raise Violation('the program ended early: %s' % (child.outcome(),))
        expect(time.time() < end, 'the program does not come to %s', os.path.basename(path))
        time.sleep(0.001)


def remote(plan, top, out):
    holder = socket.socket()
    holder.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    holder.bind(('127.0.0.1', 0))
    addr = holder.getsockname()
    name = layout(plan, top)
    args = ['remote-profile'] + options(plan) + ['--bind', '%s:%d' % addr]
    if plan['verbose']:
        args.append('-v')
    args += [name, '--'] + plan['args']
    if plan['process']:
        def body():
            env = dict(os.environ, PYTHONIOENCODING='utf-8')
            os.execve(sys.executable, [sys.executable, '-B', '-m', 'profiling'] + args, env)
    else:
        def body():
            holder.close()
            main.cli.main(args, prog_name='profiling')
    child = Child(body, top, plan['process'])
    clients = []
    try:
        for k in phases(plan):
            kind = next(s[2] for s in plan['body'] if s[0] == 'phase' and s[1] == k)
            wait_for(os.path.join(top, 'at-%d' % k), child)
            for action in plan['actions'].get(str(k), ()):
                living = [c for c in clients if c.open]
                what = action[0]
                if what == 'connect':
                    clients.append(Client(addr))
                    out.tag('connects')
                elif living:
                    c = living[action[1] % len(living)]
                    if what == 'close':
                        c.close(action[2])
                        out.tag('leaves by ' + action[2])
                    else:
                        read(plan, c, k, kind, child, out)
            open(os.path.join(top, 'go-%d' % k), 'w').close()
        if len(clients) > 1:
            out.tag('several clients')
        res = child.outcome()
        for c in clients:
            if c.open:
                out.tag('stays to the end')
                c.close('close')
        return res
    finally:
        child.kill()
        holder.close()
        for c in clients:
            c.sock.close()


def read(plan, c, k, kind, child, out):
    """Receives a result of the phase."""
    end = time.time() + PATIENCE
    n = 0
    try:
        for stats in c.results():
            n += 1
            # the first may be of an earlier phase.
            if n >= 3 and not visible(plan, kind):
                break
            if appears(stats, k, kind, plan):
                out.tag('shows ' + kind)
                break
            expect(n < 60 or time.time() < end, 'step%d does not appear in %d results while it is executed: %s', k, n,
                   sorted(set('/'.join(map(str, x)) for x in paths(stats)))[:6])
    except (EOFError, OSError) as exc:
        raise Violation('the server closed the connection: %r; the program: %s' % (exc, child.poll()))
    out.nontrivial = True


def live(plan, top, out):
    name = layout(plan, top)
    args = ['live-profile'] + options(plan) + ['--mono', name, '--'] + plan['args']
    todo = phases(plan)
    kinds = {s[1]: s[2] for s in plan['body'] if s[0] == 'phase'}
    report = os.path.join(top, '.report')

    stall = plan.get('stall')
    pair = socket.socketpair

    def narrow():
        socket.socketpair = pair
        pair_ = pair()
        for sock in pair_:
            sock.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1)
        return pair_

    def body():
        if stall is not None:
            socket.socketpair = narrow
        fork = os.fork
        pids = []

        def forks():
            pid = fork()
            if pid:
                pids.append(pid)
            return pid
        os.fork = forks
        seen = []
        shown = []
        set_result = main.StatisticsViewer.set_result

        def record(self, stats, *a, **k):
            seen.append(stats)
            return set_result(self, stats, *a, **k)
        main.StatisticsViewer.set_result = record
        viewers = []
        make_viewer = main.make_viewer

        def makes(*a, **k):
            v, loop = make_viewer(*a, **k)
            viewers.append(v)
            return v, loop
        main.make_viewer = makes

        def run_loop(self):
            events = self.event_loop
            state = {'n': 0, 'since': time.time(), 'active': False}

            def tell(text):
                with open(report, 'a') as f:
                    f.write(text + '\n')
                raise urwid.ExitMainLoop()

            def zombie():
                if len(os.listdir('/proc/%d/task' % pids[0])) > 1:
                    return False
                with open('/proc/%d/stat' % pids[0]) as f:
                    return f.read().rpartition(')')[2].split()[0] == 'Z'

            def check():
                v = viewers[0]
                state['active'] = state['active'] or v.active
                if todo:
                    k = todo[0]
                    if os.path.exists(os.path.join(top, 'at-%d' % k)):
                        if 'from' not in state:
                            state['from'] = len(seen)
                            if k == stall:
                                # the viewer is busy.  Then it gets some
                                # results of before.
                                time.sleep(1.3)
                                state['from'] += 20
                        got = seen[state['from']:]
                        if any(appears(s, k, kinds[k], plan) for s in got) or (
                                len(got) >= 3 and not visible(plan, kinds[k])):
                            shown.append(k)
                            del state['from']
                            todo.pop(0)
                            state['since'] = time.time()
                            open(os.path.join(top, 'go-%d' % k), 'w').close()
                        elif time.time() - state['since'] > PATIENCE:
                            tell('step%d does not appear in %d results while it is executed' % (k, len(got)))
                    elif zombie():
                        tell('the program ended early')
                    elif time.time() - state['since'] > PATIENCE:
                        tell('the program does not come to phase %d' % k)
                elif zombie() and not v.active:
                    if seen and not state['active']:
                        tell('the viewer was never active')
                    raise urwid.ExitMainLoop()
                elif time.time() - state['since'] > PATIENCE:
                    tell('the program does not end' if not zombie() else 'the viewer stays active')
                events.alarm(0.003, check)
            events.alarm(0, check)
            events.run()
            with open(report, 'a') as f:
                f.write('shown %r\n' % shown)
        urwid.MainLoop.run = run_loop
        main.cli.main(args, prog_name='profiling')
    child = Child(body, top)
    try:
        # each step has its own limit in run_loop().
        res = child.outcome(150)
        with open(report) as f:
            lines = f.read().splitlines()
        for line in lines:
            expect(line.startswith('shown '), '%s', line)
        if stall is not None:
            out.tag('viewer stalls')
        if phases(plan):
            out.nontrivial = True
            for k in phases(plan):
                out.tag('shows ' + kinds[k])
        return res
    finally:
        child.kill()


def run(plan, out):
    d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH') or None)
    try:
        case(plan, out, d)
    finally:
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)


def status_of(status):
    return 'exit code %d' % os.WEXITSTATUS(status) if os.WIFEXITED(status) else 'signal %d' % os.WTERMSIG(status)


def logs_out(text):
    """Leaves the logs of the server out."""
    text = text.replace('\x1b[36m> \x1b[0m', '> ')
    res, i = [], 0
    while True:
        j = text.find('> ', i)
        if j < 0:
            return ''.join(res) + text[i:]
        res.append(text[i:j])
        i = text.find('\n', j) + 1
        if not i:
            return ''.join(res)


def settled(effects, top):
    """Left threads do their effects at any time."""
    effects = [x.replace(top, '') for x in effects]
    return [x for x in effects if x != 'late'] + [x for x in effects if x == 'late']


def case(plan, out, d):
    want_effects, want_out, want_err, want_status = direct(plan, os.path.join(d, 'a'))
    top = os.path.join(d, 'b')
    f = remote if plan['command'] == 'remote' else live
    effects, o, e, status = f(plan, top, out)
    shown = plan['command']
    c26.check_effects(settled(effects, top), settled(want_effects, os.path.join(d, 'a')), shown)
    want = status_of(want_status)
    if os.WIFSIGNALED(want_status):
        out.tag('killed')
        if plan['command'] == 'live':
            want = 'exit code %d' % (128 + os.WTERMSIG(want_status))
    expect_eq(status_of(status), want, 'the program ends with')
    if any(s[0] == 'dies' for s in plan['body']):
        out.tag('dies')
    if plan['command'] == 'live':
        expect_eq(o, '', 'standard output')
    elif plan['verbose']:
        expect('Listening on 127.0.0.1:' in o, 'the server does not say where it listens: %r', o[:300])
        expect_eq(logs_out(o), want_out, 'standard output without the logs')
        out.tag('verbose')
    else:
        expect_eq(o, want_out, 'standard output')
    mark = 'Traceback (most recent call last)'
    before, trace, after = want_err.rpartition(mark)
    if not trace:
        expect_eq(e, want_err, 'standard error')
    else:
        expect(e.startswith(before), 'standard error is %r, expected %r at first', e[:500], before[:500])
        expect(mark in e[len(before):], 'standard error does not tell of the exception: %r', e[-500:])
        expect_eq(e.rstrip().splitlines()[-1], want_err.rstrip().splitlines()[-1], 'the last line of standard error')
        out.tag('raises')
    if os.WIFEXITED(want_status) and os.WEXITSTATUS(want_status):
        out.tag('fails')
    out.tag(plan['command'], plan['sampling'] or plan['timer'])
    if plan['process']:
        out.tag('separate process')
