# -*- coding: utf-8 -*-
"""A viewing client and the server it watches, through failures."""
from datetime import datetime
import errno
import os
import pickle
import select
import shutil
import socket
import struct
import tempfile
import threading
import time

import view
from base import expect, expect_eq, Violation

import profiling.__main__ as main
from profiling.remote.client import FailoverProfilingClient, ProfilingClient
from profiling.viewer import StatisticsViewer

WELCOME, PROFILER, RESULT = 0x10, 0x11, 0x12
REAL = socket.socket
MAKE_VIEWER = main.make_viewer


class Faults(object):
    connect = []
    recv = None


class FaultySocket(REAL):
    """Injects failures into sockets which connect."""

    def _fails(self):
        if Faults.connect:
            return Faults.connect.pop(0)

    def connect_ex(self, addr):
        self.ours = True
        fault = self._fails()
        if fault == 'gaierror':
            raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
        if fault:
            return getattr(errno, fault)
        return super(FaultySocket, self).connect_ex(addr)

    def connect(self, addr):
        self.ours = True
        fault = self._fails()
        if fault == 'gaierror':
            raise socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
        if fault:
            raise socket.error(getattr(errno, fault), os.strerror(getattr(errno, fault)))
        return super(FaultySocket, self).connect(addr)

    def _recv_fails(self):
        if Faults.recv and getattr(self, 'ours', False):
            e = getattr(errno, Faults.recv)
            raise socket.error(e, os.strerror(e))

    def recv(self, *args):
        self._recv_fails()
        return super(FaultySocket, self).recv(*args)

    def recv_into(self, *args):
        self._recv_fails()
        return super(FaultySocket, self).recv_into(*args)


class Loop(object):
    """An urwid event loop whose clock is virtual."""

    def __init__(self):
        self.now = 0.0
        self.watched = {}
        self.alarms = []
        self.n = 0

    def watch_file(self, fd, callback):
        expect(isinstance(fd, int) and fd >= 0, 'the file %r is watched', fd)
        self.watched[fd] = callback
        return fd

    def remove_watch_file(self, handle):
        return self.watched.pop(handle, None) is not None

    def alarm(self, seconds, callback):
        self.n += 1
        self.alarms.append((self.now + seconds, self.n, callback))
        return self.alarms[-1]

    def remove_alarm(self, handle):
        if handle in self.alarms:
            self.alarms.remove(handle)
            return True
        return False

    def ready(self, timeout=0):
        try:
            return select.select(list(self.watched), [], [], timeout)[0]
        except (ValueError, OSError, select.error) as exc:
            raise Violation('a closed socket is watched: %r' % exc)

    def step(self, timeout=0):
        """Handles the next event, if any."""
        r = self.ready(0 if self.alarms else timeout)
        if r:
            self.watched[r[0]]()
            return True
        if self.alarms:
            self.alarms.sort(key=lambda a: a[:2])
            at, _, callback = self.alarms.pop(0)
            self.now = max(self.now, at)
            callback()
            return True
        return False


class Viewer(StatisticsViewer):

    def __init__(self):
        super(Viewer, self).__init__()
        self.log = []

    def set_profiler_class(self, profiler_class):
        self.log.append(('class', profiler_class))
        return super(Viewer, self).set_profiler_class(profiler_class)

    def set_result(self, stats, cpu_time=0.0, wall_time=0.0, title=None, at=None):
        self.log.append(('result', stats, cpu_time, wall_time, title, at))
        return super(Viewer, self).set_result(stats, cpu_time, wall_time, title, at)


class Case(view.Session):

    def __init__(self, plan, out):
        super(Case, self).__init__(plan, out, None)
        self.viewer = Viewer()
        self.loop = Loop()
        self.title = plan['title']
        self.shown = 0

    def problem(self, prop, fmt_, *args):
        raise Violation(fmt_ % args if args else fmt_)

    def peek(self, what):
        """Compares the viewer with the model."""
        self.check(what, [self.model.focus])

    def keys(self, keys):
        for k in keys:
            self.step(['key', k])

    def pack(self, msg):
        k = msg[0]
        if k == 'welcome':
            method, obj = WELCOME, (2, '0.0.0')
        elif k == 'class':
            method, obj = PROFILER, view.CLASSES[msg[1]]
        elif k == 'result':
            r = view.Result(msg[1])
            msg.append(r)
            method, obj = RESULT, (r.stats, r.cpu, r.wall)
        else:
            method, obj = msg[1], ['a message of another version']
        data = pickle.dumps(obj, msg[-1] if isinstance(msg[-1], int) and k == 'welcome' else 2)
        return struct.pack('!BI', method, len(data)) + data

    def expected(self, msg, since):
        """The viewer has got the message."""
        m, log = self.model, self.viewer.log
        k = msg[0]
        what = 'after the message %s' % k
        if k == 'welcome':
            m.active = True
            expect_eq(len(log), 0, what + ': results or profilers announced')
            expect(self.viewer.active, 'the viewer is not active %s', what)
        elif k == 'class':
            cls = view.CLASSES[msg[1]]
            expect_eq([x[:2] for x in log], [('class', cls)], what)
            if msg[1] != m.kind:
                m.table(msg[1])
        elif k == 'result':
            r = msg[-1]
            expect_eq([x[0] for x in log], ['result'], what + ', the viewer was given')
            _, stats, cpu, wall, title, at = log[0]
            expect_eq((cpu, wall, title), (r.cpu, r.wall, self.title), 'times and title shown')
            expect(isinstance(at, datetime) and since <= at <= datetime.now(), 'the time shown is %r', at)
            r.title, r.at = self.title, at
            m.set_result(r)
            self.shown += 1
        else:
            expect_eq(len(log), 0, what + ': results or profilers announced')
        del log[:]
        self.peek(what)

    def stream(self, sock, s, blocking=False):
        """Sends the messages of a session and then ends it."""
        packed = [self.pack(m) for m in s['messages']]
        data = b''.join(packed)
        whole, at = [], 0
        for p in packed:
            at += len(p)
            whole.append(at)
        cut = len(data)
        if s['cut'] is not None and packed:
            # the connection ends within the last message.
            cut -= 1 + s['cut'] % len(packed[-1])
            whole.pop()
        pieces, pos, i = [], 0, 0
        while pos < cut:
            n = max(1, s['pieces'][i % len(s['pieces'])]) if s['pieces'] else cut
            pieces.append(data[pos:min(cut, pos + n)])
            pos += n
            i += 1
        if len(pieces) > 40:
            pieces = pieces[:40] + [b''.join(pieces[40:])]
        end, keep = s['end'], s['keep']
        if cut < len(data):
            # the client waits for the rest.
            keep = False
            if end not in ('close', 'shutdown') and blocking:
                end = 'reset'
        gate = threading.Event()
        errors = []

        def feed():
            try:
                for p in pieces:
                    sock.sendall(p)
                    if s['slow']:
                        time.sleep(0.0005)
                if keep:
                    gate.wait(60)
                if end == 'close':
                    sock.close()
                elif end == 'shutdown':
                    sock.shutdown(socket.SHUT_WR)
                elif end == 'reset':
                    sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                    sock.close()
                else:
                    gate.wait(60)
                    Faults.recv = end
                    sock.sendall(b'\x12')
            except Exception as exc:
                errors.append(exc)
        t = threading.Thread(target=feed)
        t.daemon = True
        t.start()
        # a reset may overtake what was sent.
        lossy = end == 'reset' and not keep
        done = 0
        limit = time.time() + 30
        while done < len(whole) or not gate.is_set() or Faults.recv or self.viewer.active or self.watching():
            if done == len(whole):
                gate.set()
            since = datetime.now()
            before = self.viewer.active
            if time.time() > limit:
                raise Violation('the viewing client stopped handling what the server sends: %d of %d messages, active: '
                                '%s, watching %d files' % (done, len(whole), self.viewer.active, len(self.loop.watched)))
            ready = self.loop.ready(0.02)
            if not ready:
                if not self.watching():
                    break
                continue
            self.loop.watched[ready[0]]()
            if self.viewer.log or (self.viewer.active and not before) or (done < len(whole) and self.watching()):
                expect(done < len(whole), 'the viewer was given %r of no message', [x[0] for x in self.viewer.log])
                self.expected(s['messages'][done], since)
                done += 1
                self.keys(s['keys'])
            elif not self.watching():
                break
        gate.set()
        t.join(60)
        Faults.recv = None
        sock.close()
        expect(lossy or done == len(whole), 'the client gave up after %d of %d whole messages', done, len(whole))
        expect(not errors or lossy, 'the server could not send: %r', errors)
        self.model.active = False
        expect(not self.viewer.active, 'the viewer is still active after the connection ended (%s)', end)
        self.peek('after the connection ended')
        self.keys(s['keys'][:2])
        self.out.tag('ends: ' + end)
        if s['cut'] is not None and packed:
            self.out.tag('ends within a message')
        if self.model.shown is not None or self.model.result is not None:
            self.out.tag('keeps a result')

    def watching(self):
        return bool(self.loop.watched)


def plain(case, plan):
    """A client of a connected socket."""
    for s in plan['sessions'][:1]:
        family = REAL
        a, b = socket.socketpair()
        a = FaultySocket(a.family, a.type, a.proto, a.detach())
        a.ours = True
        a.setblocking(plan['blocking'])
        client = ProfilingClient(case.viewer, case.loop, a, case.title)
        client.start()
        case.peek('at first')
        case.stream(b, s, plan['blocking'])
        expect_eq(len(case.loop.watched), 0, 'watched files after the end')
        a.close()


class MainLoop(object):

    def __init__(self, event_loop):
        self.event_loop = event_loop
        self.runs = 0

    def run(self):
        # the loop goes on in failover().
        self.runs += 1


def by_command(case, family, addr):
    """The client which the view command starts."""
    if family == 'unix':
        # a server which is about to go down
        sock = REAL(socket.AF_UNIX)
        sock.bind(addr)
        sock.close()
        name, case.title = addr, os.path.basename(addr)
    else:
        name = case.title = '%s:%d' % addr
    loop = MainLoop(case.loop)
    clients = []

    def client(*args, **kwargs):
        clients.append(FailoverProfilingClient(*args, **kwargs))
        return clients[-1]
    main.make_viewer = lambda *a, **k: (case.viewer, loop)
    main.FailoverProfilingClient = client
    try:
        main.cli.main(['view', name], prog_name='profiling')
    except SystemExit as exc:
        expect(not exc.code, 'view %s: exit code %r', name, exc.code)
    finally:
        main.make_viewer, main.FailoverProfilingClient = MAKE_VIEWER, FailoverProfilingClient
    expect_eq((len(clients), loop.runs), (1, 1), 'clients made and runs of the loop by the view command')
    if family == 'unix' and os.path.exists(addr):
        os.unlink(addr)
    case.out.tag('view command')
    return clients[0]


def failover(case, plan, d):
    family = socket.AF_UNIX if plan['family'] == 'unix' else socket.AF_INET
    path = os.path.join(d, 'socket')
    listener = None
    if plan['family'] == 'unix':
        addr = path
    else:
        # a port which stays ours
        holder = REAL(socket.AF_INET)
        holder.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        holder.bind(('127.0.0.1', 0))
        addr = holder.getsockname()
    fds = len(os.listdir('/proc/self/fd'))
    if plan.get('command'):
        case.peek('before it starts')
        client = by_command(case, plan['family'], addr)
    else:
        client = FailoverProfilingClient(case.viewer, case.loop, addr, family, title=case.title)
        case.peek('before it starts')
        client.start()
    tries = 0
    for s in plan['sessions']:
        # down
        since = case.loop.now
        if plan['family'] == 'unix' and s['file'] and not os.path.exists(path):
            # nobody listens on the socket file.
            dead = REAL(socket.AF_UNIX)
            dead.bind(path)
            dead.close()
        Faults.connect[:] = s['faults']
        for _ in range(s['downs']):
            tries += 1
            case.loop.step()
            expect(not case.viewer.active, 'the viewer is active although there is no server')
            expect(not case.viewer.log, 'the viewer was given %r without a server', case.viewer.log)
            expect(case.loop.alarms or case.loop.watched, 'the client does not try to reconnect')
        case.peek('without a server')
        if s['downs'] or s['faults']:
            case.out.tag('server is down')
        # up
        if plan['family'] == 'unix':
            if os.path.exists(path):
                os.unlink(path)
            listener = REAL(socket.AF_UNIX)
            listener.bind(path)
        else:
            listener = holder
        listener.listen(5)
        sock = None
        injected = len(Faults.connect)
        for i in range(60 + injected):
            if select.select([listener], [], [], 0)[0]:
                sock, _ = listener.accept()
                break
            expect(case.loop.alarms or case.loop.watched, 'the client does not try to reconnect after %d tries', tries)
            before = case.loop.now
            case.loop.step(0.02)
            expect(case.loop.now - before <= 60, 'the client waits %r seconds', case.loop.now - before)
            tries += 1
        expect(sock is not None, 'the client does not connect again, %r', s['faults'])
        for f in s['faults']:
            case.out.tag('fails by ' + f)
        # the connection is established: the client waits for the server.
        for i in range(10):
            if case.loop.watched:
                break
            case.loop.step()
        expect(case.loop.watched, 'the client is connected but does not watch')
        expect(not case.viewer.active, 'the viewer is active before the welcome')
        # the server goes down for new clients.
        if plan['family'] == 'unix':
            listener.close()
            os.unlink(path)
        else:
            holder.close()
            holder = REAL(socket.AF_INET)
            holder.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            holder.bind(addr)
        case.stream(sock, s)
        expect(case.loop.alarms or case.loop.watched, 'the client does not try to reconnect after %s', s['end'])
    now = len(os.listdir('/proc/self/fd'))
    if tries >= 12:
        expect(now <= fds + 6, '%d files are open after %d tries, at first %d', now, tries, fds)
        case.out.tag('many tries')
    case.out.tag('sessions %d' % len(plan['sessions']))
    client.sock.close()
    if plan['family'] != 'unix':
        holder.close()


def run(plan, out):
    d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH') or None)
    socket.socket = FaultySocket
    del Faults.connect[:]
    Faults.recv = None
    case = Case(plan, out)
    try:
        if plan['client'] == 'plain':
            plain(case, plan)
        else:
            failover(case, plan, d)
    finally:
        socket.socket = REAL
        shutil.rmtree(d, ignore_errors=True)
    out.tag(plan['client'])
    out.nontrivial = case.shown >= 1
