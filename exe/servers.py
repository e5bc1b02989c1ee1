# -*- coding: utf-8 -*-
"""Profiling servers under generated histories of clients (C19, C20).

Every run returns a Record of what each client received and of what the
server did; c19.py and c20.py judge it."""
import collections
import errno as errnos
import os
import re
import struct
import tempfile
import select as _select
import socket
import threading
import time

REAL_SELECT = _select.select
now = time.monotonic


class FakeSelect(object):
    """Replaces select.select before the code under test is imported."""
    virtual = None

    def __call__(self, r, w, x, timeout=None):
        if self.virtual is None:
            return REAL_SELECT(r, w, x, timeout)
        return self.virtual(r, w, x, timeout)


fake_select = FakeSelect()
_select.select = fake_select

from base import expect, expect_eq, Violation
import trees

from profiling.profiler import Profiler, ProfilerWrapper
from profiling.remote import ProfilingServer, recv_msg, PROFILER, RESULT, WELCOME
from profiling.remote.select import SelectProfilingServer
from profiling.stats import FrozenStatistics


class NumberedProfiler(Profiler):
    """Its results are numbered."""

    def __init__(self, pad=(0,), refuses=()):
        super(NumberedProfiler, self).__init__()
        self.refuses = refuses
        self.barred = False
        self.pad = pad
        self.count = 0
        self.refused = 0
        self.starts = 0
        self.early = 0
        self.times = []

    def run(self):
        self.starts += 1
        self.barred = self.starts in self.refuses
        if self.barred:
            # like the tracing profiler when there is another profile function
            raise RuntimeError('Refused')
        yield

    def start(self):
        if self.is_running():
            self.refused += 1
        return super(NumberedProfiler, self).start()

    def result(self):
        if self.is_running():
            self.early += 1
        self.count += 1
        self.times.append(now())
        n = self.count
        stats = FrozenStatistics('s' * self.pad[n % len(self.pad)], 'file', n, None, n, 0.0)
        return stats, float(n), float(n)


class Wrapper(ProfilerWrapper):

    def run(self):
        self.profiler.start()
        yield
        self.profiler.stop()


def make_profiler(plan):
    inner = NumberedProfiler(plan['pad'], plan.get('refuses') or ())
    p = inner
    for _ in range(plan['wraps']):
        p = Wrapper(p)
    return p, inner


class Client(object):
    """What the harness knows of a client."""

    def __init__(self, number):
        self.number = number
        self.first = None       # the first result it has to receive
        self.least = None       # the last result it received, at least
        self.most = None        # and at most; None: the last one of all
        self.state = 'new'      # new, connected, left, failed
        self.data = b''
        self.sends = 0
        self.closed = 0
        self.fail_at = None

    def __repr__(self):
        return 'client %d' % self.number


class Record(object):
    def __init__(self):
        self.clients = []
        self.problems = []      # (property, text)
        self.tags = set()
        self.results = 0

    def problem(self, prop, fmt, *args):
        self.problems.append((prop, fmt % args if args else fmt))

    def expect(self, cond, prop, fmt, *args):
        if not cond:
            self.problem(prop, fmt, *args)


class Log(object):
    """Follows the log of a server (C32)."""

    COMES = re.compile(r'(?:Connected from (\S+)|A client connected) \(total: (\d+)\)$')
    GOES = re.compile(r'(?:Disconnected from (\S+)|A client disconnected) \(total: (\d+)\)$')

    def __init__(self, rec, interval):
        self.rec = rec
        self.interval = interval
        self.total = 0
        self.running = False
        self.sessions = 0
        self.came = collections.Counter()
        self.went = collections.Counter()
        self.lines = 0

    def expect(self, cond, fmt, *args):
        self.rec.expect(cond, 'C32', fmt, *args)

    def __call__(self, line):
        self.lines += 1
        comes, goes = self.COMES.match(line), self.GOES.match(line)
        if comes or goes:
            name, total = (comes or goes).groups()
            self.total += 1 if comes else -1
            self.expect(int(total) == self.total, 'the log says %r, there are %d clients', line, self.total)
            (self.came if comes else self.went)[name] += 1
            if name is None:
                # the address of a client is unknown once its connection has broken
                unknown = sum(1 for c in self.rec.clients if c.name is None or not getattr(c, 'open', True))
                self.expect((self.came if comes else self.went)[None] <= unknown,
                            'the log says %r of a client with an address', line)
        elif line == 'Profiler stopped':
            self.expect(self.running, 'the log says that profiling stopped, it did not run')
            self.expect(not self.total, 'the log says that profiling stopped, there are %d clients', self.total)
            self.running = False
        else:
            self.expect(line == 'Profiling every %s seconds...' % self.interval, 'the log says %r', line)
            self.expect(not self.running, 'the log says that profiling started, it ran already')
            self.running = True
            self.sessions += 1

    def point(self, running, total=None):
        self.expect(self.running == running, 'profiling %s, the log says otherwise',
                    'runs' if running else 'does not run')
        if total is not None:
            self.expect(self.total == total, '%d clients are connected, %d according to the log', total, self.total)

    def judge(self, gone):
        """At the end: *gone* tells clients which must have been disconnected."""
        clients = [c for c in self.rec.clients if c.state not in ('new', 'pending')]
        for said, really, what in ((self.came, clients, 'come'), (self.went, [c for c in clients if gone(c)], 'gone')):
            n = sum(said.values())
            self.expect(n == len(really), '%d clients have %s, %d according to the log', len(really), what, n)
            names = collections.Counter(c.name for c in really)
            wrong = [x for x in said if x is not None and said[x] > names[x]]
            self.expect(not wrong, 'the log says that %r has %s; these have: %r', wrong, what, sorted(map(str, names)))
        if self.sessions > 1:
            self.rec.tags.add('log-restarted')
        if self.went[None] and len(self.went) > 1:
            self.rec.tags.add('log-anonymous')


def parse(data):
    """Whole messages in the bytes, through the client's own function."""
    a, b = socket.socketpair()
    a.settimeout(30)

    def feed():
        try:
            a.sendall(data)
            a.shutdown(socket.SHUT_WR)
        except OSError:
            pass
    t = None
    if len(data) < 30000:
        feed()
    else:
        t = threading.Thread(target=feed)
        t.daemon = True
        t.start()
    msgs = []
    try:
        while True:
            try:
                msgs.append(recv_msg(b))
            except socket.error:
                return msgs
    finally:
        b.close()
        if t is not None:
            t.join()
        a.close()


def check_stream(rec, c, inner):
    """C19 for one client."""
    P = 'C19'
    try:
        msgs = parse(c.data)
    except Exception as exc:
        rec.problem(P, '%r received bytes that are no message: %r', c, exc)
        return
    methods = [m for m, _ in msgs]
    names = {WELCOME: 'WELCOME', PROFILER: 'PROFILER', RESULT: 'RESULT'}
    want = [WELCOME, PROFILER] + [RESULT] * max(0, len(methods) - 2)
    rec.expect(methods == want[:len(methods)], P, '%r received %s', c, [names.get(m, m) for m in methods])
    if methods != want[:len(methods)]:
        return
    if len(msgs) > 1:
        rec.expect(msgs[1][1] is type(inner), P, '%r was told of the profiler %r, the innermost is %r', c,
                   msgs[1][1], type(inner))
    numbers = []
    for _, (stats, cpu, wall) in msgs[2:]:
        n = int(cpu)
        numbers.append(n)
        rec.expect(wall == cpu and stats.own_hits == n and stats.lineno == n and
                   stats.name == 's' * inner.pad[n % len(inner.pad)], P, '%r received a damaged result %d', c, n)
    last = rec.results if c.most is None else c.most
    least = last if c.least is None else c.least
    if c.fail_at is not None:
        # the first sends succeeded
        rec.expect(len(msgs) == c.fail_at, P, '%r received %d messages, %d were sent', c, len(msgs), c.fail_at)
        numbers_ok = numbers == list(range(c.first, c.first + len(numbers)))
        rec.expect(numbers_ok, P, '%r received the results %s, expected them from %d on', c, numbers, c.first)
        return
    if c.state == 'connected':
        rec.expect(len(methods) >= 2, P, '%r was not greeted: %s', c, methods)
    ok = numbers == list(range(c.first, c.first + len(numbers))) if numbers else True
    rec.expect(ok, P, '%r received the results %s, expected them from %d on', c, numbers, c.first)
    end = numbers[-1] if numbers else c.first - 1
    rec.expect(least <= end <= last or (least < c.first and not numbers), P,
               '%r received the results %s; it was connected from result %d to %d (%d)', c, numbers, c.first, least,
               last)


# ------------------------------------------------------------ base server

class Gone(object):
    pass


class BaseServer(ProfilingServer):
    """A transport of the harness: ProfilingServer's documented methods."""

    def __init__(self, driver, profiler, **kw):
        self.driver = driver
        ProfilingServer.__init__(self, profiler, **kw)

    def _send(self, client, data):
        self.driver.send(client, data)

    def _close(self, client):
        client.closed += 1

    def _addr(self, client):
        return client.addr

    def _start_profiling(self):
        self.driver.start_profiling()

    def _start_watching(self, client):
        self.driver.start_watching(client)


class Stop(Exception):
    pass


class BaseDriver(object):

    def __init__(self, plan):
        self.plan = plan
        self.rec = Record()
        self.p, self.inner = make_profiler(plan)
        interval = plan.get('interval', 1)
        self.log = Log(self.rec, interval)
        kw = {'interval': interval, 'log': self.log}
        if plan['protocol'] is not None:
            kw['pickle_protocol'] = plan['protocol']
        self.server = BaseServer(self, self.p, **kw)
        self.loop = None
        self.loops = 0
        self.ops = list(reversed(plan['ops']))
        self.broadcasting = False
        self.greeting = []
        self.nested = plan['loop'] == 'nested'

    # called by the server
    def send(self, c, data):
        rec = self.rec
        if c.closed or c.state == 'left' and c.gone:
            raise socket.error(errnos.EBADF, 'closed')
        k = c.sends
        c.sends += 1
        fault = c.fault
        if fault is not None and k == fault[0] % 6:
            c.data += bytes(data[:fault[2] % max(1, len(data))])
            c.fail_at = k
            c.state = 'failed'
            rec.tags.add('send-fails')
            raise socket.error(fault[1], 'injected')
        c.data += bytes(data)
        nest = c.nest
        if nest is not None and k == nest[0] % 6:
            # something happens while this client is being sent to
            rec.tags.add('meanwhile')
            for op in nest[1]:
                # a synchronous server does not accept while it sends
                if not self.nested or self.loops or op[0] != 'connect':
                    self.step(op, c)

    def start_profiling(self):
        self.loops += 1
        self.rec.expect(self.loops <= 1, 'C20', 'a second profiling loop was started')
        if self.loops > 1:
            raise Stop()
        if self.nested:
            try:
                for _ in self.server.profiling():
                    self.running_point()
                    self.until_tick()
            finally:
                self.loops -= 1
                self.broadcasting = False
            return
        self.loop = self.server.profiling()
        if self.plan['loop'] == 'eager':
            self.tick()

    def start_watching(self, c):
        if c.vanish:
            self.leave(c)

    # driver
    def running_point(self):
        """The server sleeps between two results."""
        self.broadcasting = False
        rec, server = self.rec, self.server
        rec.expect(self.inner.is_running() or self.inner.barred, 'C20', 'the profiler is not running while clients are connected')
        self.log.point(True)
        self.account()

    def account(self):
        self.rec.results = self.inner.count

    def tick(self):
        if self.loop is None:
            self.idle_point()
            return False
        clients = [c for c in self.rec.clients if c.state == 'connected']
        before = self.inner.count
        self.broadcasting = True
        first = not self.begun
        self.begun = True
        try:
            next(self.loop)
        except StopIteration:
            self.loop = None
            self.loops -= 1
            self.broadcasting = False
            self.account()
            self.rec.expect(not self.connected(), 'C20', 'profiling ended although %s are connected',
                            self.connected())
            self.idle_point()
        else:
            self.running_point()
            if not first:
                self.rec.expect(self.inner.count == before + 1, 'C20', '%d results in an interval',
                                self.inner.count - before)
        return True

    begun = property(lambda self: getattr(self.loop, 'gi_frame', None) is not None and self._begun is self.loop,
                     lambda self, v: setattr(self, '_begun', self.loop))
    _begun = None

    def connected(self):
        return [c for c in self.rec.clients if c.state == 'connected']

    def idle_point(self):
        self.log.point(bool(self.loops and self.nested))
        self.rec.expect(not self.inner.is_running(), 'C20', 'the profiler runs although no profiling loop does')
        self.rec.expect(not self.connected() or self.loops, 'C20', '%s are connected but nothing profiles',
                        self.connected())

    def until_tick(self):
        while self.ops:
            op = self.ops.pop()
            if op[0] == 'tick':
                self.broadcasting = True
                return
            self.step(op, None)
        raise Stop()

    def leave(self, c, quiet=False):
        if c.state == 'connected' or c.state == 'new':
            c.state = 'left'
            c.gone = not quiet
            c.most = self.inner.count
            # a result being sent right now may have been sent or not
            c.least = c.most - 1 if self.broadcasting else c.most
            if c in self.greeting:
                c.least = -1
            self.rec.tags.add('leave')
        self.server.disconnected(c)
        self.rec.expect(c not in self.server.clients, 'C20', '%r was not forgotten', c)
        self.log.point(self.log.running, len(self.server.clients))

    def step(self, op, inside):
        k = op[0]
        if k == 'connect':
            if len(self.greeting) > 2 or len(self.rec.clients) > 12:
                return
            c = Client(len(self.rec.clients))
            c.fault, c.nest, c.vanish = op[1], op[2], op[3]
            c.gone = False
            c.addr = [None, ('host', c.number), '/path'][c.number % 3]
            c.name = 'host:%d' % c.number if c.number % 3 == 1 else None
            self.rec.clients.append(c)
            n = self.inner.count
            c.first = max(1, n)
            c.state = 'connected'
            self.greeting.append(c)
            nested_state = self.broadcasting
            try:
                self.server.connected(c)
            finally:
                if c in self.greeting:
                    self.greeting.remove(c)
        elif k == 'leave':
            known = [c for c in self.rec.clients if c is not inside or op[2]]
            if known:
                self.leave(known[op[1] % len(known)])
        elif k == 'tick' and inside is None:
            self.tick()

    def run(self):
        rec = self.rec
        try:
            while self.ops:
                op = self.ops.pop()
                if op[0] == 'tick' and self.nested:
                    self.idle_point()
                    continue
                self.step(op, None)
            # everyone leaves
        except Stop:
            pass
        self.account()
        for c in rec.clients:
            if c.state == 'failed':
                rec.expect(c not in self.server.clients, 'C20', '%r failed but was not forgotten', c)
            if c.state in ('failed', 'left'):
                rec.expect(c.closed == 1, 'C20', '%r has gone but was closed %d times', c, c.closed)
            else:
                rec.expect(c in self.server.clients and not c.closed, 'C20', '%r was disconnected for no reason', c)
            check_stream(rec, c, self.inner)
        self.log.judge(lambda c: c.state in ('failed', 'left'))
        rec.expect(not self.inner.refused, 'C20', 'the running profiler was started again')
        rec.expect(not self.inner.early, 'C20', 'a result was taken while the profiler ran')
        # the last ones leave
        if not self.nested:
            for c in list(rec.clients):
                if c.state == 'connected':
                    self.leave(c)
            for _ in range(3):
                self.tick()
            rec.expect(self.loop is None and not self.inner.is_running(), 'C20',
                       'profiling goes on although all clients have left')
            self.log.point(False, 0)
        if self.inner.starts > 1:
            rec.tags.add('started-again')
        rec.ticks = self.inner.count
        return rec


def run_base(plan):
    return BaseDriver(plan).run()


# ---------------------------------------------------------- select server

class Halt(BaseException):
    """Leaves the server's endless loop."""


class SelectServer(SelectProfilingServer):

    def __init__(self, driver, *args, **kw):
        self.driver = driver
        super(SelectServer, self).__init__(*args, **kw)

    def connected(self, sock):
        self.driver.accepted(sock)
        super(SelectServer, self).connected(sock)


class NetClient(Client):

    def __init__(self, number, driver):
        Client.__init__(self, number)
        self.sock = socket.socket(driver.family)
        self.sock.settimeout(5)
        self.bad = False
        self.open = True
        if driver.small:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
        self.sock.connect(driver.addr)
        self.name = '%s:%d' % self.sock.getsockname() if driver.family == socket.AF_INET else None
        self.sock.setblocking(False)
        self.state = 'pending'
        self.first = 1
        self.least = None

    def read(self, limit=None):
        """What has arrived; True at the end of the stream."""
        n = 0
        while limit is None or n < limit:
            try:
                data = self.sock.recv(1 << 16 if limit is None else min(limit - n, 1 << 16))
            except (BlockingIOError, InterruptedError):
                return False
            except OSError:
                return True
            if not data:
                return True
            self.data += data
            n += len(data)
        return False

    def drain(self, timeout=10):
        """Everything until the end of the stream."""
        self.sock.settimeout(timeout)
        while True:
            try:
                data = self.sock.recv(1 << 16)
            except socket.timeout:
                return False
            except OSError:
                return True
            if not data:
                return True
            self.data += data

    def leave(self, how):
        self.bad = True
        self.least = -1
        if how == 'byte':
            try:
                self.sock.send(b'x')
            except OSError:
                pass
            return
        if how == 'shut':
            try:
                self.sock.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            return
        self.read(1 << 20)
        if how == 'reset':
            try:
                self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            except OSError:
                pass
        self.open = False
        self.sock.close()


def make_listener(driver, plan):
    if plan['family'] == 'unix':
        driver.family = socket.AF_UNIX
        driver.path = os.path.join(tempfile.mkdtemp(prefix='s', dir=os.environ.get('VERIF_SCRATCH') or '/tmp'), 's')
        addr = driver.path
    else:
        driver.family = socket.AF_INET
        driver.path = None
        addr = ('127.0.0.1', 0)
    driver.small = bool(plan.get('small'))
    listener = socket.socket(driver.family)
    listener.bind(addr)
    listener.listen(16)
    driver.addr = listener.getsockname()
    return listener


class SelectDriver(object):

    def __init__(self, plan):
        self.plan = plan
        self.rec = Record()
        self.p, self.inner = make_profiler(plan)
        self.listener = make_listener(self, plan)
        self.log = Log(self.rec, 1000.0)
        kw = {'interval': 1000.0, 'log': self.log}
        if plan['protocol'] is not None:
            kw['pickle_protocol'] = plan['protocol']
        self.server = SelectServer(self, self.listener, self.p, **kw)
        self.ops = list(reversed(plan['ops']))
        self.stalls = list(plan['stalls']) or ['drain']
        self.stalled = 0
        self.by_sock = {}
        self.pending = []
        self.final = 0
        self.ticked = None
        self.errors = 0

    def accepted(self, sock):
        c = self.pending.pop(0)
        c.state = 'connected'
        c.first = max(1, self.inner.count)
        c.server_sock = sock
        if self.small:
            sock.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4096)
        self.by_sock[sock] = c

    def select(self, r, w, x, timeout):
        w = list(w)
        if w:
            return self.stall(r, w, x)
        r = list(r)
        self.point(r, timeout)
        wait = 0
        while True:
            if not self.ops:
                self.final += 1
                going = [c for c in self.rec.clients if c.bad and c.state == 'connected' and
                         c.server_sock.fileno() >= 0]
                if self.final > (30 if going else 4):
                    raise Halt()
                if self.pending or going:
                    wait = 2
                    break
                if timeout is None:
                    raise Halt()
                return self.tick(r)
            op = self.ops.pop()
            if op[0] == 'tick':
                if timeout is None:
                    continue
                return self.tick(r)
            if op[0] == 'eintr':
                self.rec.tags.add('eintr')
                raise _select.error(errnos.EINTR, 'injected')
            more = self.step(op)
            if more:
                wait = 2
                break
        ready = REAL_SELECT(r, [], [], wait)[0]
        k = self.plan['order'] % max(1, len(ready))
        return ready[k:] + ready[:k], [], []

    def tick(self, r):
        """The interval passes: readable sockets do not let it."""
        ready = REAL_SELECT(r, [], [], 0)[0]
        if not ready:
            self.ticked = self.inner.count
        return ready, [], []

    def point(self, r, timeout):
        rec = self.rec
        rec.results = self.inner.count
        connected = [c for c in rec.clients if c.state == 'connected' and c.server_sock.fileno() >= 0]
        for c in connected:
            rec.expect(c.bad or c.server_sock in r, 'C20', '%r is not watched', c)
        for s in r:
            if s.fileno() < 0:
                self.errors += 1
                rec.expect(self.errors < 3, 'C20', 'the server keeps waiting for a closed socket')
                if self.errors > 5:
                    raise Halt()
        rec.expect(self.listener in r, 'C20', 'the server does not listen any more')
        self.log.point(timeout is not None, len(self.server.clients))
        if timeout is None:
            rec.expect(not self.inner.is_running(), 'C20', 'the profiler runs although the server is idle')
            rec.expect(not connected, 'C20', 'the server is idle although %s are connected', connected)
        else:
            rec.expect(self.inner.is_running() or self.inner.barred, 'C20', 'the profiler does not run between two results')
            rec.expect(900 < timeout <= 1000, 'C20', 'the interval is 1000 seconds, the server waits for %r', timeout)
        if self.ticked is not None:
            rec.expect(self.inner.count == self.ticked + 1, 'C20', '%d results in an interval',
                       self.inner.count - self.ticked)
            self.ticked = None

    def stall(self, r, w, x):
        """The server waits until a client receives."""
        self.rec.tags.add('stalled')
        how = self.stalls[self.stalled % len(self.stalls)]
        self.stalled += 1
        c = self.by_sock.get(w[0])
        if c is None or not c.open:
            return REAL_SELECT(r, w, x, 1)
        if how == 'eintr' and self.stalled % 3:
            raise _select.error(errnos.EINTR, 'injected')
        if how == 'timeout':
            c.bad = True
            c.least = -1
            self.rec.tags.add('timed-out')
            return [], [], []
        if how == 'close':
            c.leave('close')
            return REAL_SELECT(r, w, x, 1)
        for i in range(1000):
            c.read(3000 if how == 'drain-little' else None)
            res = REAL_SELECT([], w, [], 0 if i < 900 else 0.01)
            if res[1]:
                return res
        return [], [], []

    def step(self, op):
        """Whether a socket of the server becomes readable."""
        k = op[0]
        clients = self.rec.clients
        if k == 'connect':
            if len(clients) < 12:
                c = NetClient(len(clients), self)
                clients.append(c)
                self.pending.append(c)
                return True
        elif k == 'several':
            return any([self.step(o) for o in op[1]])
        elif k == 'leave':
            known = [c for c in clients if c.open and c.state != 'pending' or op[3] and c.open]
            if known:
                c = known[op[1] % len(known)]
                watched = c.server_sock.fileno() >= 0 if c.state == 'connected' else True
                if c.bad and op[2] == 'byte':
                    return False
                c.leave(op[2])
                self.rec.tags.add(op[2])
                return watched
        elif k == 'read':
            known = [c for c in clients if c.open]
            if known:
                known[op[1] % len(known)].read(op[2])
        return False

    def run(self):
        rec = self.rec
        fake_select.virtual = self.select
        try:
            try:
                self.server.serve_forever()
            except Halt:
                pass
            fake_select.virtual = None
            self.log.judge(lambda c: c.server_sock.fileno() < 0)
            for c in rec.clients:
                if c.state == 'pending':
                    continue
                gone = c.server_sock.fileno() < 0
                if c.bad:
                    rec.expect(c.server_sock not in self.server.clients, 'C20', '%r has gone but is not forgotten', c)
                    rec.expect(gone, 'C20', '%r has gone but its connection is open', c)
                elif not c.bad:
                    rec.expect(c.server_sock in self.server.clients and not gone, 'C20',
                               '%r was disconnected for no reason', c)
                if gone:
                    rec.expect(c.server_sock not in self.server.clients, 'C20', '%r is closed but not forgotten', c)
                c.server_sock.close()
            for c in rec.clients:
                if c.open:
                    if c.state != 'pending':
                        rec.expect(c.drain(), 'C20', '%r never sees the end of its connection', c)
                    c.sock.close()
                if c.state != 'pending':
                    if c.bad:
                        c.state = 'left'
                    check_stream(rec, c, self.inner)
            rec.expect(not self.inner.refused, 'C20', 'the running profiler was started again')
            rec.expect(not self.inner.early, 'C20', 'a result was taken while the profiler ran')
        finally:
            fake_select.virtual = None
            self.listener.close()
            for c in rec.clients:
                c.sock.close()
            if self.path:
                os.unlink(self.path)
                os.rmdir(os.path.dirname(self.path))
        return rec


def run_select(plan):
    return SelectDriver(plan).run()


def kept(server, key):
    """The attribute of the server which still holds a client that has gone."""
    for name, value in sorted(vars(server).items()):
        if isinstance(value, dict):
            value = list(value.keys()) + list(value.values())
        if isinstance(value, (list, tuple, set, frozenset, collections.deque)):
            if any(x is key for x in list(value)):
                return name


# ------------------------------------------- servers with their own loops

class LiveDriver(object):
    """Drives a server whose loop really runs.  script() yields what has to
    come true; the interval is short, so results keep coming."""

    LIMIT = 40

    def __init__(self, plan):
        self.plan = plan
        self.rec = Record()
        self.p, self.inner = make_profiler(plan)
        self.pending = []
        self.interval = plan.get('interval', 0.002)
        self.log = Log(self.rec, self.interval)
        self.kw = {'interval': self.interval, 'log': self.log}
        if plan['protocol'] is not None:
            self.kw['pickle_protocol'] = plan['protocol']

    def accepted(self, key, sock):
        c = self.pending.pop(0)
        c.state = 'connected'
        c.first = max(1, self.inner.count)
        c.key = key
        if self.small:
            sock.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4096)

    def good(self):
        return [c for c in self.rec.clients if not c.bad]

    def read_all(self):
        for c in self.rec.clients:
            if c.open and not c.stalls:
                c.read()

    def script(self):
        rec, inner = self.rec, self.inner
        for op in self.plan['ops']:
            for x in self.step(op):
                yield x
        yield self.connected_all, 'C20', 'a client is never greeted'
        self.release()
        n = inner.count
        if self.good():
            yield (lambda: inner.count > n + 1), 'C20', 'no more results although clients are connected'
        n = inner.count
        for c in rec.clients:
            if c.open and (c.stalls or not c.bad):
                c.stalls = False
                limit = n - c.first + 3
                yield (lambda: self.caught_up(c, limit)), 'C19', '%r does not receive the results up to %d' % (c, n)
        for c in rec.clients:
            if not c.bad:
                c.least = n
            if c.open:
                try:
                    c.sock.shutdown(socket.SHUT_WR)
                except OSError:
                    pass
        yield (lambda: not inner.is_running() and not self.server.clients), 'C20', 'profiling goes on without clients'
        yield (lambda: not self.log.running), 'C32', 'the log does not say that profiling stopped'
        for c in rec.clients:
            if c.open:
                yield c.read, 'C20', '%r never sees the end of its connection' % c
                c.open = False
                c.sock.close()
            rec.expect(self.closed(c), 'C20', '%r has gone but its connection is open', c)
        # a last client after a quiet time
        n = inner.count
        for _ in range(3):
            yield None, None, None
        rec.expect(inner.count == n and not inner.is_running(), 'C20', 'results are produced without clients')
        self.server.send_timeout = 30
        for x in self.step(['connect'], True):
            yield x
        c = rec.clients[-1]
        yield (lambda: self.caught_up(c, 7)), 'C20', '%r gets no results after a quiet time' % c
        times = inner.times[-4:]
        gaps = [t2 - t1 for t1, t2 in zip(times, times[1:])]
        # the machine may be slow, but hardly each time
        rec.expect(min(gaps) < self.interval + 0.5, 'C20', 'the interval is %r, but the results came after %r',
                   self.interval, gaps)
        rec.expect(min(gaps) > self.interval / 2, 'C20', 'the interval is %r, but the results came after %r',
                   self.interval, gaps)
        c.least = c.first + 2
        c.open = False
        c.sock.close()
        yield (lambda: not inner.is_running() and not self.server.clients), 'C20', 'profiling goes on without clients'
        yield (lambda: not self.log.running), 'C32', 'the log does not say that profiling stopped'
        self.log.judge(lambda c: True)
        rec.results = inner.count
        for c in rec.clients:
            # results which are being sent at the moment end in an error
            yield (lambda: kept(self.server, c.key) is None), 'C20', '%r has gone but the server keeps it' % c
            if c.bad:
                c.state = 'left'
            check_stream(rec, c, inner)
        rec.expect(not inner.refused, 'C20', 'the running profiler was started again')
        rec.expect(not inner.early, 'C20', 'a result was taken while the profiler ran')

    def caught_up(self, c, limit):
        size = len(c.data)
        end = c.read()
        if end and c.bad:
            return True
        if len(c.data) == size and c.parsed[0] == size:
            return c.parsed[1] >= limit
        c.parsed = (len(c.data), len(parse(c.data)))
        return c.parsed[1] >= limit

    def release(self):
        """Clients which did not read go on or leave; or the server has to
        lose its patience."""
        if self.plan['impatient']:
            return
        for c in self.rec.clients:
            if c.open and c.stalls:
                c.stalls = False
                self.rec.tags.add('released')
                if c.later:
                    c.leave(c.later)

    def connected_all(self):
        return all(c.state == 'connected' for c in self.rec.clients)

    def step(self, op, last=False):
        rec, inner = self.rec, self.inner
        k = op[0]
        if k == 'connect':
            if len(rec.clients) < 10 or last:
                c = NetClient(len(rec.clients), self)
                c.stalls = False
                c.parsed = (0, 0)
                if self.plan['impatient']:
                    # anyone may be disconnected if the machine is slow.
                    c.least = -1
                    c.bad = not last
                rec.clients.append(c)
                self.pending.append(c)
                if len(op) < 2:
                    yield (lambda: c.state == 'connected'), 'C20', '%r is never greeted' % c
        elif k == 'several':
            for o in op[1]:
                for x in self.step(o + [1] if o[0] == 'connect' else o):
                    yield x
        elif k == 'leave':
            known = [c for c in rec.clients if c.open and (op[3] or c.state != 'pending')]
            if known:
                c = known[op[1] % len(known)]
                if c.bad and op[2] == 'byte' and not self.plan['impatient']:
                    return
                c.leave(op[2])
                rec.tags.add(op[2])
        elif k == 'stall':
            known = [c for c in rec.clients if c.open and not c.bad]
            if known:
                c = known[op[1] % len(known)]
                c.stalls = True
                c.later = op[2]
                rec.tags.add('stalled')
        elif k == 'tick':
            if [c for c in self.good() if c.state == 'connected']:
                n = inner.count
                tries = [0]

                def ticked():
                    tries[0] += 1
                    if tries[0] == 100:
                        self.release()
                    # the last one may just have been told to leave
                    return inner.count > n or not [c for c in self.good() if c.state == 'connected']
                yield ticked, 'C20', 'no result although clients are connected'
            elif not [c for c in rec.clients if c.open or c.state == 'pending']:
                yield (lambda: not inner.is_running() and not self.server.clients), 'C20', \
                    'profiling goes on without clients'
                rec.tags.add('idle')
        elif k == 'pass':
            yield None, None, None

    def conditions(self):
        """Yields False to go on, True to wait a little."""
        for cond, prop, text in self.script():
            self.read_all()
            if cond is None:
                yield True
                continue
            end = time.time() + self.LIMIT
            while not cond():
                if time.time() > end:
                    self.rec.problem(prop, text)
                    return
                yield True
                self.read_all()

    def cleanup(self):
        for c in self.rec.clients:
            c.sock.close()
        if self.path:
            try:
                os.unlink(self.path)
            except OSError:
                pass
            os.rmdir(os.path.dirname(self.path))


def run_gevent(plan):
    import gevent
    from gevent import socket as gsocket
    from profiling.remote.gevent import GeventProfilingServer

    d = LiveDriver(plan)
    plain = make_listener(d, plan)
    listener = gsocket.socket(plain.family, plain.type, 0, fileno=os.dup(plain.fileno()))
    plain.close()

    class Server(GeventProfilingServer):

        def connected(self, sock):
            d.accepted(sock, sock)
            super(Server, self).connected(sock)

    d.server = Server(listener, d.p, **d.kw)
    d.server.send_timeout = 0.1 if plan['impatient'] else 30
    d.closed = lambda c: c.key.closed
    d.server.start()
    try:
        for _ in d.conditions():
            gevent.sleep(0.0005)
    finally:
        d.server.stop()
        d.cleanup()
        listener.close()
    return d.rec


def run_asyncio(plan):
    import asyncio
    from profiling.remote.asyncio import AsyncIOProfilingServer
    d = LiveDriver(plan)
    listener = make_listener(d, plan)

    class Server(AsyncIOProfilingServer):

        def connected(self, client):
            d.accepted(client, client[1].get_extra_info('socket'))
            super(Server, self).connected(client)

    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    loop.set_exception_handler(lambda loop, context: None)
    d.server = Server(d.p, **d.kw)
    d.closed = lambda c: c.key[1].is_closing()

    async def main():
        start = asyncio.start_server if d.family == socket.AF_INET else asyncio.start_unix_server
        serving = await start(d.server, sock=listener)
        try:
            for _ in d.conditions():
                await asyncio.sleep(0.0005)
        finally:
            serving.close()
            await serving.wait_closed()
    try:
        loop.run_until_complete(main())
        for task in asyncio.all_tasks(loop):
            task.cancel()
        loop.run_until_complete(asyncio.sleep(0))
    finally:
        loop.close()
        asyncio.set_event_loop(None)
        d.cleanup()
    return d.rec
