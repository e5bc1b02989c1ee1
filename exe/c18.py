# -*- coding: utf-8 -*-
import array
import fcntl
import os
import signal
import socket
import struct
import termios
import threading
import time

from base import expect, expect_eq, short
import trees

from profiling.remote import pack_msg, recv_msg
from profiling.sampling import SamplingProfiler
from profiling.stats import Statistics
from profiling.tracing import TracingProfiler

ISOLATE = False
CLASSES = [TracingProfiler, SamplingProfiler]


def value(v):
    """Builds a value from its description."""
    k = v[0]
    if k in ('int', 'str', 'bool'):
        return v[1]
    if k == 'float':
        return float(v[1])
    if k == 'none':
        return None
    if k == 'bytes':
        return bytes(bytearray((i * v[2] + v[3]) & 255 for i in range(v[1])))
    if k == 'tuple':
        return tuple(value(x) for x in v[1])
    if k == 'list':
        return [value(x) for x in v[1]]
    if k == 'dict':
        return dict((x[0], value(x[1])) for x in v[1])
    if k == 'class':
        return CLASSES[v[1]]
    if k == 'stats':
        return trees.frozen(trees.expand(v[1]))
    if k == 'recording':
        return trees.recording(trees.expand(v[1]))[0]
    raise NotImplementedError(k)


def same(a, b):
    if isinstance(b, Statistics):
        return isinstance(a, Statistics) and trees.shape(a) == trees.shape(b)
    if isinstance(b, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return type(a) is type(b) and sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in b)
    return type(a) is type(b) and a == b


def pair(family):
    if family == 'unix':
        return socket.socketpair()
    listener = socket.socket(socket.AF_INET)
    listener.bind(('127.0.0.1', 0))
    listener.listen(1)
    a = socket.create_connection(listener.getsockname())
    b, _ = listener.accept()
    listener.close()
    return a, b


def unread(sock):
    buf = array.array('i', [0])
    fcntl.ioctl(sock.fileno(), termios.FIONREAD, buf)
    return buf[0]


class Feeder(threading.Thread):

    def __init__(self, sender, receiver, data, cuts, ending, interrupt, main):
        threading.Thread.__init__(self)
        self.daemon = True
        self.sender, self.receiver, self.data, self.cuts = sender, receiver, data, cuts
        self.ending, self.interrupt, self.main = ending, interrupt, main

    def run(self):
        try:
            self.feed()
        except (OSError, ValueError):
            pass        # the receiver is gone
        try:
            if self.ending == 'reset':
                self.sender.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            elif self.ending == 'shutdown':
                self.sender.shutdown(socket.SHUT_WR)
                return
            self.sender.close()
        except OSError:
            pass

    def feed(self):
        at = i = 0
        data = self.data
        while at < len(data):
            n = self.cuts[i % len(self.cuts)] if self.cuts else len(data)
            i += 1
            if i > 60:
                n = max(n, 8192)
            chunk = data[at:at + max(1, n)]
            self.sender.sendall(chunk)
            at += len(chunk)
            # the next piece comes when this one has been taken
            end = time.monotonic() + 0.02
            while unread(self.receiver) and time.monotonic() < end:
                time.sleep(0)
            if self.interrupt and i <= 60:
                signal.pthread_kill(self.main, signal.SIGUSR1)


def run(plan, out):
    msgs = [(m, value(v)) for m, v in plan['msgs']]
    packed = []
    for (method, msg), proto in zip(msgs, plan['protocols'] * len(msgs)):
        kw = {} if proto is None else {'pickle_protocol': proto}
        data = pack_msg(method, msg, **kw)
        expect(isinstance(data, bytes), 'a packed message is %r', type(data))
        packed.append(data)
    stream = b''.join(packed)
    cut = plan['truncate']
    if cut is not None:
        keep = cut % (len(stream) + 1) if plan['far'] else max(0, len(stream) - cut % (len(packed[-1]) + 1))
    else:
        keep = len(stream)
    whole, end = 0, 0
    for data in packed:
        end += len(data)
        if end <= keep:
            whole += 1
    sender, receiver = pair(plan['family'])
    mode = plan['mode']
    interrupt = mode == 'interrupted'
    old = signal.signal(signal.SIGUSR1, lambda s, f: None)
    if mode == 'nonblocking':
        receiver.setblocking(False)
    ending = plan['ending'] if plan['family'] == 'inet' else plan['ending'].replace('reset', 'close')
    feeder = Feeder(sender, receiver, stream[:keep], plan['cuts'], ending, interrupt, threading.main_thread().ident)
    got = []
    error = None
    try:
        feeder.start()
        try:
            while len(got) <= len(msgs):
                got.append(recv_msg(receiver))
        except (socket.error, OSError) as exc:
            error = exc
        receiver.close()
        feeder.join()
    finally:
        signal.signal(signal.SIGUSR1, old)
        for s in (sender, receiver):
            s.close()
    what = 'message %d of %d (%d of %d bytes sent)'
    for i, (m, v) in enumerate(got):
        expect(i < whole, what + ' was received but not sent: %s', i, len(msgs), keep, len(stream), short(v))
        expect_eq(m, msgs[i][0], 'method of ' + what % (i, len(msgs), keep, len(stream)))
        expect(same(v, msgs[i][1]), what + ': got %s, sent %s', i, len(msgs), keep, len(stream), short(v),
               short(msgs[i][1]))
    expect(error is not None, 'the end of the stream was not reported')
    if ending != 'reset':
        # after a reset the system may discard what was not read yet
        expect_eq(len(got), whole, 'messages received before the end of the stream (%r)' % error)
    out.tag(mode, plan['family'], ending)
    if keep < len(stream):
        out.tag('truncated')
        if keep not in [sum(map(len, packed[:i])) for i in range(len(packed) + 1)]:
            out.tag('cut-inside-a-message')
    if max(map(len, packed)) >= 1 << 24:
        out.tag('over-16M')
    if max(map(len, packed)) > 1 << 16:
        out.tag('over-64K')
    pieces = plan['cuts'] and min(plan['cuts']) < max(map(len, packed))
    if pieces:
        out.tag('in-pieces')
    out.nontrivial = bool(pieces and len(got) >= 1)
