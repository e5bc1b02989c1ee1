import errno
from hypothesis import strategies as st
from pbt import gens

QUICK = (3200, 8)
THOROUGH = (80000, 8)
TECHNIQUE = 'model-based testing of servers under generated histories of clients with injected failures; the received bytes are judged against the history'
NOTE = 'The base server runs on a transport of the harness; the others on real sockets.'
RULE = ('A case is a history of clients connecting, leaving, failing and results being produced; non-trivial: at least '
        'two clients and two results.')
ERRNOS = [errno.EPIPE, errno.ECONNRESET, errno.EBADF, errno.ETIMEDOUT, errno.EAGAIN, errno.ENOTCONN, errno.EHOSTUNREACH]


#: which starts of the profiler are refused
REFUSES = gens.mix([st.just([])] * 4 + [st.lists(st.integers(1, 6), min_size=1, max_size=4)])


def base(tier):
    fault = gens.mix([st.none()] * 3 + [st.tuples(st.integers(0, 5), st.sampled_from(ERRNOS), st.integers(0, 500)).map(list)])
    leave = gens.op('leave', st.integers(0, 7), st.booleans())
    plain = st.tuples(st.just('connect'), fault, st.none(), st.just(False)).map(list)
    nest = gens.mix([st.none()] * 3 + [st.tuples(st.integers(0, 5), st.lists(
        gens.mix([leave, plain]), min_size=1, max_size=3)).map(list)])
    vanish = gens.mix([st.just(False)] * 9 + [st.just(True)])
    connect = st.tuples(st.just('connect'), fault, nest, vanish).map(list)
    return st.fixed_dictionaries({
        'server': st.just('base'), 'loop': st.sampled_from(['deferred', 'eager', 'nested']),
        'wraps': gens.pick(3), 'pad': st.lists(st.integers(0, 50), min_size=1, max_size=3),
        'refuses': REFUSES, 'interval': st.sampled_from([1, 0.25, 1.5, 60]),
        'protocol': gens.mix([st.none(), st.integers(0, 5)]),
        'ops': st.lists(gens.mix([connect] * 4 + [leave] * 2 + [st.just(['tick'])] * 5), min_size=5,
                        max_size=24 if tier == 'quick' else 50)})


def net_ops(tier, tick, extra=()):
    leave = gens.op('leave', st.integers(0, 7), st.sampled_from(['close', 'reset', 'shut', 'byte']), st.booleans())
    connect = st.just(['connect'])
    one = gens.mix([connect, leave])
    several = gens.op('several', st.lists(one, min_size=2, max_size=4))
    read = gens.op('read', st.integers(0, 7), st.sampled_from([1, 100, 5000, 1 << 20]))
    return st.tuples(st.just(['connect']), st.lists(gens.mix(
        [connect] * 4 + [leave] * 3 + [several] * 2 + [st.just(['tick'])] * tick + [read] + list(extra)), min_size=3,
        max_size=16 if tier == 'quick' else 40)).map(lambda t: [t[0]] + t[1])


def pads():
    return st.lists(gens.mix([st.integers(0, 50), st.integers(0, 3000), st.integers(3000, 40000)]),
                    min_size=1, max_size=3)


def net(tier, server, **more):
    return st.fixed_dictionaries(dict({
        'server': st.just(server), 'family': st.sampled_from(['inet', 'unix', 'unix']),
        'small': st.sampled_from([True, True, False]), 'wraps': gens.pick(3), 'pad': pads(),
        'protocol': gens.mix([st.none(), st.integers(0, 5)])}, **more))


def select(tier):
    stall = st.sampled_from(['drain', 'drain', 'drain-little', 'timeout', 'close', 'eintr'])
    return net(tier, 'select', refuses=REFUSES, stalls=gens.mix([st.just([]), st.lists(stall, max_size=5)]), order=st.integers(0, 3),
               ops=net_ops(tier, 6, [st.just(['eintr'])]))


gone = gens.op('several', st.just([['leave', i, 'close', True] for i in range(8)]))


def live(tier, server):
    stall = gens.op('stall', st.integers(0, 7), st.sampled_from([None, 'close', 'reset', 'shut']))
    return net(tier, server, interval=st.sampled_from([0.002, 0.002, 0.002, 0.02]), impatient=gens.mix([st.just(False)] * 12 + [st.just(True)]),
               ops=net_ops(tier, 6, [st.just(['pass']), stall, gone]))


def plan(tier):
    return gens.mix([base(tier)] * 6 + [select(tier)] * 6 + [live(tier, 'gevent'), live(tier, 'asyncio')] * 2)
