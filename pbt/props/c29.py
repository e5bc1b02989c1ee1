from hypothesis import strategies as st
from pbt import gens
from pbt.props import c22

QUICK = (1200, 8)
THOROUGH = (40000, 8)
TECHNIQUE = ('model-based testing: generated histories of a server (unreachable, messages in pieces, every kind of end) '
             'with injected socket errors; the real viewer is compared with a model after every message')
NOTE = ('The event loop is a stand-in with a virtual clock and real sockets; socket errors other than refusals, resets '
        'and missing files are injected below the client.')
RULE = 'A case is a history of the server of one client; non-trivial: at least one result was shown.'

FAULTS = ['ECONNREFUSED', 'EHOSTUNREACH', 'ENETUNREACH', 'ETIMEDOUT', 'ENOENT', 'EACCES', 'EAGAIN', 'EADDRNOTAVAIL',
          'gaierror', 'EPERM', 'ECONNABORTED', 'ENETDOWN']
ENDS = ['close', 'close', 'shutdown', 'reset', 'ECONNRESET', 'ETIMEDOUT', 'EHOSTUNREACH', 'ECONNREFUSED', 'EPIPE',
        'ECONNABORTED', 'ENETDOWN']


def message(tier):
    return gens.mix([
        st.tuples(st.just('result'), c22.result(c22.unique(tier))).map(list),
        st.tuples(st.just('result'), c22.result(c22.unique(tier))).map(list),
        st.tuples(st.just('class'), st.sampled_from(['tracing', 'sampling', 'plain'])).map(list),
        st.tuples(st.just('unknown'), st.sampled_from([0, 0x13, 0x20, 255])).map(list),
    ])


def session(tier):
    usual = st.tuples(
        st.sampled_from(['tracing', 'sampling', 'plain']), st.lists(message(tier), min_size=1, max_size=4)).map(
            lambda t: [['welcome'], ['class', t[0]]] + t[1])
    messages = gens.mix([usual] * 5 + [st.lists(message(tier), max_size=3)])
    return st.fixed_dictionaries({
        'downs': gens.mix([st.just(0), st.integers(0, 3), st.integers(0, 12)]), 'file': st.booleans(),
        'faults': gens.mix([st.just([]), st.lists(st.sampled_from(FAULTS), max_size=3)]),
        'messages': messages,
        'cut': gens.mix([st.none(), st.none(), st.integers(0, 400)]),
        'pieces': gens.mix([st.just([]), st.lists(gens.mix([st.integers(1, 8), st.integers(1, 600)]), min_size=1, max_size=6)]),
        'slow': st.booleans(), 'keep': st.booleans(), 'end': st.sampled_from(ENDS),
        'keys': st.lists(st.sampled_from(['right', 'down', 'down', ' ', ' ', '>', '\\', 'esc', ']', 'left']), max_size=3),
    })


def plan(tier):
    return st.fixed_dictionaries({
        'client': st.sampled_from(['failover', 'failover', 'failover', 'plain']),
        'command': gens.mix([st.just(False)] * 3 + [st.just(True)]),
        'family': st.sampled_from(['unix', 'tcp']), 'blocking': st.booleans(),
        'title': st.sampled_from([None, 'prog.py', '127.0.0.1:8912']),
        'exact': st.just(True), 'cols': st.integers(70, 160), 'rows': st.integers(30, 90),
        'sessions': st.lists(session(tier), min_size=1, max_size=3 if tier == 'quick' else 6)})
