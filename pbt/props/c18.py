from hypothesis import strategies as st
from pbt import gens

QUICK = (2400, 8)
THOROUGH = (60000, 8)
TECHNIQUE = 'property-based round-trip testing of message streams over real sockets with generated segmentation, interruption and truncation'
NOTE = 'Real Unix and TCP socket pairs; a feeding thread sends the next piece when the previous one was taken. What arrives after a TCP reset is not required.'
RULE = ('A case is a sequence of messages, a segmentation and an end of the stream; non-trivial: at least one message '
        'was received and some piece was smaller than the largest message.')


def values(tier):
    leaf = gens.mix([
        st.just(['none']), gens.op('int', st.integers(-2 ** 70, 2 ** 70)),
        gens.op('float', st.floats(allow_nan=False, width=64).map(repr)), gens.op('str', st.text(max_size=12)),
        gens.op('bool', st.booleans()), gens.op('class', st.integers(0, 1)),
        gens.op('bytes', st.integers(0, 300), st.integers(0, 255), st.integers(0, 255))])
    tree = gens.trees('quick', depth=3, width=3)
    tree = gens.mix([tree, tree, gens.trees('quick', depth=3, width=3, secs=st.floats(0, 1e12, allow_nan=False))])
    result = st.tuples(gens.op(gens.mix([st.just('stats'), st.just('recording')]), tree),
                       gens.op('float', st.floats(0, 1e6).map(repr)), gens.op('float', st.floats(0, 1e6).map(repr))
                       ).map(lambda t: ['tuple', list(t)])
    big = gens.op('bytes', gens.mix([st.integers(60000, 70000), st.integers(200000, 300000)]), st.integers(1, 255),
                  st.integers(0, 255))
    huge = gens.op('bytes', st.integers((1 << 24) - 40, (1 << 24) + 400), st.integers(1, 255), st.integers(0, 255))
    huge = gens.mix([big] * 4 + [huge])
    wide = gens.op('stats', st.fixed_dictionaries({'wide': st.integers(200, 1200), 'm': gens.members()}))
    comp = gens.mix([
        st.lists(leaf, max_size=4).map(lambda x: ['tuple', x]), st.lists(leaf, max_size=4).map(lambda x: ['list', x]),
        st.lists(st.tuples(st.text(max_size=4), leaf).map(list), max_size=3, unique_by=lambda x: x[0]).map(
            lambda x: ['dict', x])])
    return gens.mix([leaf] * 8 + [comp] * 6 + [result] * 8 + [huge, wide])


def plan(tier):
    msg = st.tuples(gens.mix([st.sampled_from([0x10, 0x11, 0x12]), st.integers(0, 255)]), values(tier)).map(list)
    cuts = gens.mix([st.just([]), st.just([1]), st.lists(st.integers(1, 12), min_size=1, max_size=8),
                     st.lists(st.integers(1, 400), min_size=1, max_size=8),
                     st.lists(st.sampled_from([1, 4, 5, 6, 1000, 30000]), min_size=1, max_size=8)])
    return st.fixed_dictionaries({
        'mode': st.sampled_from(['blocking', 'nonblocking', 'nonblocking', 'interrupted']),
        'family': st.sampled_from(['unix', 'inet']),
        'ending': st.sampled_from(['close', 'shutdown', 'reset']),
        'protocols': st.lists(gens.mix([st.just(None), st.integers(0, 5)]), min_size=1, max_size=4),
        'truncate': gens.mix([st.just(None), st.integers(0, 1 << 20), st.integers(0, 20)]), 'far': st.booleans(),
        'cuts': cuts,
        'msgs': st.lists(msg, min_size=1, max_size=6)})
