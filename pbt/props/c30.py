from hypothesis import strategies as st

from pbt.gens import mix, op

QUICK = (12000, 8)
THOROUGH = (400000, 8)
TECHNIQUE = 'model-based testing of deferral blocks with generated faults against a stack machine'
NOTE = 'Which of several exceptions comes out is left open; with exactly one it is that one.'
RULE = ('A case is a tree of deferral blocks left in five ways, deferred calls which defer, open blocks and raise; '
        'non-trivial: at least two deferred calls run.')
KINDS = ['boom', 'boom', 'hard', 'key', 'exit', 'stop', 'zero']


def plan(tier):
    how = st.sampled_from(['with', 'loop', 'return', 'close', 'gen'])
    args = st.lists(mix([st.integers(0, 9)] * 3 + [st.just([]), st.just([1])]), max_size=3)
    times = mix([st.just(1)] * 5 + [st.integers(2, 3)])
    kwargs = st.dictionaries(st.sampled_from(['x', 'y', 'self_', 'args', 'kwargs']), st.integers(0, 9), max_size=2)

    fail = op('x', st.sampled_from(KINDS))
    bodies = st.lists(mix([op('d', args, kwargs, st.just([]), times)] * 3 + [op('d', args, kwargs, st.lists(fail, min_size=1, max_size=1), times)]),
                      max_size=3)
    for _ in range(3 if tier == 'thorough' else 2):
        bodies = st.lists(mix([op('d', args, kwargs, st.just([]), times)] * 2 + [op('d', args, kwargs, bodies, times)] * 3 +
                              [op('b', bodies, how), op('t', bodies, how), fail]),
                          max_size=6 if tier == 'thorough' else 4)
    return st.fixed_dictionaries({'ops': bodies, 'how': how})
