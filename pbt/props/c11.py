from hypothesis import strategies as st
from pbt import gens

QUICK = (3000, 8)
THOROUGH = (100000, 8)
TECHNIQUE = 'property-based testing of every sort key against its documented order'
NOTE = 'Where a name, module or per-call value is unknown the position of that child is left open; completeness is not.'
RULE = 'A case is a generated statistics with children of all kinds; non-trivial: at least 3 children.'


def plan(tier):
    hits = gens.mix([st.integers(0, 5)] * 3 + [st.integers(0, 1 << 40)])
    member = gens.members(hits=hits)
    leaf = gens.trees(tier, depth=1, width=3, hits=hits)
    # which differ by little
    near = gens.members(hits=st.integers(0, 3), secs=st.tuples(st.integers(0, 1), st.integers(0, 40), st.integers(-30, -4)).map(
        lambda t: t[0] + t[1] * 2.0 ** t[2]))
    near = st.tuples(near, st.lists(st.tuples(near, st.just([])).map(list), max_size=1)).map(list)
    return st.fixed_dictionaries({
        'tree': st.tuples(member, gens.mix([st.lists(leaf, min_size=1, max_size=9), st.lists(near, min_size=2, max_size=9)])).map(list),
        'kind': st.sampled_from(['frozen', 'plain-leaves', 'recording'])})
