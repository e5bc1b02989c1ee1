from hypothesis import strategies as st
from pbt import gens

QUICK = (6000, 8)
THOROUGH = (200000, 8)
TECHNIQUE = 'property-based testing of generated statistics trees against directly computed figures'
NOTE = 'Times are multiples of 1/64 so that sums are exact in any order.'
RULE = 'A case is a generated tree of statistics (frozen, plain leaves, recording); non-trivial: 4 nodes and 2 levels.'


def plan(tier):
    big = st.one_of(
        st.fixed_dictionaries({'chain': st.integers(50, 3000), 'm': gens.members()}),
        st.fixed_dictionaries({'wide': st.integers(50, 2000), 'm': gens.members()}))
    small = gens.trees(tier)
    return st.fixed_dictionaries({
        'tree': gens.mix([small] * 19 + [big]),
        'kind': st.sampled_from(['frozen', 'plain-leaves', 'recording']),
        'gates': st.lists(st.booleans(), max_size=8)})
