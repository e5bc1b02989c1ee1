from hypothesis import strategies as st
from pbt import gens

QUICK = (1800, 8)
THOROUGH = (100000, 8)
TECHNIQUE = 'property-based round-trip testing of pickled statistics'
NOTE = 'Trees up to 3000 deep or 3000 wide; a restricted unpickler shows that loading needs profiling classes only.'
RULE = 'A case is a generated tree pickled and loaded; non-trivial: at least 4 statistics.'


def plan(tier):
    big = st.one_of(
        st.fixed_dictionaries({'chain': st.integers(950, 3000), 'm': gens.members()}),
        st.fixed_dictionaries({'wide': st.integers(900, 3000), 'm': gens.members()}))
    floats = st.floats(0, 1e18, allow_nan=False)
    small = gens.trees(tier)
    odd = gens.trees(tier, secs=floats)
    return st.fixed_dictionaries({
        'tree': gens.mix([small] * 40 + [odd] * 15 + [big]),
        'kind': st.sampled_from(['frozen', 'plain-leaves', 'recording', 'recording', 'module']),
        'protocol': st.integers(0, 5), 'again': st.integers(0, 5), 'part': st.integers(0, 30),
        'restricted': st.booleans()})
