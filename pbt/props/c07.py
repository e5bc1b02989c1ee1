from hypothesis import strategies as st
from pbt import gens

QUICK = (3000, 8)
THOROUGH = (100000, 8)
TECHNIQUE = 'model-based testing of operation sequences on recording statistics against an ordered map'
NOTE = 'Seven codes, among them pairs that differ in file, line or name only; the whole state is compared after every step.'
RULE = 'A case is a sequence of operations on a tree of recording statistics; non-trivial: at least 4 operations.'


def plan(tier):
    names = ['add', 'ensure', 'ensure', 'ensure', 'remove', 'discard', 'exclude', 'clear', 'hits', 'hits', 'time']
    op = st.tuples(st.sampled_from(names), st.lists(st.integers(0, 3), max_size=3),
                   st.integers(0, 6), st.integers(0, 9)).map(list)
    return gens.timed(st.fixed_dictionaries({'ops': st.lists(op, min_size=1, max_size=40 if tier == 'thorough' else 20)}))
