from hypothesis import strategies as st
from pbt import gens

QUICK = (2400, 8)
THOROUGH = (120000, 8)
TECHNIQUE = 'property-based testing of flattening against sums over an independent walk'
NOTE = 'Times are multiples of 1/64 so that sums are exact; names, files, lines and modules come from small sets so that functions coincide in some of them.'
RULE = 'A case is a generated tree; non-trivial: at least 2 functions and one function at several nodes.'


def plan(tier):
    small = gens.trees(tier, names=['f', 'g', None], files=['a', 'b'], modules=['m', None, 'n'], linenos=(1, 2))
    return st.fixed_dictionaries({
        'tree': st.one_of(small, small, gens.trees(tier)),
        'kind': st.sampled_from(['frozen', 'plain-leaves', 'recording'])})
