from hypothesis import strategies as st
from pbt import gens

QUICK = (4000, 8)
THOROUGH = (120000, 8)
RULE = ('A case is a generated program (nested calls of 4 functions and 2 generator functions, '
        'work, exceptions, starting and stopping anywhere) run under the tracing profiler with a '
        'virtual timer; non-trivial: at least 3 recorded calls and a call depth of 2.')


@gens.written
def plan(tier):
    return st.fixed_dictionaries({
        'ops': gens.programs(tier, startstop=True),
        'auto': st.booleans(),
        'frame': st.booleans(),
        'root': st.integers(0, 3),
        'deep': gens.mix([st.none()] * 60 + [st.tuples(st.sampled_from([40, 150, 400, 650, 800]), st.lists(st.integers(0, 3), min_size=1,
                                                                                      max_size=3)).map(list)]),
    })


TECHNIQUE = 'property-based testing of generated programs against a reference call-tree model'
NOTE = 'Explores generated programs; trusts the reference model of call paths in exe/prog.py and PyPy delivering profile events for each call and return.'
