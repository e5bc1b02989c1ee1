from hypothesis import strategies as st
from pbt import gens
from pbt.props import c28

QUICK = (4000, 8)
THOROUGH = (120000, 8)
RULE = ('A case is a generated program run under the tracing profiler with a virtual timer whose '
        'readings and whose walking of stacks and recording may cost time; non-trivial: at least two call paths '
        'with a positive inclusive time.')


def plan(tier):
    quiet = st.fixed_dictionaries({
        'ops': gens.programs(tier, startstop=True),
        'auto': st.booleans(), 'root': st.integers(0, 3), 'costs': st.just([0])})
    costly = st.fixed_dictionaries({
        'ops': gens.programs(tier),
        'auto': st.just(True), 'root': st.integers(0, 3),
        'costs': st.lists(st.integers(0, 9), min_size=1, max_size=5),
        'work': st.lists(st.integers(0, 9), min_size=1, max_size=3)})
    threads = st.fixed_dictionaries({
        'threads': c28.programs(tier, True),
        'schedule': st.lists(st.integers(0, 11), min_size=1, max_size=30),
        'share': st.sampled_from([0, 1, 1, 2]),
        'auto': st.sampled_from([True, True, True, False])})
    return gens.timed(gens.mix([quiet, quiet, costly, costly, threads]))


TECHNIQUE = 'property-based testing with a virtual timer against a reference timing model'
NOTE = 'Times are multiples of a power of two, down to a nanosecond, so the comparison is exact; trusts the timing model in exe/prog.py. Timer readings without program work in between are charged to the profiler.'
