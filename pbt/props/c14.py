from hypothesis import strategies as st
from pbt import gens
from pbt.props import c28

QUICK = (2400, 8)
THOROUGH = (60000, 8)
TECHNIQUE = 'property-based testing of generated multi-threaded programs under generated schedules: snapshots at stop against later snapshots, and a reference call-tree model'
NOTE = 'Real threads run one at a time, switched between operations of the generated programs; signals are raised by the program itself.'
RULE = ('A case is a generated program of up to 4 threads which starts and stops a profiler repeatedly; non-trivial: '
        'a thread the profiler had hooked made calls while it was stopped.')


def plan(tier):
    def more(t):
        threads, pos = t
        main = threads[0]
        return [main[:pos] + [['Q'], ['Z'], ['Z']] + main[pos:]] + threads[1:]
    sig = st.lists(st.sampled_from([['s'], ['Z'], ['C', 0, [['s']]], ['S'], ['Q']]), max_size=6)
    return gens.timed(st.fixed_dictionaries({
        'kind': gens.pick(4),
        'threads': st.tuples(st.tuples(c28.programs(tier, True), st.integers(1, 8)).map(more), sig).map(
            lambda t: [t[0][0] + t[1]] + t[0][1:]),
        'share': st.sampled_from([0, 1, 2]),
        'schedule': st.lists(st.integers(0, 11), min_size=1, max_size=30),
        'auto': st.sampled_from([True, True, True, False])}))
