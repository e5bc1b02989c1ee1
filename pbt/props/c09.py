from hypothesis import strategies as st
from pbt import gens

QUICK = (1000, 8)
THOROUGH = (30000, 8)
TECHNIQUE = 'property-based differential testing: dump and view command against the profiler and its own viewer'
NOTE = 'The view command runs in process with the main loop replaced by one that renders and presses generated keys; both viewers must show the same screens.'
RULE = 'A case is a generated result dumped and viewed; non-trivial: at least 3 statistics.'


def plan(tier):
    return st.fixed_dictionaries({
        'tree': st.one_of(st.none(), gens.real_trees(tier), gens.real_trees(tier)),
        'kind': st.sampled_from(['tracing', 'sampling', 'custom']),
        'wrap': st.one_of(st.just([]), st.lists(st.integers(0, 2), max_size=2)),
        'running': st.booleans(), 'never': st.booleans(), 'later': st.booleans(), 'default': st.booleans(),
        'overwrite': st.booleans(), 'mono': st.booleans(), 'protocol': st.integers(0, 5),
        'cpu': gens.times(), 'wall': gens.times(),
        'name': st.sampled_from(['x.prof', 'result', 'a:b', 'été.dump', 'with space']),
        'mtime': st.integers(0, 2 * 10 ** 9), 'cols': st.sampled_from([80, 120, 200]),
        'keys': st.lists(st.sampled_from(['right', 'left', 'down', 'up', '>', '\\', ']', '[']), max_size=6)})
