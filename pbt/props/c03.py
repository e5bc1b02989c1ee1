from hypothesis import strategies as st
from pbt import gens

QUICK = (4000, 8)
THOROUGH = (120000, 8)
RULE = ('A case is a generated program in which profiling starts inside calls; non-trivial: the '
        'recorded tree needs at least one placeholder above a recorded call.')


@gens.written
def plan(tier):
    body = gens.programs(tier, startstop=True, max_depth=4)
    fn = st.integers(0, 3)

    def wrap(args):
        fns, ops, pre = args
        ops = pre + [['S']] + ops
        for f in fns:
            ops = [['C', f, ops]]
        return ops
    forced = st.tuples(st.lists(fn, min_size=1, max_size=4), body,
                       st.lists(st.just(['T', 3]), max_size=1)).map(wrap)
    return st.fixed_dictionaries({
        'ops': st.tuples(forced, body).map(lambda x: x[0] + x[1]),
        'auto': st.just(False), 'root': st.integers(0, 3)})


TECHNIQUE = 'property-based testing of generated programs against a reference call-tree model'
NOTE = 'Explores generated programs that start profiling inside calls; trusts the reference model in exe/prog.py.'
