from hypothesis import strategies as st
from pbt import gens
from pbt.props import c28

QUICK = (4000, 8)
THOROUGH = (150000, 8)
TECHNIQUE = 'model-based testing of start/stop/result histories under virtual CPU and wall clocks'
NOTE = 'Explores generated histories; the clocks are virtual, the programs run in between are those of exe/prog.py.'
RULE = ('A case is a history of starts, stops, programs, elapsed CPU and wall time (the wall clock may go back) and '
        'requests for the result; non-trivial: a session was started and its result asked for.')


def plan(tier):
    units = gens.mix([st.integers(0, 50), st.integers(0, 1 << 20)])
    wall = gens.mix([units, units, st.integers(-60, -1)])
    body = gens.programs(tier, gens=False, max_depth=3)
    sbody = gens.programs(tier, samples=True, gens=False, max_depth=3)

    def ops(kind):
        b = sbody if kind == 2 else body
        return st.lists(gens.mix([st.just(['S'])] * 3 + [gens.op('I', units)] + [st.just(['Q'])] * 2 + [st.just(['R'])] * 3 + [
            gens.op('T', units, wall), gens.op('T', units, wall), gens.op('P', st.integers(0, 3), b),
            gens.op('P', st.integers(0, 3), b)]), min_size=3, max_size=16 if tier == 'quick' else 40)
    def again(t):
        # the sessions follow each other while other threads are in calls
        progs, at = t
        main = list(progs[0])
        for i in at:
            i %= len(main) + 1
            main[i:i] = [['Z'], ['Q'], ['T', 7], ['S'], ['Z']]
        return [main] + progs[1:]
    threads = st.fixed_dictionaries({
        'threads': st.tuples(c28.programs(tier, True), st.lists(st.integers(1, 12), min_size=1, max_size=3)).map(again),
        'schedule': st.lists(st.integers(0, 11), min_size=1, max_size=30),
        'share': st.sampled_from([1, 1, 2]), 'timer': gens.pick(2), 'auto': st.just(True)})
    histories = gens.pick(4).flatmap(lambda kind: st.fixed_dictionaries({
        'kind': st.just(kind), 'ops': ops(kind),
        'costs': gens.mix([st.just([0]), st.lists(st.integers(0, 20), min_size=1, max_size=5)]),
        'wrap': st.booleans(), 'wall0': units, 'cpu0': units}))
    return gens.timed(gens.mix([histories, histories, threads]))
