from hypothesis import strategies as st
from pbt import gens

QUICK = (2400, 8)
THOROUGH = (60000, 8)
TECHNIQUE = 'property-based testing of generated multi-threaded programs under generated schedules against a reference call-tree model'
NOTE = 'Real threads run one at a time and are switched between operations of the generated programs and, in a third of the cases, when the profiler reads its timer or makes a statistics in the middle of recording; trusts the model in exe/threads.py.'
RULE = ('A case is a generated program of up to 4 threads with a schedule, run under the tracing profiler with '
        'a process or per-thread virtual clock; non-trivial: calls of at least two threads were recorded and '
        'control moved between threads at least twice.')


def programs(tier, startstop):
    extra = [gens.op('Z')] * 4 + [gens.op('F', st.integers(1, 3))] * 2
    main = gens.programs(tier, extra=extra, startstop=startstop, gens=False, max_depth=3)
    sub = gens.programs(tier, extra=[gens.op('Z')] * 4 + [gens.op('F', st.integers(1, 3))], gens=False, max_depth=3)
    fork = st.integers(1, 3).map(lambda j: gens.Fragment([['F', j], ['Z']]))
    forks = st.lists(fork, min_size=1, max_size=3).map(gens.flat)
    return st.tuples(forks, main, sub, sub, sub, st.integers(0, 2)).map(
        lambda t: [t[1][:t[5]] + t[0] + t[1][t[5]:], t[2], t[3], t[4]])


def plan(tier):
    return gens.timed(st.fixed_dictionaries({
        'timer': gens.pick(2),
        'threads': programs(tier, True),
        'share': st.sampled_from([0, 1, 2]),
        'schedule': st.lists(st.integers(0, 11), min_size=1, max_size=30),
        'inner': gens.mix([st.just([])] * 2 + [st.lists(st.booleans(), min_size=1, max_size=12)]),
        'auto': st.sampled_from([True, True, True, False])}))
