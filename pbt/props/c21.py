from hypothesis import strategies as st
from pbt import gens

QUICK = (1200, 8)
THOROUGH = (20000, 8)
TECHNIQUE = 'model-based testing: generated histories of starts, stops, failures and calls issued from background threads, each in a process of its own, against a model of the wrapped profiler'
NOTE = ('Real threads and real signals; deadlines only decide that a thread waits forever. Two background profilers may '
        'work at once.')
RULE = ('A case is a history of operations of two background threads and calls of the main thread; non-trivial: calls '
        'of the main thread were recorded, or the recording wrapped profiler was started and stopped.')
ASSUMPTIONS = ['The main thread keeps executing Python code or sleeping, so that signals are delivered.']
TIMEOUT = 120


def plan(tier):
    hand = st.integers(0, 1)
    calls = st.recursive(st.just([]), lambda sub: st.lists(st.tuples(st.integers(0, 2), sub).map(list), max_size=3),
                         max_leaves=8)
    op = gens.op
    start, stop = op('start', hand), op('stop', hand)
    work = op('work', calls)
    pair = st.tuples(start, work, stop).map(lambda t: gens.Fragment(t))
    foreign = st.tuples(op('foreign'), start, work).map(gens.Fragment)
    # the main thread handles the signal late
    deaf = op('deaf', hand, st.sampled_from([0.02] * 10 + [0.2] * 6 + [1.3] * 2 + [6]))
    ops = st.lists(gens.mix([
        start, start, start, stop, stop, work, work, work, pair, pair,
        op('fail', hand, st.sampled_from(['start', 'stop'])), op('occupied', hand), op('result'), op('foreign'), foreign, foreign,
        op('with', hand, calls, st.booleans()), op('race', hand), deaf,
        op('twins', hand, st.sampled_from([0, 0.001, 0.005]), st.integers(0, 3))]), min_size=2, max_size=12).map(gens.flat)
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['trace', 'trace', 'trace', 'record', 'sample']),
        'signal': gens.pick(6), 'busy': st.sampled_from([False] * 7 + [True]), 'ops': ops})
