from hypothesis import strategies as st
from pbt import gens

QUICK = (2400, 8)
THOROUGH = (60000, 8)
TECHNIQUE = 'property-based testing of generated multi-threaded programs under generated schedules and virtual per-thread CPU clocks: invariants over the sequence of samples'
NOTE = 'Threads run one at a time, switched between operations; a thread is expected to be sampled at calls and returns of Python functions.'
RULE = ('A case is a program of up to 8 threads under the hook-based sampler with a generated interval; non-trivial: '
        'at least two samples were taken and at least two calls were checked for a sample being due.')
N = 8


def plan(tier):
    work = gens.mix([st.integers(0, 12), st.integers(0, 80)])
    th = st.integers(1, N - 1)
    small = gens.op('B', st.integers(1, 40), st.integers(0, 30))
    big = gens.op('B', st.sampled_from([2500, 5200, 10100]), st.sampled_from([1, 9]))
    extra = [gens.op('Z')] * 3 + [gens.op('F', th)] + [gens.op('K')] * 3 + [small] + [
        gens.op('R', st.integers(0, 45), st.integers(0, 45))] * 2
    sub = gens.programs(tier, extra=extra, work=work, gens=False, max_depth=2)
    main = gens.programs(tier, extra=extra + [gens.op('F', th)] * 2, work=work, startstop=True, gens=False, max_depth=2)
    forks = st.lists(st.tuples(th, st.integers(0, 2)).map(
        lambda t: gens.Fragment([['F', t[0]]] + [['Z']] * t[1])), min_size=1, max_size=5).map(gens.flat)
    bulk = gens.mix([st.just([])] * 14 + [big.map(lambda b: [b])])
    return gens.timed(st.fixed_dictionaries({
        'interval': gens.mix([st.just(1), st.integers(1, 40)]),
        'threads': st.tuples(forks, main, st.lists(sub, min_size=N - 1, max_size=N - 1), bulk, gens.pick(N), main).map(
            lambda t: grow([t[0] + t[1] + t[5]] + t[2], t[4], t[3])),
        'schedule': st.lists(st.integers(0, 23), min_size=1, max_size=30),
        'auto': st.sampled_from([True, True, True, False])}))


def grow(threads, i, bulk):
    threads = list(threads)
    threads[i] = bulk + threads[i]
    return threads
