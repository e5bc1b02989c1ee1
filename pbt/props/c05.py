from hypothesis import strategies as st
from pbt import gens

QUICK = (4800, 8)
THOROUGH = (120000, 8)
TECHNIQUE = 'property-based differential testing of both frame stack implementations and of profilers against a model'
NOTE = ('Compares the Python and the compiled C frame_stack with a reference walk over generated stacks, and '
        'profilers with generated bases and ignore sets with the model of exe/prog.py. Codes that compare '
        'equal are treated as one ignored code, as the implementations do. The C version is compared on '
        'stacks without generators only (an artefact of PyPy\'s C emulation).')
RULE = ('A case is a generated program with bases and ignore sets; non-trivial: a stack of at least 2 frames '
        'was cut, or a profiler with a base or something ignored recorded at least 2 paths.')


@gens.written
def plan(tier):
    idx = st.integers(0, 15)
    query = st.fixed_dictionaries({
        'bf': st.none() | idx, 'bc': st.none() | idx,
        'igf': st.lists(idx, max_size=3), 'igc': st.lists(idx, max_size=3),
        'kind': st.integers(0, 2)})
    stacks = lambda g: st.fixed_dictionaries({
        'kind': st.just('stacks'), 'deep': gens.mix([st.just(0)] * 30 + [st.integers(1, 60), st.sampled_from([200, 600, 1100, 2500])]), 'root': st.integers(0, 3),
        'ops': gens.programs(tier, samples=True, max_depth=5, gens=g),
        'queries': st.lists(query, min_size=1, max_size=4)})

    def close(ig):
        # the codes of the functions 0 and 2 are equal
        ig = set(ig)
        if ig & {0, 2}:
            ig |= {0, 2}
        return sorted(ig)
    kind = st.sampled_from(['trace', 'trace', 'sample', 'signal'])

    def fix(p):
        if p['base'] is not None and p['base'] in p['ignored']:
            p['base'] = None
        return p

    def profiler(kind, samples):
        body = gens.programs(tier, startstop=True, samples=samples)
        quiet = gens.programs(tier, samples=samples)
        common = {'kind': st.just(kind), 'root': st.integers(0, 3), 'container': st.integers(0, 2)}
        by_code = st.fixed_dictionaries(dict(
            common, ops=st.one_of(body, quiet), auto=st.just(True),
            base=st.none() | st.integers(0, 5),
            ignored=st.lists(st.integers(0, 5), max_size=3).map(close))).map(fix)
        nested = st.tuples(st.lists(st.integers(0, 3), min_size=1, max_size=4), quiet, quiet).map(nest)
        by_frame = st.fixed_dictionaries(dict(
            common, ops=nested | body, auto=st.just(False), base=st.none(), ignored=st.just([]),
            byframe=st.tuples(st.none() | st.integers(0, 5),
                              st.lists(st.integers(0, 5), max_size=3)).map(list)))
        return st.one_of(by_code, by_frame)

    def nest(args):
        fns, a, b = args
        ops = [['S']] + a
        for f in fns:
            ops = [['C', f, ops]]
        return ops + b
    return gens.mix([stacks(True), stacks(False), profiler('trace', False), profiler('trace', False),
                     profiler('sample', True), profiler('signal', True)])
