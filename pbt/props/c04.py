from hypothesis import strategies as st
from pbt import gens

QUICK = (4000, 8)
THOROUGH = (120000, 8)
TECHNIQUE = 'property-based testing of generated programs against a reference model of sampled stacks'
NOTE = ('Explores generated programs that take samples of themselves by passing their frame to '
        'sample() or by raising SIGPROF under the itimer sampler, also while another sample is being recorded; some programs are written in one line, so that functions differ in their code only; trusts the model of stacks in exe/prog.py.')
RULE = ('A case is a generated program taking samples at chosen points; non-trivial: at least 3 '
        'different stacks were sampled.')


@gens.written
def plan(tier):
    more = {'frame': st.booleans(), 'signal': st.booleans(), 'root': st.integers(0, 3),
            'nest': gens.mix([st.just([])] * 2 + [st.lists(st.booleans(), min_size=1, max_size=7)]),
            'outside': gens.mix([st.just(0)] * 3 + [st.integers(1, 4)])}
    return st.one_of(
        st.fixed_dictionaries(dict(more, ops=gens.programs(tier, startstop=True, samples=True),
                                   auto=st.booleans())),
        st.fixed_dictionaries(dict(more, ops=gens.programs(tier, samples=True),
                                   auto=st.just(True))),
        st.fixed_dictionaries(dict(more, ops=gens.programs(tier, samples=True, exc=False, gens=False),
                                   auto=st.just(True))))
