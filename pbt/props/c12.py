from hypothesis import strategies as st

QUICK = (4000, 8)
THOROUGH = (120000, 8)
TECHNIQUE = 'model-based testing of start/stop histories with failing implementations against a two-state model'
NOTE = 'Implementations of run() are generated from ten kinds (ok, failing before or after, yielding values, never or twice).'
RULE = 'A case is a history of start, stop, with-blocks and recorded calls on one object; non-trivial: at least one successful start.'
WHAT = ['runnable', 'timer', 'sampler', 'profiler', 'tracing', 'sampling', 'wrapper', 'bare', 'Timer', 'ThreadTimer',
        'GreenletTimer', 'ItimerSampler', 'TracingSampler', 'Sampler']
KINDS = ['none', 'value', 'falsy', 'twice', 'fail', 'fail_exit', 'fail_late', 'fail_late_exit', 'raise']


def plan(tier):
    simple = st.sampled_from([['start'], ['start'], ['stop'], ['mark']])
    block = st.tuples(st.just('with'), st.lists(simple, max_size=3), st.booleans()).map(list)
    block2 = st.tuples(st.just('with'), st.lists(st.one_of(simple, block), max_size=3), st.booleans()).map(list)
    return st.fixed_dictionaries({
        'what': st.sampled_from(WHAT),
        'kinds': st.lists(st.one_of(st.just('ok'), st.sampled_from(KINDS)), max_size=4),
        'ops': st.lists(st.one_of(simple, block2), min_size=1, max_size=20 if tier == 'thorough' else 10)})
