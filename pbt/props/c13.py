from hypothesis import strategies as st

QUICK = (2400, 8)
THOROUGH = (60000, 8)
TECHNIQUE = 'model-based testing of start/stop histories with injected start and stop failures against snapshots of the process hooks'
NOTE = 'Every history runs in a forked child. Profilers are nested last-in first-out; signals never fire because intervals are 1000 s of CPU time.'
RULE = 'A case is a history of nested starts and stops of profilers from a generated initial state of the hooks; non-trivial: at least one profiler ran and was stopped.'
KINDS = ['tracing', 'tracing-thread', 'tracing-greenlet', 'tracing-fail', 'tracing-exit', 'tracing-fail-stop',
         'itimer', 'itimer-invalid', 'itimer-nan', 'hook', 'idle', 'fail', 'fail-stop']


def plan(tier):
    push = st.tuples(st.just('push'), st.sampled_from(KINDS), st.integers(0, 2)).map(list)
    op = st.one_of(push, push.map(lambda x: x), st.just(['pop']))
    return st.fixed_dictionaries({
        'handler': st.sampled_from(['default', 'ignore', 'user']),
        'itimer': st.sampled_from([[0, 0], [1000.0, 500.0], [800.0, 0.0]]),
        'profile': st.sampled_from([False, False, True]), 'trace': st.booleans(), 'threads': st.booleans(),
        'ops': st.lists(op, min_size=1, max_size=10)})
