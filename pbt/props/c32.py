from pbt.props.c19 import NOTE, plan  # noqa

QUICK = (4800, 8)
THOROUGH = (80000, 8)
TECHNIQUE = 'model-based testing of servers under generated histories of clients with injected failures; every line of the log is judged against the history'
RULE = ('A case is a history of clients connecting, leaving, failing and results being produced; non-trivial: at least '
        'two clients and two results.')
