from hypothesis import strategies as st
from pbt.gens import mix
from pbt.props import c26

QUICK = (900, 8)
THOROUGH = (50000, 8)
TECHNIQUE = ('differential property-based testing: generated setups and statements under the timeit command against '
             'executing them n times with a reference call counter')
NOTE = 'The clock is virtual, so that the chosen count is known; the terminal loop is a recording stand-in.'
RULE = ('A case is a setup, a statement and a count; non-trivial: at least two call paths are counted and the statement '
        'runs more than once.')

SIMPLE = ['count', 'pass', 'empty', 'comment', 'string', 'with', 'import', 'range', 'long', 'parens', 'annotated', 'comp',
          'backslash', 'unicode', 'underscore', 'reads', 'gettext', 'slash', 'def', 'if', 'semicolon', 'newlines', 'try',
          'class', 'lambda', 'nested', 'global', 'gen', 'spawn', 'bump', 'peek', 'later', 'drop', 'nameof', 'dashes', 'decorated']
# what a statement without the setup can do
BARE = ['pass', 'empty', 'comment', 'string', 'dashes']


def plan(tier):
    gen = c26.stmts(1, 3, True, 1, 2, program=False).map(lambda l: l[0])
    boom = st.integers(1, 12).map(lambda k: ['boom', k])
    part = mix([st.sampled_from(SIMPLE)] * 8 + [gen] * 3 + [boom])
    counts = mix([st.integers(0, 3), st.integers(2, 9), st.integers(2, 30), st.integers(2, 30), st.integers(30, 300)])

    def fix(p):
        if p['number'] is None:
            p['setup'] = True
            p['stmt'] = [x for x in p['stmt'] if x in SIMPLE and x not in ('spawn', 'with', 'decorated')][:2]
        elif not p['setup']:
            p['stmt'] = [x for x in p['stmt'] if x in BARE] or ['pass']
        return p
    return st.fixed_dictionaries({
        'funcs': st.lists(c26.stmts(1, 3, True, 1, 4, program=False), min_size=1, max_size=3),
        'setup': mix([st.just(True)] * 9 + [st.just(False)]), 'setup raises': mix([st.just(False)] * 14 + [st.just(True)]),
        'shadow': mix([st.just(False)] * 4 + [st.just(True)]),
        'stmt': mix([st.lists(part, min_size=2, max_size=4)] * 3 + [st.lists(part, min_size=1, max_size=1)]),
        'number': mix([counts] * 6 + [st.none()]), 'cost': st.sampled_from([0.05, 0.0201, 0.003, 0.0021, 0.03, 0.0003]),
        'sampling': mix([st.just(False)] * 5 + [st.just(True)]), 'dump': mix([st.just(True)] * 2 + [st.just(False)]),
        'spell': st.booleans(), 'after': st.booleans(), 'rotate': st.integers(0, 5),
        'ignored': st.lists(st.integers(0, 3), max_size=2, unique=True),
    }).map(fix)
