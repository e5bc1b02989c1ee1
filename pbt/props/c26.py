from hypothesis import strategies as st

from pbt.gens import mix, op

QUICK = (800, 8)
THOROUGH = (50000, 8)
TECHNIQUE = 'differential property-based testing: generated programs under the profile command against running them alone with a reference call counter'
NOTE = ('The command runs in a forked process; the terminal loop is a recording stand-in. sys.modules["__main__"] and '
        'the global names seen under -m are left out (known limits of the design).')
RULE = ('A case is a generated program, a way of naming it, arguments and options; non-trivial: at least four call '
        'paths are counted.')


def stmts(d, calls=3, threads=True, least=0, width=4, exc=True, program=True):
    leaf = [op('call', st.integers(0, calls))] * 4 + [
        op('rec', st.integers(0, 5)), op('print', st.integers(0, 99)), op('err', st.integers(0, 99)),
        op('effect', st.integers(0, 99)), op('gen', st.integers(0, 4)), op('cls', st.integers(0, 1)),
        op('comp', st.integers(0, 3)), op('global', st.integers(0, 3))]
    if program:
        leaf += [op('argv'), op('who'), op('import', st.integers(0, 3)), op('path')]
    if threads:
        leaf.append(op('thread', st.integers(0, calls)))
    if d > 0:
        sub = stmts(d - 1, calls, threads, 0, 3, exc, program)
        boom = sub.map(lambda b: b + [['raise', 0]])
        leaf += [op('loop', st.integers(0, 3), sub), op('try', sub)] + ([op('try', boom)] if exc else [])
    return st.lists(mix(leaf), min_size=least, max_size=width)


def raising(d, program=True):
    body = stmts(d, 3, True, 0, 4, program=program)
    boom = st.tuples(body, st.integers(0, 9), body).map(lambda t: t[0] + [['raise', t[1]]] + t[2])
    return mix([body] * 7 + [boom])


SCRIPTS = ['t.py', './t.py', 'sub/t.py', '/t.py', '/sub/deep/t.py', 'with space/é t.py', 'noext', 'sub/../t.py', 'helper.py',
           'sub/__main__.py']
ARGS = ['a', 'b c', '', 'é', '-x', '--', '--dump', '-d', '-S', '-m', 'json', '--help', '-c', '--timer=thread', 'profile',
        '-', '=', '%s', '--version', '-T', 'view']


def plan(tier):
    def fix(p):
        if p['how'] != 's':
            # imports of -m and -c look into the current directory
            pass
        else:
            k = p['chdir']
            if k:
                p['main'].insert(k % (len(p['main']) + 1), ['chdir'])
        if p['names']:
            p['main'].append(['names'])
        return p
    return st.fixed_dictionaries({
        'doc': st.sampled_from([None, None, 'documentation', '']),
        'funcs': st.lists(raising(1), min_size=1, max_size=4),
        'main': raising(2),
        'how': st.sampled_from(['s', 's', 's', 'm', 'c']),
        'script': st.sampled_from(SCRIPTS), 'module': st.sampled_from(['mod', 'pkg.mod', 'pkg.sub.mod']),
        'package': st.booleans(),
        'args': mix([st.lists(st.sampled_from(ARGS), max_size=4), st.lists(st.sampled_from(ARGS[:4]), max_size=3)]),
        'chdir': mix([st.just(0)] * 3 + [st.integers(1, 5)]), 'names': st.booleans(),
        'sampling': mix([st.just(False)] * 4 + [st.just(True)]), 'explicit': st.booleans(),
        'dump': mix([st.just(True)] * 2 + [st.just(False)]), 'dashes': st.booleans(), 'after': st.booleans(),
        'rotate': st.integers(0, 5),
    }).map(fix)
