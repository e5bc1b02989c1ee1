from hypothesis import strategies as st
from pbt.gens import mix, op
from pbt.props import c26

QUICK = (320, 8)
THOROUGH = (6000, 8)
TIMEOUT = 170
TECHNIQUE = ('differential property-based testing: generated programs under remote-profile (with generated clients) and '
             'live-profile against running them alone; phases of the program are synchronised with the clients')
NOTE = ('The terminal loop of live-profile is a stand-in around its real event loop. KeyboardInterrupt, which '
        'remote-profile ends quietly on, is left out. Patience with missing results is 40 seconds and 60 results.')
RULE = ('A case is a program with phases during which clients act; non-trivial: a client or viewer received results '
        'during at least one phase.')

KINDS = ['busy', 'deep', 'sleep', 'raises', 'gen', 'join', 'exec']
LEAVES = ['close', 'reset', 'garbage', 'shutdown']


def plan(tier):
    extra = mix([op('piped', st.integers(0, 20000)), op('sleeps', st.integers(0, 20)), op('locked', st.integers(0, 6)),
                 op('chatter', mix([st.integers(0, 40), st.just(30000)])), op('junk', st.integers(0, 56)), op('at_exit'), op('left_thread'), op('signals'), op('own_signal', st.integers(0, 3), st.sampled_from([0, 2]))])
    simple = c26.stmts(1, 3, True, 1, 1).map(lambda l: l[0])
    stmt = mix([simple] * 2 + [extra] * 3)
    phase = st.sampled_from(KINDS).map(lambda k: ['phase', None, k])
    block = st.tuples(st.lists(stmt, max_size=2), phase, st.lists(stmt, max_size=2)).map(lambda t: t[0] + [t[1]] + t[2])
    body = st.lists(block, min_size=1, max_size=3).map(lambda bs: sum(bs, []))
    end = mix([st.just([])] * 4 + [st.integers(0, 9).filter(lambda i: i != 4).map(lambda i: [['raise', i]])])
    act = mix([st.just(['connect'])] * 2 + [st.tuples(st.just('read'), st.integers(0, 5)).map(list)] * 3 + [
        st.tuples(st.just('close'), st.integers(0, 5), st.sampled_from(LEAVES)).map(list)])
    actions = st.lists(act, min_size=1, max_size=5)

    def fix(p):
        if p['dies'] is not None:
            # the effects of threads which are left would be by chance.
            p['body'] = [s for s in p['body'] if s[0] != 'left_thread']
            p['end'] = [['dies', p['dies']]]
        p['body'] = p['body'] + p['end']
        del p['end'], p['dies']
        k = 0
        acts = {}
        for s in p['body']:
            if s[0] == 'phase':
                s[1] = k
                acts[str(k)] = p['actions'][k % len(p['actions'])]
                k += 1
        if p['command'] == 'remote':
            acts['0'] = [['connect']] + acts['0'] + [['connect'], ['read', k]]
        if p['stall'] is not None:
            p['stall'] = p['stall'] % k if p['command'] == 'live' else None
        p['actions'] = acts if p['command'] == 'remote' else {}
        if p['process']:
            p['process'] = p['command'] == 'remote'
        return p
    return st.fixed_dictionaries({
        'command': mix([st.just('remote')] * 2 + [st.just('live')]),
        'funcs': st.lists(c26.raising(1).map(lambda b: [s for s in b if s[0] != 'raise']), min_size=1, max_size=3),
        'dies': mix([st.none()] * 5 + [st.sampled_from([0, -3, 9, 15])]),
        'stall': mix([st.none()] * 5 + [st.integers(0, 2)]),
        'body': body, 'end': end, 'actions': st.lists(actions, min_size=1, max_size=3),
        'script': st.sampled_from(['t.py', './t.py', 'noext', 'é t.py']),
        'args': st.lists(st.sampled_from(c26.ARGS), max_size=3),
        'sampling': mix([st.none()] * 3 + [st.just('itimer'), st.just('tracing')]),
        'timer': st.sampled_from(['basic', 'thread', 'greenlet']),
        'interval': st.sampled_from([0.01, 0.02, 0.05]),
        'signum': st.sampled_from([None, None, 'SIGUSR1', 'USR2', '12']),
        'protocol': st.sampled_from([None, None, 0, 1, 2]),
        'verbose': mix([st.just(False)] * 2 + [st.just(True)]),
        'process': mix([st.just(False)] * 9 + [st.just(True)]),
    }).map(fix)
