from hypothesis import strategies as st
from pbt import gens

QUICK = (1600, 8)
THOROUGH = (40000, 8)
TECHNIQUE = 'model-based testing: generated results and key sequences; the rendered canvas is read back and compared with the rows, figures and attributes the statistics imply'
NOTE = 'The canvas of the real widgets is rendered without a terminal. Rows are flattened by the model; the order and the texts are taken from the project and judged by the oracles of C11 and C24.'
RULE = ('A case is a history of keys and results of one viewer, checked after each step; non-trivial: at least four '
        'rows were on the screen.')

KEYS = (['right'] * 6 + ['down'] * 6 + ['left'] * 3 + ['up'] * 2 + ['>'] * 3 + ['\\'] * 2 + [']'] * 3 + ['['] * 2 +
        [' '] * 2 + ['esc', 'end', 'home', 'enter', '+', '-', '-', 'h', 'j', 'k', 'l', 'a', 's', 'd', 'w', 'q', 'x',
                     'page up', 'page down', 'tab', 'Q', 'f5'])


def nest(desc):
    """A tree of distinct functions from [(function, parent, hits, time)]."""
    seen, nodes = set(), []
    root = [[None, None, None, None, len(desc) % 3, len(desc) % 4 / 8.0], []]
    for f, parent, hits, time in desc:
        if f in seen:
            continue
        seen.add(f)
        node = [['f%d' % f if f % 5 else '<module>', '/x/%d.py' % f, f * 10 + 1, [None, 'pkg', 'pkg.m%d' % f][f % 3],
                 hits, time], []]
        (nodes[parent % (len(nodes) + 1) - 1][1] if nodes and parent % (len(nodes) + 1) else root[1]).append(node)
        nodes.append(node)
    return root


def hits():
    return gens.mix([st.integers(0, 9), st.just(0), st.integers(0, 10 ** 7)])


def unique(tier):
    n = 14 if tier == 'quick' else 30
    item = st.tuples(gens.pick(n), gens.pick(30), hits(), gens.times())
    return gens.mix([st.lists(item, min_size=6, max_size=n)] * 4 + [st.lists(item, max_size=4)]).map(nest)


def rooted(tree):
    return st.lists(tree, min_size=0, max_size=4).map(distinct)


def distinct(kids):
    seen, res = set(), []
    for k in kids:
        if tuple(k[0][:3]) not in seen:
            seen.add(tuple(k[0][:3]))
            res.append(k)
    return [[None, None, None, None, len(res) % 2 * 5, 0.0], res]


def result(tree):
    secs = gens.mix([st.just(0.0), gens.times(), gens.times()])
    return st.fixed_dictionaries({
        'tree': tree, 'live': st.sampled_from([False, False, True, 'pickled']), 'cpu': secs, 'wall': secs,
        'title': st.sampled_from([None, 'prog.py', 't', '127.0.0.1:8912']),
        'at': gens.mix([st.none(), st.tuples(st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)).map(list)])})


def history(tier, tree, key=8, res=2, sizes=False):
    first = st.tuples(st.just('class'), st.sampled_from(['tracing', 'tracing', 'sampling', 'sampling', 'plain'])).map(list)
    show = st.tuples(st.just('result'), result(tree)).map(list)
    ops = [gens.op('key', st.sampled_from(KEYS))] * key * 4 + [show] * res * 4 + [first] + [gens.op('active', st.booleans())]
    click = st.tuples(st.just('mouse'), st.just('mouse press'), st.just(1), gens.mix([st.just(-1)] * 2 + [st.integers(0, 12), st.integers(0, 100)]),
                      st.integers(0, 20)).map(list)
    ops += [click] * key
    ops += [gens.op('mouse', st.sampled_from(['mouse press', 'mouse release', 'ctrl mouse press', 'mouse drag']),
                    st.integers(1, 5), st.integers(-1, 100), st.integers(0, 20))] * (key // 4)
    if sizes:
        ops += [gens.op('size', st.integers(60, 140), st.integers(4, 60))]
    def keys(*ks):
        return [['key', k] for k in ks]
    # a row above open ones is folded, the table is refreshed, and the row is opened again
    refresh = gens.mix([show.map(lambda r: [r]), show.map(lambda r: keys(' ') + [r] + keys(' '))] +
                       [st.just(keys(*ks)) for ks in (']', '[', '\\\\', '  ')])
    to = gens.mix([st.tuples(st.sampled_from(['home', 'esc']), st.integers(1, 3)).map(lambda t: [t[0]] + ['down'] * t[1]),
                   st.integers(1, 4).map(lambda n: ['up'] * n)])
    fold = st.tuples(to, st.sampled_from(['left', 'left', '-', 'h']), refresh, st.integers(1, 3)).map(
        lambda t: gens.Fragment(keys('>') + keys(*t[0]) + keys(t[1]) + t[2] + keys(*['right'] * t[3])))
    run = st.tuples(st.sampled_from(['down', 'right', 'up', 'left', 'j']), st.integers(2, 5)).map(
        lambda t: gens.Fragment(keys(*[t[0]] * t[1])))
    # what happens while the viewer is paused
    change = gens.mix([first, first, show, gens.op('active', st.booleans())])
    paused = st.tuples(st.lists(change, min_size=1, max_size=3), st.lists(change, max_size=1)).map(
        lambda t: gens.Fragment(keys(' ') + t[0] + keys(' ') + t[1]))
    ops += [fold] * key + [run] * key + [paused] * key
    start = gens.mix([st.tuples(first, show).map(list)] * 9 + [st.just([])])
    return st.tuples(start, st.lists(gens.mix(ops), min_size=3, max_size=24 if tier == 'quick' else 60)).map(
        lambda t: t[0] + gens.flat(t[1]))


def plan(tier):
    exact = st.fixed_dictionaries({
        'exact': st.just(True), 'cols': st.integers(70, 160), 'rows': st.integers(30, 90), 'ops': history(tier, unique(tier), sizes=True)})
    free = st.fixed_dictionaries({
        'exact': st.just(False), 'cols': st.integers(80, 160), 'rows': st.just(800),
        'ops': history(tier, rooted(gens.real_trees('quick', depth=3, width=3)))})
    return gens.mix([free, exact])
