"""Strategies shared by several properties.  Everything drawn is JSON."""
from hypothesis import strategies as st


def op(*parts):
    return st.tuples(*[p if isinstance(p, st.SearchStrategy) else st.just(p)
                       for p in parts]).map(list)


def first(t):
    return t[0]


def mix(strategies):
    """one_of() that honours repetitions: Hypothesis drops duplicates and
    dissolves nested choices."""
    return st.one_of([st.tuples(s).map(first) for s in strategies])


class Fragment(list):
    """Several operations in the place of one."""


def flat(ops):
    res = []
    for o in ops:
        if isinstance(o, Fragment):
            res.extend(o)
        else:
            res.append(o)
    return res


def programs(tier, extra=(), work=None, startstop=False, samples=False, gens=True, exc=True,
             max_depth=None, extra_weight=1, funcs=4):
    """Lists of operations for exe/prog.py."""
    deep = tier == 'thorough'
    work = work if work is not None else st.integers(0, 40)
    depth = max_depth or (8 if deep else 6)
    width = 6 if deep else 5
    fn = st.integers(0, funcs - 1)

    leaf = [] if samples else [op('T', work)] * 2
    if startstop:
        leaf += [op('S')] * 2 + [op('Q')]
    if samples:
        leaf += [op('s')] * 6
    if gens:
        leaf += [op('N', st.integers(0, 2))] * 3
    leaf += list(extra) * extra_weight

    cache = {}

    def bodies(d, in_gen, least=0):
        k = (d, in_gen, least)
        if k in cache:
            return cache[k]
        ops = list(leaf)
        if in_gen:
            ops += [op('V')] * 4
        if d > 0:
            sub = st.deferred(lambda: bodies(d - 1, False))
            ops += [op('C', fn, sub)] * (3 * len(leaf) // 4 + 2)
            if exc:
                boom = sub.map(lambda b: b + [['X']])
                ops += [op('Y', fn, sub), op('Y', fn, boom), op('C', fn, boom)]
            if gens:
                gsub = st.deferred(lambda: bodies(d - 1, True, 1))
                made = st.tuples(st.integers(0, 2), st.integers(0, 1), gsub, st.integers(0, 3)).map(
                    lambda t: Fragment([['G', t[0], t[1], t[2]]] + [['N', t[0]]] * t[3]))
                ops += [made] * 2
        cache[k] = st.lists(mix(ops), min_size=least,
                            max_size=width if d > 0 else 2).map(flat)
        return cache[k]

    return bodies(depth, False, 2)


NAMES = [None, 'f', 'g', 'spin', '<lambda>', 'méthode', '', 'a_rather_long_function_name_for_a_column']
FILES = ['a.py', 'b.py', '/usr/lib/long/path/to/some/module.py', None]
MODULES = [None, 'pkg', 'pkg.mod', 'été', '']


def timed(plans):
    """What a unit of work takes: from the seconds which other profilers show
    to the nanoseconds which a function takes; and where the clock begins."""
    unit = mix([st.just(6)] * 2 + [st.integers(6, 30)])
    origin = mix([st.just(0)] * 2 + [st.integers(0, 1 << 20), st.integers(0, 1 << 40)])
    return shaped(st.tuples(plans, unit, origin).map(lambda t: dict(t[0], unit=t[1], origin=t[2])))


def shaped(plans):
    """How the functions of programs are written: in one line each or in many."""
    return st.tuples(plans, st.sampled_from([False, False, True])).map(lambda t: dict(t[0], line=t[1]))


def fine(n):
    return n / 67108864.0


def times():
    """Multiples of 2 ** -26 up to some weeks: sums of them are exact."""
    coarse = st.one_of(st.just(0), st.integers(0, 300), st.integers(0, 1 << 22), st.integers(0, 1 << 27)
                       ).map(lambda n: n << 20)
    small = st.one_of(st.integers(0, 300), st.integers(0, 1 << 20))
    close = st.tuples(st.integers(0, 3), small).map(lambda t: (t[0] << 26) + t[1])
    return mix([coarse, coarse, small, close, st.integers(0, 1 << 47)]).map(fine)


def members(names=NAMES, files=FILES, modules=MODULES, linenos=(1, 2, 10, 99999, None), hits=None, secs=None):
    pick = st.sampled_from
    hits = hits if hits is not None else st.one_of(st.just(0), st.integers(0, 9), st.integers(0, 10 ** 7))
    secs = secs if secs is not None else times()
    return st.tuples(pick(names), pick(files), pick(linenos), pick(modules), hits, secs).map(list)


def trees(tier, depth=None, width=None, **kw):
    """[[name, filename, lineno, module, own_hits, deep_time], [children]]"""
    depth = depth or (6 if tier == 'thorough' else 4)
    width = width or (6 if tier == 'thorough' else 4)
    m = members(**kw)
    node = st.tuples(m, st.just([])).map(list)
    for _ in range(depth):
        node = st.tuples(m, st.lists(node, max_size=width)).map(list)
    return node


def real_trees(tier, names=('f', 'g', 'spin', 'main', 'été'), modules=('pkg', 'pkg.mod', 'app', None),
               files=('a.py', 'b.py', '/x/y.py'), **kw):
    """Trees as profilers make them: siblings are distinct functions, every
    function has a place."""
    def dedupe(node):
        seen, kids = set(), []
        for c in node[1]:
            key = tuple(c[0][:3])
            if key not in seen:
                seen.add(key)
                kids.append(dedupe(c))
        return [node[0], kids]
    return trees(tier, names=list(names), modules=list(modules), files=list(files),
                 linenos=(1, 2, 30), **kw).map(dedupe)


def pick(n):
    """About uniform below n, unlike integers(), which prefers the bounds."""
    return st.integers(0, 0xffff).map(lambda x: ((x * 40503) & 0xffff) * n >> 16)


def written(plan):
    return lambda tier: shaped(plan(tier))
