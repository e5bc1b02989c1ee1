# -*- coding: utf-8 -*-
import trees
from base import expect, expect_eq
from profiling import sortkeys
from profiling.sampling import SamplingStatisticsTable
from profiling.tracing import TracingStatisticsTable
from profiling.viewer import StatisticsTable


def known(*attrs):
    def f(s):
        vals = tuple(getattr(s, a) for a in attrs)
        return None if any(v is None or v == '' for v in vals) else vals
    return f


def number(attr, need_hits=False):
    def f(s):
        if need_hits and not s.own_hits:
            return None
        return (-getattr(s, attr),)
    return f


#: documented order: a value that has to ascend, None where it says nothing
DOC = {
    'by_name': known('name'), 'by_module': known('module'), 'by_function': known('module', 'name'),
    'by_deep_hits': number('deep_hits'), 'by_own_hits': number('own_hits'),
    'by_deep_time': number('deep_time'), 'by_own_time': number('own_time'),
    'by_deep_time_per_call': number('deep_time_per_call', True),
    'by_own_time_per_call': number('own_time_per_call', True),
}
#: what the columns of the tables show
COLUMNS = {
    StatisticsTable: ['by_function'],
    TracingStatisticsTable: ['by_function', 'by_own_hits', 'by_own_time', 'by_own_time_per_call', None,
                             'by_deep_time', 'by_deep_time_per_call', None],
    SamplingStatisticsTable: ['by_function', 'by_own_hits', None, 'by_deep_hits', None],
}


def check(stats, key, doc, reverse, what):
    kids = list(stats)
    got = stats.sorted(key)
    expect(len(got) == len(kids) and set(map(id, got)) == set(map(id, kids)),
           '%s: lists %r of %r', what, got, kids)
    vals = [v for v in map(doc, got) if v is not None]
    want = sorted(vals, reverse=reverse)
    expect_eq(vals, want, what)
    again = stats.sorted(key)
    expect(all(a is b for a, b in zip(got, again)), '%s: another order the second time', what)


def run(plan, out):
    tree = plan['tree']
    if plan['kind'] == 'recording':
        stats, tree = trees.recording(tree)
    else:
        stats = trees.frozen(tree, plan['kind'] == 'plain-leaves')
    for name, doc in sorted(DOC.items()):
        key = getattr(sortkeys, name)
        check(stats, key, doc, False, name)
        check(stats, ~key, doc, True, '~' + name)
        check(stats, ~~key, doc, False, '~~' + name)
    for cls, names in COLUMNS.items():
        orders = [c[3] for c in cls.columns]
        expect_eq([o is not None for o in orders], [n is not None for n in names], 'sortable columns')
        for order, name in zip(orders, names):
            if name:
                check(stats, order, DOC[name], False, '%s column %s' % (cls.__name__, name))
    expect_eq([id(s) for s in stats.sorted()], [id(s) for s in stats.sorted(sortkeys.by_deep_time)],
              'default order')
    kids = list(stats)
    if any(not c.name for c in kids):
        out.tag('unknown-name')
    if any(not c.module for c in kids):
        out.tag('unknown-module')
    out.nontrivial = len(kids) >= 3
