# -*- coding: utf-8 -*-
import trees
from base import expect, expect_eq
from profiling.stats import FlatFrozenStatistics


def run(plan, out):
    tree = trees.expand(plan['tree'])
    if plan['kind'] == 'recording':
        stats, tree = trees.recording(tree)
    else:
        stats = trees.frozen(tree, plan['kind'] == 'plain-leaves')
    before = trees.shape(stats)
    order, sums, n = [], {}, 0
    queue = list(stats)
    for s in queue:
        queue.extend(s)
        key = (s.name, s.filename, s.lineno, s.module)
        if key not in sums:
            order.append(key)
            sums[key] = [0, 0, 0.0, 0.0]
        f = sums[key]
        f[0] += s.own_hits
        f[1] += s.deep_hits
        f[2] += s.own_time
        f[3] += s.deep_time
        n += 1
    flat = FlatFrozenStatistics.flatten(stats)
    expect_eq([(c.name, c.filename, c.lineno, c.module) for c in flat], order, 'functions of the flat statistics')
    for c in flat:
        key = (c.name, c.filename, c.lineno, c.module)
        expect_eq([c.own_hits, c.deep_hits, c.own_time, c.deep_time], sums[key],
                  'own hits, deep hits, own time, deep time of %r' % (key,))
        expect_eq(len(c), 0, 'children of a flat child')
        expect_eq(list(c), [], 'children of a flat child')
        expect_eq(c.deep_time_per_call, c.deep_time / c.own_hits if c.own_hits else 0, 'deep_time_per_call')
        expect_eq(c.own_time_per_call, c.own_time / c.own_hits if c.own_hits else 0, 'own_time_per_call')
    expect_eq(len(flat), len(order), 'len')
    expect_eq([flat.name, flat.filename, flat.lineno, flat.module, flat.own_hits, flat.deep_hits,
               flat.own_time, flat.deep_time],
              [stats.name, stats.filename, stats.lineno, stats.module, stats.own_hits, stats.deep_hits,
               stats.own_time, stats.deep_time], 'the root')
    expect_eq(trees.shape(stats), before, 'the original tree')
    again = FlatFrozenStatistics.flatten(stats)
    expect_eq(trees.shape(again), trees.shape(flat), 'flattened again')
    if n > len(order):
        out.tag('merged')
    if len(set(k[0] for k in order)) < len(order):
        out.tag('same-name-kept-apart')
    out.tag(plan['kind'])
    out.nontrivial = n > len(order) and len(order) > 1
