# -*- coding: utf-8 -*-
import trees
from base import expect, expect_eq
from profiling.stats import spread_stats, VoidRecordingStatistics


def check(stats, out):
    """Checks every node against its own children, by an own walk."""
    order = [stats]
    for s in order:
        order.extend(s)
    descendants = order[1:]
    # sums from the leaves up
    deep = {}
    for s in reversed(order):
        deep[id(s)] = s.own_hits + sum(deep[id(c)] for c in s)
    # placeholders take the times of the nearest functions recorded beneath
    for s in reversed(order):
        if isinstance(s, VoidRecordingStatistics):
            expect_eq((s.own_hits, s.deep_time), (0, sum(c.deep_time for c in s)), 'placeholder %r' % s.name)
            out.tag('placeholder')
            if any(not c.deep_time and len(c) for c in s):
                out.tag('placeholder-over-unfinished')
    for s in order:
        expect_eq(s.deep_hits, deep[id(s)], 'deep_hits of %r' % s.name)
        own = max(0.0, s.deep_time - sum(c.deep_time for c in s))
        expect_eq(s.own_time, own, 'own_time of %r (%r)' % (s.name, s.deep_time))
        hits = s.own_hits
        expect_eq(s.deep_time_per_call, s.deep_time / hits if hits else 0, 'deep_time_per_call')
        expect_eq(s.own_time_per_call, own / hits if hits else 0, 'own_time_per_call')
        want = (s.module + ':' + s.name) if s.name and s.module else (s.name or s.module)
        expect_eq(s.regular_name or None, want or None, 'regular_name')
        if own == 0 and s.deep_time > 0:
            out.tag('floored')
        hits_s = '%d' % hits if hits == s.deep_hits else '%d/%d' % (hits, s.deep_hits)
        time_s = '%.6f' % s.deep_time if own == s.deep_time else '%.6f/%.6f' % (own, s.deep_time)
        name_s = "'%s' " % want if want else ''
        expect_eq(repr(s), '<%s %shits=%s time=%s>' % (type(s).__name__, name_s, hits_s, time_s), 'repr')
    return descendants


def same(got, want, what):
    expect(len(got) == len(want), '%s: %d statistics visited, expected %d', what, len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        expect(a is b, '%s: visit %d is %r, expected %r', what, i, a, b)


def run(plan, out):
    tree = trees.expand(plan['tree'])
    kind = plan['kind']
    if kind == 'recording':
        stats, tree = trees.recording(tree)
    else:
        stats = trees.frozen(tree, kind == 'plain-leaves')
    n = len(trees.walk(tree))
    if n > 60:
        # quadratic to check every node
        descendants = []
        queue = [stats]
        for s in queue:
            queue.extend(s)
        descendants = queue[1:]
        expect_eq(stats.deep_hits, sum(s.own_hits for s in queue), 'deep_hits')
        out.tag('large')
    else:
        descendants = check(stats, out)
    same(list(spread_stats(stats)), descendants, 'spread_stats')
    # gated walk
    gates = plan['gates'] or [True]
    got = []
    entered = set()
    for s, spread in spread_stats(stats, spreader=True):
        if gates[len(got) % len(gates)]:
            spread()
            entered.add(len(got))
        got.append(s)
    queue = list(stats)
    for i, s in enumerate(queue):
        if gates[i % len(gates)]:
            queue.extend(s)
    same(got, queue, 'gated spread_stats')
    if len(got) < len(descendants):
        out.tag('gated')
    out.tag(kind)
    out.nontrivial = n >= 4 and any(len(s) for s in descendants)
