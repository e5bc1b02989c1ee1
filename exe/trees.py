# -*- coding: utf-8 -*-
"""Builds statistics from generated trees [members, children]."""
from profiling.stats import (FrozenStatistics, RecordingStatistics, Statistics,
                             VoidRecordingStatistics)

_proto = compile('0', '?', 'exec')


def make_code(name, filename, lineno):
    return _proto.replace(co_name=name or '<module>', co_filename=filename or '?',
                          co_firstlineno=lineno or 1)


def walk(node):
    """Breadth first, with the root."""
    queue = [node]
    for n in queue:
        queue.extend(n[1])
    return queue


def frozen(node, leaf_plain=False):
    """FrozenStatistics; leaves may be plain Statistics.  Not recursive."""
    order = walk(node)
    made = {}
    for n in reversed(order):
        kids = [made[id(c)] for c in n[1]]
        if leaf_plain and not kids and n is not node:
            made[id(n)] = Statistics(*n[0])
        else:
            made[id(n)] = FrozenStatistics(*n[0], children=kids)
    return made[id(node)]


def recording(node, stats=None, fill=None):
    """RecordingStatistics through ensure_child; siblings of the same code are
    left out.  Returns (stats, the tree that was really made)."""
    if stats is None:
        stats = RecordingStatistics(make_code(*node[0][:3]))
        stats.own_hits, stats.deep_time = node[0][4:6]
    real = [list(node[0]), []]
    todo = [(node, stats, real)]
    while todo:
        n, s, r = todo.pop()
        for c in n[1]:
            code = make_code(*c[0][:3])
            if code in s:
                continue
            if c[0][4] == 0 and c[1] and fill != 'no-void':
                child = s.ensure_child(code, VoidRecordingStatistics)
            else:
                child = s.ensure_child(code, RecordingStatistics)
                child.own_hits = c[0][4]
                child.deep_time = c[0][5]
            rc = [list(c[0]), []]
            r[1].append(rc)
            todo.append((c, child, rc))
    return stats, real


def chain(n, members):
    node = [list(members), []]
    root = node
    for i in range(n):
        child = [list(members), []]
        child[0][4] = i % 5
        node[1].append(child)
        node = child
    return root


def expand(t):
    """A generated description: a tree, a chain or a wide tree."""
    if isinstance(t, dict):
        if 'chain' in t:
            return chain(t['chain'], t['m'])
        kids = []
        for i in range(t['wide']):
            m = list(t['m'])
            m[2] = i + 1
            kids.append([m, []])
        return [list(t['m']), kids]
    return t


def key_of(s):
    return (s.name, s.filename, s.lineno, s.module, s.own_hits, s.deep_time)


def shape(stats):
    """Breadth-first list of (depth-first unambiguous) parent index and members."""
    res = []
    queue = [(None, stats)]
    for i, (parent, s) in enumerate(queue):
        res.append((parent, key_of(s)))
        queue.extend((i, c) for c in s)
    return res
