# -*- coding: utf-8 -*-
import prog
import trees
from base import expect, expect_eq
from profiling import stats as profiling_stats
from profiling.profiler import Profiler
from profiling.stats import RecordingStatistics, VoidRecordingStatistics

REAL = profiling_stats.__file__

#: two that differ by file only, by line only, by name only; a module
CODES = [trees.make_code('f', 'a', 1), trees.make_code('f', 'b', 1), trees.make_code('f', 'a', 2),
         trees.make_code('g', 'a', 1), trees.make_code('<module>', 'a', 1),
         trees.make_code('real', REAL, 5), None]
IDENT = [('f', 'a', 1, None), ('f', 'b', 1, None), ('f', 'a', 2, None), ('g', 'a', 1, None),
         (None, 'a', 1, None), ('real', REAL, 5, 'profiling.stats'), (None, None, None, None)]


class M(object):
    """Model of one recording statistics."""

    def __init__(self, ident, void=False):
        self.ident = ident
        self.void = void
        self.hits = 0
        self.time = 0.0
        self.kids = []      # [(code index, stats, M)]

    def find(self, i):
        for n, (j, s, m) in enumerate(self.kids):
            if i == j:
                return n
        return None

    def get_time(self):
        if not self.void:
            return self.time
        return sum(m.get_time() for _, _, m in self.kids)


def check(stats, m, what):
    expect_eq((stats.name, stats.filename, stats.lineno, stats.module), m.ident, what + ': identity')
    expect_eq(stats.own_hits, 0 if m.void else m.hits, what + ': own_hits')
    expect_eq(stats.deep_time, m.get_time(), what + ': deep_time')
    expect_eq(len(stats), len(m.kids), what + ': len')
    kids = list(stats)
    expect(len(kids) == len(m.kids) and all(a is s for a, (_, s, _) in zip(kids, m.kids)),
           '%s: iterates over %r, expected %r', what, kids, [s for _, s, _ in m.kids])
    kids = list(stats.children)
    expect(len(kids) == len(m.kids) and all(a is s for a, (_, s, _) in zip(kids, m.kids)),
           '%s: children are %r, expected %r', what, kids, [s for _, s, _ in m.kids])
    for i, code in enumerate(CODES):
        at = m.find(i)
        expect_eq(code in stats, at is not None, '%s: has %r' % (what, IDENT[i]))
        if at is not None:
            expect(stats.get_child(code) is m.kids[at][1], '%s: get_child of %r', what, IDENT[i])
        else:
            raises(KeyError, stats.get_child, code)
    for i, s, c in m.kids:
        check(s, c, what + '/%d' % i)


def raises(etype, f, *args):
    try:
        f(*args)
    except etype:
        return
    expect(False, '%s%r did not raise %s', f, args, etype.__name__)


def run(plan, out):
    profiler = Profiler()
    root = profiler.stats
    model = M(IDENT[-1])
    steps = 0
    for op in plan['ops']:
        name, path, i = op[0], op[1], op[2] % len(CODES)
        # where: follow existing children
        stats, m = root, model
        for step in path:
            if not m.kids:
                break
            _, stats, m = m.kids[step % len(m.kids)]
        code = CODES[i]
        at = m.find(i)
        if at is not None:
            out.tag('present:' + name)
        if name == 'add':
            child = RecordingStatistics(code)
            c = M(IDENT[i])
            child.own_hits = c.hits = op[3]
            stats.add_child(code, child)
            if at is None:
                m.kids.append((i, child, c))
            else:
                m.kids[at] = (i, child, c)
        elif name == 'ensure':
            cls = {0: None, 1: RecordingStatistics, 2: VoidRecordingStatistics}[op[3] % 3]
            child = stats.ensure_child(code) if cls is None else stats.ensure_child(code, cls)
            if at is None:
                void = cls is VoidRecordingStatistics or (cls is None and m.void)
                m.kids.append((i, child, M(IDENT[i], void)))
            else:
                _, old, c = m.kids[at]
                if c.void and cls is RecordingStatistics:
                    # the placeholder is now recorded itself
                    c.time = c.get_time()
                    c.void = False
                    m.kids[at] = (i, child, c)
                    out.tag('promoted')
                else:
                    expect(child is old, 'ensure_child did not return the existing child')
        elif name == 'remove':
            if at is None:
                raises(KeyError, stats.remove_child, code)
            else:
                stats.remove_child(code)
                del m.kids[at]
        elif name == 'discard':
            stats.discard_child(code)
            if at is not None:
                del m.kids[at]
        elif name == 'exclude':
            profiler.exclude_code(code)
            at = model.find(i)
            if at is not None:
                del model.kids[at]
        elif name == 'clear':
            stats.clear()
            m.kids = []
            m.hits, m.time = 0, 0.0
        elif name == 'hits':
            stats.own_hits += op[3]
            m.hits += op[3] if not m.void else 0
        elif name == 'time':
            stats.deep_time += op[3] * prog.UNIT
            m.time += op[3] * prog.UNIT if not m.void else 0
        steps += 1
        check(root, model, 'after %d steps (%s)' % (steps, name))
    out.nontrivial = len(plan['ops']) >= 4
