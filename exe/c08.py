# -*- coding: utf-8 -*-
import importlib
import os
import pickle
import sys

import trees
from base import expect, expect_eq, Violation
from profiling.stats import FrozenStatistics, RecordingStatistics

SCRATCH = os.environ.get('VERIF_SCRATCH') or '/tmp'


class Unpickler(pickle._Unpickler):
    """Knows the statistics classes only."""
    used = ()

    def find_class(self, module, name):
        if not (module.split('.')[0] in ('profiling', 'copyreg', 'copy_reg') or
                module in ('builtins', '__builtin__')):
            raise Violation('loading needs %s.%s' % (module, name))
        return pickle._Unpickler.find_class(self, module, name)


def compare(got, want, what):
    g, w = trees.shape(got), want
    expect_eq(len(g), len(w), what + ': number of statistics')
    for i, (a, b) in enumerate(zip(g, w)):
        expect_eq(a, b, '%s: statistics %d (parent, members)' % (what, i))


def run(plan, out):
    tree = trees.expand(plan['tree'])
    kind = plan['kind']
    if isinstance(plan['tree'], dict) and kind in ('recording', 'module') and plan['part'] % 4:
        # the module of a code is slow to find
        kind = 'frozen'
    modname = None
    if kind == 'recording':
        stats, tree = trees.recording(tree)
    elif kind == 'module':
        # codes of a real module which is gone when the result is loaded
        modname = 'c08_profiled'
        path = os.path.join(SCRATCH, modname + '.py')
        if not os.path.exists(path):
            with open(path, 'w') as f:
                f.write(''.join('def f%d():\n    pass\n' % i for i in range(8)))
        sys.path.insert(0, SCRATCH)
        try:
            sys.modules.pop(modname, None)
            importlib.invalidate_caches()
            mod = importlib.import_module(modname)
        finally:
            sys.path.remove(SCRATCH)
        stats = RecordingStatistics()
        todo = [(tree, stats)]
        while todo:
            n, s = todo.pop()
            for i, c in enumerate(n[1][:8]):
                child = s.ensure_child(getattr(mod, 'f%d' % i).__code__, RecordingStatistics)
                child.own_hits, child.deep_time = c[0][4:6]
                todo.append((c, child))
    else:
        stats = trees.frozen(tree, kind == 'plain-leaves')
    want = trees.shape(stats)
    if modname:
        expect(all(k[1][3] == modname for k in want[1:]), 'module of a code not known: %r', want)
    figures = [(s.deep_hits, s.own_time, s.deep_time_per_call, s.own_time_per_call, s.regular_name)
               for s in stats] if len(want) < 200 else None
    protocol = plan['protocol'] % (pickle.HIGHEST_PROTOCOL + 1)
    data = pickle.dumps(stats, protocol)
    if len(want) < 200:
        compare(stats, want, 'the pickled statistics itself')
    if modname:
        sys.modules.pop(modname, None)
        del mod
    import io
    if plan['restricted']:
        frozen = Unpickler(io.BytesIO(data)).load()
    else:
        frozen = pickle.loads(data)
    compare(frozen, want, 'protocol %d' % protocol)
    queue = [frozen]
    for s in queue:
        expect(isinstance(s, FrozenStatistics), 'not frozen: %r', type(s))
        expect_eq(len(s), len(list(s)), 'len')
        queue.extend(s)
    if figures is not None:
        expect_eq([(s.deep_hits, s.own_time, s.deep_time_per_call, s.own_time_per_call, s.regular_name)
                   for s in frozen], figures, 'derived figures')
    p2 = plan['again'] % (pickle.HIGHEST_PROTOCOL + 1)
    compare(pickle.loads(pickle.dumps(frozen, p2)), want, 'pickled again with protocol %d' % p2)
    # a part of the tree can be pickled by itself
    if len(want) > 1 and len(want) < 200:
        part = queue[1 + plan['part'] % (len(queue) - 1)]
        compare(pickle.loads(pickle.dumps(part, protocol)), trees.shape(part), 'part')
    # editing the copy does not touch the original
    frozen.own_hits = -1
    frozen.children.append(FrozenStatistics('x'))
    if not modname and len(want) < 200:
        compare(stats, want, 'original after editing the copy')
    out.tag(kind, 'protocol%d' % protocol)
    if len(want) > 900:
        out.tag('deep' if 'chain' in plan['tree'] else 'wide')
    out.nontrivial = len(want) >= 4
