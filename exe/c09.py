# -*- coding: utf-8 -*-
from datetime import datetime
import os
import pickle
import shutil
import sys
import tempfile

import clocks
import urwid

import trees
from base import expect, expect_eq
from c01 import IdleSampler, VTimer
import screen

from profiling.__main__ import cli
from profiling.profiler import ProfilerWrapper
from profiling.remote.background import BackgroundProfiler
from profiling.sampling import SamplingProfiler
from profiling.tracing import TracingProfiler


class CustomProfiler(TracingProfiler):
    """A profiler of the user."""


class CustomWrapper(ProfilerWrapper):
    """A wrapper of the user."""


WRAPPERS = [ProfilerWrapper, BackgroundProfiler, CustomWrapper]


def run(plan, out):
    now = [1000.0, 50.0]
    path = list(sys.path)
    clocks.set_wall(lambda: now[0])
    clocks.set_cpu(lambda: now[1])
    d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH') or None)
    try:
        check(plan, out, now, d)
    finally:
        clocks.reset()
        sys.path[:] = path
        shutil.rmtree(d)


def result_of(p):
    stats, cpu, wall = p.result()
    return trees.shape(stats), cpu, wall


def check(plan, out, now, d):
    kind = plan['kind']
    if kind == 'sampling':
        p = SamplingProfiler(sampler=IdleSampler())
    else:
        p = (CustomProfiler if kind == 'custom' else TracingProfiler)(timer=VTimer(lambda: 0.0))
    empty = plan['tree'] is None
    running = plan['running'] and kind == 'sampling' and not plan['never']
    if not plan['never']:
        p.start()
        now[0] += plan['wall']
        now[1] += plan['cpu']
        if not running:
            p.stop()
    if plan['later']:
        now[0] += 7.5
        now[1] += 3.25
    if not empty:
        for child in [plan['tree']]:
            trees.recording([[None] * 4 + [0, 0.0], [child]], p.stats)
    table = p.table_class
    want = type(p)
    # what wraps a profiler is one, and stands for it
    for i in plan.get('wrap') or ():
        p = WRAPPERS[i](p)
        out.tag('wrapped')
    before = result_of(p)
    path = os.path.join(d, plan['name'])
    protocol = plan['protocol'] % (pickle.HIGHEST_PROTOCOL + 1)
    if os.path.exists(path):
        os.remove(path)
    if plan['overwrite']:
        with open(path, 'wb') as f:
            f.write(b'x' * 100000)
    if plan['default']:
        p.dump(path)
    else:
        p.dump(path, protocol)
    expect_eq(p.is_running(), running, 'running after dump')
    expect_eq(result_of(p), before, 'the result after dumping')
    with open(path, 'rb') as f:
        data = f.read()
    cls, (stats, cpu, wall) = pickle.loads(data)
    expect(cls is want, 'profiler class in the file: %r', cls)
    expect_eq((trees.shape(stats), cpu, wall), before, 'the result in the file')
    if not plan['default']:
        import pickletools
        protos = [op[1] for op in pickletools.genops(data) if op[0].name == 'PROTO']
        expect_eq(protos[0] if protos else None, protocol if protocol >= 2 else None, 'protocol of the file')
    # the view command
    mtime = plan['mtime']
    os.utime(path, (mtime, mtime))
    clocks.reset()
    size = (plan['cols'], 40)
    seen = []

    def show(loop):
        # scripted keys, on the widget the loop would show
        w = loop.widget
        pages = [screen.rows(w, size)]
        for key in plan['keys']:
            w.keypress(size, key)
            pages.append(screen.rows(w, size))
        seen.append(pages)
    with screen.Loop(show):
        cli(['view', path] + (['--mono'] if plan['mono'] else []), standalone_mode=False,
            prog_name='profiling')
    expect_eq(len(seen), 1, 'viewers shown')
    if not running:
        viewer = p.make_viewer(title=os.path.basename(path), at=datetime.fromtimestamp(mtime))

        class L(object):
            widget = viewer.widget
        show(L)
        for a, b in zip(*seen):
            expect_eq([t for t, _ in a], [t for t, _ in b], 'rows of the view command')
            expect_eq(a, b, 'attributes of the view command')
    text = '\n'.join(t for t, _ in seen[0][0])
    for col in table.columns:
        expect(col[0] in text, 'column %s is not shown', col[0])
    expect('%s' % datetime.fromtimestamp(mtime).strftime('%H:%M:%S') in text, 'time not shown: %r', text)
    out.tag(kind, 'protocol%d' % protocol if not plan['default'] else 'default-protocol')
    if running:
        out.tag('running')
    out.nontrivial = len(before[0]) >= 3
