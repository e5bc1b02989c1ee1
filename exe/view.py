# -*- coding: utf-8 -*-
"""Drives a viewer by keys and results, next to a model of what it has to show
(C22: what is on the screen; C23: how it changes)."""
from datetime import datetime
import os
import pickle

import urwid

import c11
import c24
import screen
import trees
from base import expect, expect_eq, Violation

from profiling.profiler import Profiler
from profiling.sampling import SamplingProfiler
from profiling.tracing import TracingProfiler
from profiling.viewer import StatisticsViewer, bind_game_keys, bind_vim_keys, fmt

bind_vim_keys()
bind_game_keys()

CLASSES = {'plain': Profiler, 'tracing': TracingProfiler, 'sampling': SamplingProfiler}
#: title, alignment, width; None: the rest of the row
COLUMNS = {
    'plain': [('FUNCTION', None)],
    'tracing': [('FUNCTION', None), ('CALLS', 6), ('OWN', 6), ('/CALL', 6), ('%', 4), ('DEEP', 6), ('/CALL', 6),
                ('%', 4)],
    'sampling': [('FUNCTION', None), ('OWN', 6), ('%', 4), ('DEEP', 6), ('%', 4)],
}
LEFT = {'%'}
#: the sortable columns, and the one the table starts with
SORTABLE = {'plain': [0], 'tracing': [0, 1, 2, 3, 5, 6], 'sampling': [0, 1, 3]}
FIRST = {'plain': 0, 'tracing': 5, 'sampling': 3}
ALIASES = {'h': 'left', 'j': 'down', 'k': 'up', 'l': 'right', 'a': 'left', 's': 'down', 'w': 'up', 'd': 'right',
           'enter': ' '}
NESTED, FLAT = 'nested', 'flat'


def key_of(stats):
    return (stats.name, stats.filename, stats.lineno)


class Flat(object):
    """Statistics summed by function."""
    own_hits = deep_hits = 0
    own_time = deep_time = 0.0

    def __init__(self, stats, of=()):
        self.name, self.filename, self.lineno, self.module = stats.name, stats.filename, stats.lineno, stats.module
        self.add(stats)
        self.of = list(of)

    def add(self, stats):
        self.own_hits += stats.own_hits
        self.deep_hits += stats.deep_hits
        self.own_time += stats.own_time
        self.deep_time += stats.deep_time

    @property
    def own_time_per_call(self):
        return self.own_time / self.own_hits if self.own_hits else 0.0

    @property
    def deep_time_per_call(self):
        return self.deep_time / self.own_hits if self.own_hits else 0.0

    def __iter__(self):
        return iter(self.of)

    def __len__(self):
        return len(self.of)

    def sorted(self, order):
        return sorted(self.of, key=order)


def flatten(root):
    found = {}
    queue = list(root)
    for s in queue:
        queue.extend(s)
        key = (s.name, s.filename, s.lineno, s.module)
        if key in found:
            found[key].add(s)
        else:
            found[key] = Flat(s)
    return Flat(root, found.values())


class Result(object):

    def __init__(self, plan):
        tree = plan['tree']
        if plan['live']:
            self.stats, _ = trees.recording(tree)
        else:
            self.stats = trees.frozen(tree)
        if plan['live'] == 'pickled':
            self.stats = pickle.loads(pickle.dumps(self.stats))
        self.cpu, self.wall = plan['cpu'], plan['wall']
        self.title = plan['title']
        self.at = datetime(2020, 1, 1, *plan['at']) if plan['at'] else None
        self.flat = None

    def root(self, layout):
        if layout == FLAT:
            if self.flat is None:
                self.flat = flatten(self.stats)
            return self.flat
        return self.stats


class Model(object):

    def __init__(self):
        self.paused = self.active = False
        self.shown = self.latest = None
        self.header = None
        self.table('plain')

    def table(self, kind):
        self.kind = kind
        self.expanded = set()
        self.order = FIRST[kind]
        self.layout = NESTED
        self.result = None
        self.header = None
        self.focus = []

    def sorted(self, stats):
        table = CLASSES[self.kind].table_class
        res = stats.sorted(table.columns[self.order][3])
        doc = c11.DOC[c11.COLUMNS[table][self.order]]
        vals = [v for v in map(doc, res) if v is not None]
        expect_eq(vals, sorted(vals), 'order of the column %s' % COLUMNS[self.kind][self.order][0])
        return res

    def rows(self):
        """[(path, stats, depth, mark)]; a path is a list of functions"""
        res = []
        if self.result is None:
            return res

        def walk(stats, path):
            for s in self.sorted(stats):
                p = path + [key_of(s)]
                n = len(s)
                open_ = key_of(s) in self.expanded
                res.append((p, s, ' ' if not n else '-' if open_ else '+'))
                if n and open_:
                    walk(s, p)
        walk(self.result.root(self.layout), [])
        return res

    def find(self, path):
        """The node of the longest known part of the path."""
        node, got = self.result.root(self.layout), []
        for k in path:
            for s in node:
                if key_of(s) == k:
                    node = s
                    got.append(k)
                    break
            else:
                break
        return got, node

    def refresh(self):
        if self.result is None:
            return
        self.focus = self.find(self.focus)[0]
        self.update_header()

    def update_header(self):
        if not self.paused and self.result is not None:
            self.header = self.result

    def set_result(self, r):
        self.latest = r
        if not self.paused:
            self.result = r
            self.refresh()

    def pause(self):
        if not self.paused:
            self.paused = True
            return
        self.paused = False
        if self.latest is not None:
            self.result = self.latest
            self.refresh()

    def key(self, key):
        """Returns alternatives for the focus, or None when it is free."""
        key = ALIASES.get(key, key)
        rows = self.rows()
        at = next((i for i, r in enumerate(rows) if r[0] == self.focus), None)
        leaf = at is not None and rows[at][2] == ' '
        mark = None if at is None else rows[at][2]
        me = self.focus[-1] if self.focus else None
        if key == ' ':
            self.pause()
        elif key in '[]':
            orders = SORTABLE[self.kind]
            i = orders.index(self.order) + (1 if key == ']' else -1)
            self.order = orders[i % len(orders)]
            self.refresh()
        elif key == '\\':
            self.layout = FLAT if self.layout == NESTED else NESTED
            self.refresh()
        elif key == 'esc' or key == 'home':
            self.focus = []
        elif self.result is None:
            pass
        elif key == '>':
            path, node = self.find(self.focus)
            while len(node):
                if path:
                    self.expanded.add(path[-1])
                node = self.sorted(node)[0]
                path = path + [key_of(node)]
            self.focus = path
        elif key == 'end':
            if rows:
                self.focus = rows[-1][0]
        elif key == 'down':
            if at is None:
                self.focus = rows[0][0] if rows else []
            elif at + 1 < len(rows):
                self.focus = rows[at + 1][0]
        elif key == 'up':
            if at:
                self.focus = rows[at - 1][0]
        elif key in ('page up', 'page down'):
            return None
        elif key in ('left', 'right') and self.layout == FLAT:
            pass
        elif key == 'right' or key == '+':
            if at is None:
                if key == 'right' and rows:
                    self.focus = rows[0][0]
            elif mark == '+':
                self.expanded.add(me)
            elif mark == '-' and key == 'right':
                self.focus = rows[at + 1][0]
        elif key == 'left' or key == '-':
            if at is None:
                pass
            elif mark == '-':
                self.expanded.discard(me)
            elif mark == '+':
                if key == '-':
                    self.expanded.discard(me)
                elif len(self.focus) > 1:
                    self.focus = self.focus[:-1]
            elif len(self.focus) > 1:
                # a leaf folds its parent
                self.focus = self.focus[:-1]
                self.expanded.discard(self.focus[-1])
            else:
                # there is nothing above
                pass
        return [self.focus]


def figures(model, stats):
    """What the cells of a row say: [(text, attr)]."""
    root = model.result.root(model.layout)
    if model.kind == 'plain':
        return []
    judge(model, stats, root)
    if model.kind == 'sampling':
        total = root.deep_hits
        return [fmt.markup_int_or_na(stats.own_hits), fmt.markup_percent(stats.own_hits, total),
                fmt.markup_int_or_na(stats.deep_hits), fmt.markup_percent(stats.deep_hits, total)]
    cpu = model.result.cpu
    return [fmt.markup_int_or_na(stats.own_hits),
            fmt.markup_time(stats.own_time), fmt.markup_time(stats.own_time_per_call),
            fmt.markup_percent(stats.own_time, cpu),
            fmt.markup_time(stats.deep_time), fmt.markup_time(stats.deep_time_per_call),
            fmt.markup_percent(stats.deep_time, cpu)]


judged = set()


def judge(model, stats, root):
    """The formatter says the figures."""
    if model.kind == 'sampling':
        times, ratios = [], [(stats.own_hits, root.deep_hits), (stats.deep_hits, root.deep_hits)]
        counts = [stats.own_hits, stats.deep_hits]
    else:
        cpu = model.result.cpu
        times = [stats.own_time, stats.own_time_per_call, stats.deep_time, stats.deep_time_per_call]
        ratios = [(stats.own_time, cpu), (stats.deep_time, cpu)]
        counts = [stats.own_hits]
    for f, args in ([(c24.seconds, (v,)) for v in times] + [(c24.count, (n, True)) for n in counts] +
                    [(c24.percent, r + (False,)) for r in ratios]):
        if (f, args) not in judged:
            f(*args)
            judged.add((f, args))


def attrs_of(runs):
    res = []
    for attr, text in runs:
        res.extend([attr] * len(text))
    return res


class Page(object):
    """What is on the screen."""

    def __init__(self, widget, size):
        self.size = size
        rows = screen.rows(widget, size)
        self.all = rows
        i = next((i for i, (text, runs) in enumerate(rows)
                  if any(a and a.startswith('thead') for a, t in runs)), None)
        expect(i is not None, 'no column titles on the screen')
        self.header = rows[:i]
        self.thead = rows[i]
        body = rows[i + 1:]
        while body and not body[-1][0].strip():
            body.pop()
        self.top = i + 1
        while body and not body[0][0].strip() and not any(a for a, _ in body[0][1]):
            body.pop(0)
            self.top += 1
        self.body = body

    def focused(self):
        return [i for i, (text, runs) in enumerate(self.body) if any(a == 'focus' for a, _ in runs)]


def check_header(model, page, problem):
    text = '\n'.join(t.rstrip() for t, _ in page.header)
    r = model.header
    if r is None:
        if text.strip():
            problem('C22', 'a header is shown without a result: %r', text)
        return
    usage = r.cpu / r.wall if r.wall else 0.0
    left = 'CPU %s (%s/%s)' % (fmt.format_percent(usage, unit=True), fmt.format_time(r.cpu), fmt.format_time(r.wall))
    right = ' '.join(x for x in [r.title, r.at.strftime('%H:%M:%S') if r.at else None] if x)
    words = text.split()
    if not (text.startswith(left) and ''.join(words) == ''.join((left + right).split())):
        problem('C22', 'the header is %r, expected %r and %r', text, left, right)
    if len(page.header) == 1 and right and not text.endswith(right):
        problem('C22', 'the header is %r, expected it to end with %r', text, right)


def layout_of(kind, width):
    """[(start, end)] of the columns right of the function."""
    cols = COLUMNS[kind][1:]
    pos = width - sum(w + 1 for _, w in cols)
    res = []
    for _, w in cols:
        res.append((pos + 1, pos + 1 + w))
        pos += w + 1
    return res


def check_thead(model, page, width, problem):
    text, runs = page.thead
    base = 'thead.paused' if model.paused else 'thead' if model.active else 'thead.inactive'
    attrs = attrs_of(runs)
    spans = [(0, None)] + layout_of(model.kind, width)
    spans[0] = (0, spans[1][0] - 1 if len(spans) > 1 else width)
    for i, ((a, b), (title, w)) in enumerate(zip(spans, COLUMNS[model.kind])):
        got = text[a:b]
        if got.strip() != title:
            problem('C22', 'the title of column %d is %r, expected %r', i, got, title)
            return
        want = base + '.sorted' if i == model.order else base
        at = set(attrs[a + j] for j, ch in enumerate(got) if ch != ' ')
        if at != {want} and model.result is not None:
            problem('C23', 'the title %s is shown as %s, expected %s', title, sorted(map(str, at)), want)


def check_row(model, row, path, stats, mark, width, problem):
    text, runs = row
    focus = any(a == 'focus' for a, _ in runs)
    attrs = attrs_of(runs)
    indent = len(path) - 1
    spans = layout_of(model.kind, width)
    end = spans[0][0] - 1 if spans else width
    if text[:indent].strip() or text[indent:indent + 1] != mark or text[indent + 1:indent + 2] != ' ':
        problem('C22', 'row %r: expected the mark %r after %d spaces', text, mark, indent)
        return
    place = stats.module or stats.filename
    want = '%s (%s:%s)' % (stats.name, place, stats.lineno) if stats.name else place
    got = text[indent + 2:end]
    if want[:end - indent - 2].rstrip() != got.rstrip():
        problem('C22', 'row %r: expected the function %r', text, want)
        return
    if not focus:
        split = len(stats.name or '')
        for j, ch in enumerate(got[:len(want)]):
            if ch != ' ':
                a = 'name' if j < split else 'loc'
                if attrs[indent + 2 + j] != a:
                    problem('C22', 'row %r: %r is shown as %r, expected %r', text, ch, attrs[indent + 2 + j], a)
                    return
    for (a, b), (attr, cell), (title, w) in zip(spans, figures(model, stats), COLUMNS[model.kind][1:]):
        got = text[a:b]
        ok = got == cell.rjust(w) if len(cell) <= w else got.strip() in cell
        if not ok:
            problem('C22', 'row %r: %s shows %r, expected %r', text, title, got, cell)
            return
        if not focus and set(attrs[a + j] for j, ch in enumerate(got) if ch != ' ') - {attr}:
            problem('C22', 'row %r: %s %r is shown as %r, expected %r', text, title, got,
                    attrs[a:b], attr)
            return


def check_page(model, page, exact, problem):
    """exact: rows are what the model says; otherwise their marks are believed.
    Returns the rows shown."""
    width = page.size[0] - 1
    check_header(model, page, problem)
    check_thead(model, page, width, problem)
    if model.result is None:
        if [t.strip() for t, _ in page.body if t.strip()] not in (['- Not Available -'], []):
            problem('C22', 'without a result there are the rows %r', [t for t, _ in page.body])
        return []
    room = page.size[1] - len(page.header) - 1
    if exact:
        rows = model.rows()
    else:
        rows = believe(model, page, problem)
        if rows is None:
            return []
    body = page.body
    start = 0
    if len(rows) > room:
        # part of the rows
        if len(body) != room:
            problem('C22', '%d of %d rows are shown, there is room for %d', len(body), len(rows), room)
            return []
        if exact and body:
            texts = [r[0] for r in body]
            options = [i for i in range(len(rows) - room + 1)
                       if all(same(t, rows[i + j]) for j, t in enumerate(texts))]
            if not options:
                problem('C23', 'the rows are %r, expected a part of %r', texts, [show(r) for r in rows])
                return []
            start = options[0]
    elif len(body) != len(rows) or not all(same(b[0], r) for b, r in zip(body, rows)):
        problem('C23' if exact else 'C22', 'the rows are %r, expected %r', [b[0].rstrip() for b in body],
                [show(r) for r in rows])
        return []
    shown = rows[start:start + len(body)]
    for b, (path, stats, mark) in zip(body, shown):
        check_row(model, b, path, stats, mark, width, problem)
    return shown


def show(row):
    return ' ' * (len(row[0]) - 1) + row[2] + ' ' + (row[1].name or row[1].module or row[1].filename)


def same(text, row):
    path, stats, mark = row
    n = len(path) - 1
    return text[:n].strip() == '' and text[n:n + 1] == mark and text[n + 2:].startswith(
        (stats.name or stats.module or stats.filename)[:10])


def believe(model, page, problem):
    """The rows in the order of the statistics, with the marks on the screen.
    Needs a screen which shows all."""
    res = []
    body = page.body

    def walk(stats, path):
        for s in model.sorted(stats):
            p = path + [key_of(s)]
            n = len(p) - 1
            if len(res) >= len(body):
                raise Violation('row %r is missing' % (show((p, s, '?')),))
            text = body[len(res)][0]
            mark = text[n:n + 1]
            if mark not in ('+-' if len(s) else ' ') or mark == '':
                raise Violation('row %r: the mark of %s with %d sub calls is %r' % (text, s.name, len(s), mark))
            res.append((p, s, mark))
            if mark == '-':
                walk(s, p)
    try:
        walk(model.result.root(model.layout), [])
    except Violation as exc:
        problem('C22', '%s', exc)
        return None
    if len(res) < len(body):
        problem('C22', 'surplus row %r', body[len(res)][0])
        return None
    return res


class Session(object):

    def __init__(self, plan, out, focus):
        self.plan = plan
        self.out = out
        self.prop = focus
        self.viewer = StatisticsViewer()
        self.model = Model()
        self.exact = plan['exact']
        self.size = (plan['cols'], plan['rows'])
        self.many = 0

    def problem(self, prop, fmt_, *args):
        if prop == self.prop:
            raise Violation(fmt_ % args if args else fmt_)

    def check(self, what, foci):
        page = Page(self.viewer.widget, self.size)
        m = self.model
        rows = check_page(m, page, self.exact, self.problem)
        self.page, self.lines = page, rows
        at = page.focused()
        if m.result is None:
            return
        if len(at) > 1:
            self.problem('C23', '%d rows have the focus', len(at))
            return
        if at and at[0] >= len(rows):
            return
        got = rows[at[0]][0] if at else []
        if foci is not None and got not in foci:
            self.problem('C23', '%s: the focus is at %r, expected %r', what, got, foci[0])
        if foci is None or self.exact or got in foci:
            m.focus = got
        if not self.exact:
            m.focus = got
        if at and len(rows) > 1:
            self.out.tag('focus')
        self.many = max(self.many, len(rows))

    def step(self, op):
        m, v = self.model, self.viewer
        k = op[0]
        foci = [m.focus]
        if k == 'key':
            self.sync()
            foci = m.key(op[1])
            res = v.widget.keypress(self.size, op[1])
            if ALIASES.get(op[1], op[1]) in ('[', ']', '>', '\\', ' ', 'esc') and op[1] != 'enter':
                if isinstance(res, str):
                    self.problem('C23', 'the key %r is not handled', op[1])
            if op[1] in ('q', 'Q', 'x', 'f5'):
                if res != op[1]:
                    self.problem('C23', 'the key %r is swallowed', op[1])
                quits = False
                try:
                    v.unhandled_input(op[1])
                except urwid.ExitMainLoop:
                    quits = True
                if quits != (op[1] in 'qQ'):
                    self.problem('C23', 'the key %r: quits: %s', op[1], quits)
        elif k == 'result':
            r = Result(op[1])
            self.sync()
            m.set_result(r)
            v.set_result(r.stats, r.cpu, r.wall, r.title, r.at)
            foci = [m.focus]
        elif k == 'class':
            if op[1] != m.kind:
                m.table(op[1])
            v.set_profiler_class(CLASSES[op[1]])
            foci = [m.focus]
        elif k == 'active':
            m.active = op[1]
            (v.activate if op[1] else v.inactivate)()
        elif k == 'mouse':
            foci = self.mouse(*op[1:])
        elif k == 'size':
            self.size = (op[1], op[2])
        self.check(repr(op[:1] + [o for o in op[1:] if not isinstance(o, dict)]), foci)

    def mouse(self, event, button, x, y):
        m, v = self.model, self.viewer
        i = y % (len(self.page.body) + 1)
        row = self.page.top + i
        at = self.lines[i] if i < len(self.lines) else None
        if x < 0 and at:
            # the mark
            x = len(at[0]) - 1
        x %= self.size[0] - 1
        foci = [m.focus]
        if at and 'mouse press' in event and m.result is not None:
            if button == 1:
                m.focus, foci = at[0], [at[0]]
                if event == 'mouse press' and x == len(at[0]) - 1 and at[2] != ' ':
                    self.out.tag('mark')
                    (m.expanded.discard if at[2] == '-' else m.expanded.add)(at[0][-1])
            elif button in (4, 5):
                foci = m.key('up' if button == 4 else 'down')
        self.sync()
        if row < self.size[1]:
            v.widget.mouse_event(self.size, event, button, x, row, True)
        else:
            foci = [m.focus]
        return foci

    def sync(self):
        """Takes over what is expanded from the screen."""
        if self.exact:
            return
        m = self.model
        m.expanded = set()


def run(plan, out, prop):
    s = Session(plan, out, prop)
    s.check('at first', [[]])
    for op in plan['ops']:
        s.step(op)
        if op[0] == 'key':
            out.tag('key ' + op[1])
        else:
            out.tag(op[0])
    out.nontrivial = s.many >= 4
