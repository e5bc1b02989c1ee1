# -*- coding: utf-8 -*-
"""Generated programs.

A program is a list of operations, executed by functions of a pool; every
function runs the operations it is given, so any call tree can be built:

  ['T', n]            n units of work pass (virtual time)
  ['C', i, ops]       call function i with ops
  ['Y', i, ops]       same, catching Boom
  ['X']               raise Boom
  ['G', slot, j, ops] create a generator from generator function j
  ['N', slot]         resume it
  ['V']               (in a generator) yield
  ['S'] ['Q']         start / stop profiling
  ['s']               take a sample of the current frame

`Model` executes the same program without the code under test and predicts
the recorded tree.
"""
import ast
import sys

#: what one unit of work takes; exact in binary floating point
UNIT = 1.0 / 64
#: whether each function is written in one line
LINE = False


def tune(plan):
    global UNIT, LINE
    UNIT = 2.0 ** -(plan or {}).get('unit', 6)
    LINE = bool((plan or {}).get('line'))


def in_one_line(src):
    """The functions as if they were written in one line each."""
    tree = ast.parse(src)
    for func in tree.body:
        for node in ast.walk(func):
            if hasattr(node, 'lineno'):
                node.lineno = node.end_lineno = func.lineno
                node.col_offset = node.end_col_offset = 0
    return tree


class Boom(Exception):
    pass


FUNC = '''
def {name}(ops):
    P(0)
    try:
        for op in ops:
            P(0)
            k = op[0]
            if k == 'T':
                P(op[1])
            elif k == 'C':
                F[op[1]](op[2])
            elif k == 'Y':
                try:
                    F[op[1]](op[2])
                except Boom:
                    pass
            elif k == 'X':
                raise Boom
            elif k == 'G':
                GENS[op[1]] = G[op[2]](op[3])
                ALL.append(GENS[op[1]])
            elif k == 'N':
                g = GENS.get(op[1])
                if g is not None:
                    try:
                        next(g)
                    except (StopIteration, Boom, ValueError):
                        pass
            elif k == 'S':
                START()
            elif k == 'Q':
                STOP()
            elif k == 's':
                SAMPLE(SARG(0))
            elif k in H:
                H[k](op)
            P(0)
    finally:
        P(0)
'''

GEN = '''
def {name}(ops):
    P(0)
    for op in ops:
        P(0)
        k = op[0]
        if k == 'T':
            P(op[1])
        elif k == 'C' or k == 'Y':
            try:
                F[op[1]](op[2])
            except Boom:
                P(0)
                if k == 'C':
                    raise
        elif k == 'X':
            raise Boom
        elif k == 'G':
            GENS[op[1]] = G[op[2]](op[3])
            ALL.append(GENS[op[1]])
        elif k == 'N':
            g = GENS.get(op[1])
            if g is not None:
                try:
                    next(g)
                except (StopIteration, Boom, ValueError):
                    pass
        elif k == 'V':
            yield
        elif k == 'S':
            START()
        elif k == 'Q':
            STOP()
        elif k == 's':
            SAMPLE(SARG(0))
        P(0)
    P(0)
'''

NFUNC = 4
NGEN = 2
#: (name, filename, extra lines before def).  Two pairs share a name and two
#: share a line, but all are distinct functions.
SPECS = [('f', '<pool:a>', 0), ('g', '<pool:a>', 40), ('f', '<pool:b>', 0), ('h', '<pool:b>', 40),
         ('gen', '<pool:a>', 90), ('f', '<pool:c>', 7)]


class Pool(object):
    """The functions of one run."""

    def __init__(self, push, start=None, stop=None, sample=None, hooks=None, sarg=None):
        self.env = {'P': push, 'Boom': Boom, 'F': [], 'G': [], 'GENS': {}, 'ALL': [],
                    'START': start, 'STOP': stop, 'SAMPLE': sample,
                    'SARG': sarg or sys._getframe, 'H': hooks or {}, '__name__': 'pool'}
        self.keys = []
        self.codes = []
        for i, (name, filename, lines) in enumerate(SPECS):
            src = '\n' * lines + (FUNC if i < NFUNC else GEN).format(name=name)
            code = compile(in_one_line(src) if LINE else src, filename, 'exec')
            exec(code, self.env)
            fn = self.env.pop(name)
            (self.env['F'] if i < NFUNC else self.env['G']).append(fn)
            self.codes.append(fn.__code__)
            self.keys.append((name, filename, fn.__code__.co_firstlineno))

    def func(self, i):
        return self.env['F'][i % NFUNC]


def norm(ops, depth=0):
    """Clamps indices so that every generated plan is runnable."""
    res = []
    for op in ops:
        k = op[0]
        if k in ('C', 'Y'):
            res.append([k, op[1] % NFUNC, norm(op[2])])
        elif k == 'G':
            res.append([k, op[1], op[2] % NGEN, norm(op[3])])
        else:
            res.append(list(op))
    return res


class VClock(object):
    """A virtual timer source.  Work is pushed by the program; reading the
    clock costs `costs[i]` units unless the program did something since the
    last reading (so exactly the time the profiler spends between the events
    of the program is charged to the profiler)."""

    def __init__(self, costs=(0,), start=0):
        self.pending = []
        self.push = self.pending.append
        self.now = start
        self.work = 0
        self.costs = list(costs) or [0]
        self.reads = 0

    def __call__(self):
        if self.pending:
            w = sum(self.pending)
            del self.pending[:]
            self.now += w
            self.work += w
        else:
            self.now += self.costs[self.reads % len(self.costs)]
            self.reads += 1
        return self.now * UNIT


class Frame(object):
    __slots__ = ('key', 'session', 't', 'path')

    def __init__(self, key):
        self.key = key
        self.session = None


class Session(object):
    def __init__(self, number, start_stack):
        self.number = number
        self.hits = {}
        self.deep = {}         # path -> units in completed calls (incl. carried)
        self.calls = 0
        self.exc = 0
        self.start_stack = start_stack   # visible path on the stack at start
        self.start_paths = [start_stack]
        self.samples = 0
        self.promoted = 0
        self.stacks = set()

    def derived(self, path):
        """Time of a placeholder: nearest recorded descendants."""
        total = 0
        n = len(path)
        for p, d in self.deep.items():
            if len(p) > n and p[:n] == path and not any(p[:k] in self.hits for k in range(n + 1, len(p))):
                total += d
        return total

    def placeholders(self):
        """Paths on which a node without calls may or must appear."""
        need = set()
        for p in self.hits:
            for k in range(1, len(p)):
                if p[:k] not in self.hits:
                    need.add(p[:k])
        return need


class Model(object):

    def __init__(self, keys, running=True, base=None, ignored=(), sampling=False):
        self.keys = keys
        self.stack = []
        self.w = 0
        self.gens = {}
        self.alive = []
        self.base = base            # pool key that is the base code
        self.ignored = set(ignored)
        self.base_frame = None
        self.ignored_frames = []
        self.sessions = []
        self.cur = None
        self.sampling = sampling
        self.maxdepth = 0
        self.seen_gens = 0
        self.walked_up = False
        if running:
            self.start()

    def is_base(self, frame):
        return frame.key == self.base or frame is self.base_frame

    def is_ignored(self, frame):
        return frame.key in self.ignored or any(frame is f for f in self.ignored_frames)

    # stack -> visible path
    def visible(self, frames):
        res = []
        for frame in reversed(frames):
            if self.is_base(frame):
                break
            if not self.is_ignored(frame):
                res.append(frame.key)
        return tuple(reversed(res))

    def path_of_top(self):
        """Where a call or sample of the top frame is recorded, or None."""
        frames = list(self.stack)
        if self.sampling:
            while frames and self.is_ignored(frames[-1]):
                frames.pop()
                self.walked_up = True
            if not frames:
                return None
        elif self.is_ignored(frames[-1]):
            self.walked_up = True
            return None
        path = self.visible(frames)
        return path if not self.is_base(frames[-1]) else (frames[-1].key,)

    def start(self):
        if self.cur is not None:
            return False
        self.on_start()
        self.cur = Session(len(self.sessions), self.visible(self.stack))
        for k in range(1, len(self.stack)):
            # a return above the base shows its callers
            self.cur.start_paths.append(self.visible(self.stack[:k]))
        self.sessions.append(self.cur)
        return True

    def on_start(self):
        pass

    def stop(self):
        if self.cur is None:
            return False
        self.cur = None
        return True

    def enter(self, key, frame=None):
        f = frame or Frame(key)
        f.session = None
        self.stack.append(f)
        self.maxdepth = max(self.maxdepth, len(self.stack))
        s = self.cur
        if s is not None and not self.sampling:
            path = self.path_of_top()
            if path is not None:
                self.hit(path)
                f.session, f.t, f.path = s.number, self.w, path
                s.calls += 1
        return f

    def hit(self, path):
        s = self.cur
        if path not in s.hits:
            carried = s.derived(path)
            if carried or path == s.start_stack[:len(path)] or any(
                    p[:len(path)] == path for p in s.hits):
                s.promoted += 1
            s.hits[path] = 0
            s.deep[path] = carried
        s.hits[path] += 1

    def leave(self):
        f = self.stack.pop()
        s = self.cur
        if s is not None and f.session == s.number:
            s.deep[f.path] += self.w - f.t

    def sample(self):
        if self.cur is None:
            return
        path = self.path_of_top()
        if path is None:
            return
        self.hit(path)
        self.cur.samples += 1

    def call(self, i, ops):
        self.enter(self.keys[i])
        try:
            self.body(ops)
        except Boom:
            if self.cur is not None:
                self.cur.exc += 1
            raise
        finally:
            self.leave()

    def step(self, op, in_gen=False):
        k = op[0]
        if k == 'T':
            self.w += op[1]
        elif k == 'C':
            self.call(op[1], op[2])
        elif k == 'Y':
            try:
                self.call(op[1], op[2])
            except Boom:
                pass
        elif k == 'X':
            raise Boom
        elif k == 'G':
            self.gens[op[1]] = MGen(self, self.keys[NFUNC + op[2]], op[3])
            self.alive.append(self.gens[op[1]])
        elif k == 'N':
            g = self.gens.get(op[1])
            if g is not None:
                try:
                    g.resume()
                except Boom:
                    pass
        elif k == 'S':
            self.start()
        elif k == 'Q':
            self.stop()
        elif k == 's':
            self.sample()
        elif not in_gen:
            self.other(op)

    def other(self, op):
        pass

    def body(self, ops):
        for op in ops:
            self.step(op)


class MGen(object):

    def __init__(self, model, key, ops):
        self.m = model
        self.key = key
        self.frame = Frame(key)
        self.ops = ops
        self.at = 0
        self.done = False
        self.running = False

    def resume(self):
        if self.done or self.running:
            return
        m = self.m
        m.seen_gens += 1
        m.enter(self.key, self.frame)
        self.running = True
        try:
            while self.at < len(self.ops):
                op = self.ops[self.at]
                self.at += 1
                if op[0] == 'V':
                    return
                m.step(op, True)
            self.done = True
        except Boom:
            self.done = True
            raise
        finally:
            self.running = False
            m.leave()


# ---------------------------------------------------------------------------
# reading the recorded tree through the public interface


class Node(object):
    def __init__(self):
        self.hits = 0
        self.deep = 0.0
        self.stats = []


class Figures(object):
    """What one statistics says at this moment."""

    def __init__(self, stats):
        self.own_hits = stats.own_hits
        self.deep_hits = stats.deep_hits
        self.deep_time = stats.deep_time
        self.own_time = stats.own_time
        self.deep_time_per_call = stats.deep_time_per_call
        self.own_time_per_call = stats.own_time_per_call
        self.sub_time = sum(c.deep_time for c in stats)


def contract(root, keys):
    """{pool path: Node}: nodes of other code are skipped, their pool
    descendants belong to the nearest pool ancestor."""
    keyset = set(keys)
    res = {}
    todo = [(root, ())]
    while todo:
        stats, path = todo.pop()
        for child in stats:
            key = (child.name, child.filename, child.lineno)
            if key in keyset:
                p = path + (key,)
                node = res.get(p)
                if node is None:
                    node = res[p] = Node()
                node.hits += child.own_hits
                node.deep += child.deep_time
                node.stats.append(Figures(child))
            else:
                p = path
            todo.append((child, p))
    return res


def fmt(path):
    return ' > '.join('%s@%s' % (k[0], k[1]) for k in path) or '(root)'


def size(ops):
    n = 0
    for op in ops:
        n += 1
        for x in op[1:]:
            if isinstance(x, list):
                n += size(x)
    return n
