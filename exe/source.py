# -*- coding: utf-8 -*-
"""Renders generated programs as Python source, and runs them for reference."""
import os
import sys
import threading

HEAD = '''
import os, sys

class Oops(Exception):
    pass

class Hard(BaseException):
    pass

def effect(what):
    with open(os.path.join(WHERE, 'effects'), 'a') as f:
        f.write('%s\\n' % (what,))

'''


def render(stmts, ind, names, out):
    pad = '    ' * ind
    if not stmts:
        out.append(pad + 'pass')
    for s in stmts:
        k = s[0]
        if k == 'call':
            if s[1] < len(names):
                out.append(pad + names[s[1]] + '()')
            else:
                out.append(pad + '(lambda: None)()')
        elif k == 'rec':
            out.append(pad + 'down(%d)' % s[1])
        elif k == 'print':
            out.append(pad + 'print(%r)' % ('out %d' % s[1]))
        elif k == 'err':
            out.append(pad + 'sys.stderr.write(%r)' % ('err %d\n' % s[1]))
        elif k == 'effect':
            out.append(pad + 'effect(%r)' % s[1])
        elif k == 'argv':
            out.append(pad + 'effect(("argv", sys.argv[1:], os.path.basename(sys.argv[0])))')
        elif k == 'who':
            out.append(pad + 'effect((__name__, os.path.basename(globals().get("__file__", "none")), __package__, __doc__))')
        elif k == 'path':
            out.append(pad + 'effect(("first", os.path.abspath(os.path.join(WHERE, sys.path[0]))'
                       '.startswith(os.path.abspath(WHERE))))')
        elif k == 'names':
            out.append(pad + 'effect(sorted(n for n in globals() if not n.startswith("__")))')
        elif k == 'import':
            out.append(pad + 'import helper%d' % (s[1] % 2))
            out.append(pad + 'effect(helper%d.tell(%d))' % (s[1] % 2, s[1]))
        elif k == 'chdir':
            out.append(pad + 'os.chdir(os.path.join(WHERE, "elsewhere"))')
        elif k == 'raise':
            out.append(pad + 'raise ' + EXC[s[1]])
        elif k == 'try':
            out.append(pad + 'try:')
            render(s[1], ind + 1, names, out)
            out.append(pad + 'except Oops as exc:')
            out.append(pad + '    effect(repr(exc))')
            out.append(pad + 'finally:')
            out.append(pad + '    effect("finally")')
        elif k == 'gen':
            out.append(pad + 'effect(list(count(%d)))' % s[1])
        elif k == 'cls':
            out.append(pad + 'Thing(%d).method()' % s[1])
        elif k == 'comp':
            out.append(pad + 'effect([effect(x) for x in range(%d)])' % s[1])
        elif k == 'thread':
            name = names[s[1]] if s[1] < len(names) else 'Thing'
            out.append(pad + 'run_in_thread(%s)' % name)
        elif k == 'loop':
            out.append(pad + 'for _ in range(%d):' % s[1])
            render(s[2], ind + 1, names, out)
        elif k == 'global':
            out.append(pad + 'globals()[%r] = %d' % ('var%d' % s[1], s[1]))
        else:
            raise KeyError(k)


EXC = ['Oops("raised")', 'Hard("hard")', 'SystemExit(3)', 'SystemExit("message")', 'KeyboardInterrupt()', 'SystemExit()',
       'ValueError("value")', 'GeneratorExit()', 'StopIteration()', 'SystemExit(0)']

COMMON = '''
def down(n):
    if n:
        down(n - 1)

def count(n):
    for i in range(n):
        yield i

class Thing(object):

    def __init__(self, n=1):
        self.n = n

    def method(self):
        return self.other() if self.n else None

    def other(self):
        effect(self.n)

def run_in_thread(f):
    import threading
    def target():
        try:
            f()
        except BaseException as exc:
            effect(type(exc).__name__)
    t = threading.Thread(target=target)
    t.start()
    t.join()

'''

HELPER = '''# -*- coding: utf-8 -*-
def tell(n):
    return inner(n)

def inner(n):
    return 'helper%d tells %%d' %% n

LOADED = tell(-1)
'''


def program(plan, where):
    """The source of a program; where: the directory of its effects."""
    out = [] if plan.get('doc') is None else ['%r' % plan['doc']]
    out.append(HEAD.replace('WHERE', repr(where)) + COMMON.replace('WHERE', repr(where)))
    n = len(plan['funcs'])
    names = ['f%d' % i for i in range(n)]
    for i in reversed(range(n)):
        out.append('def f%d():' % i)
        # calls go to later functions only
        render(plan['funcs'][i], 1, names[i + 1:], out)
        out.append('')
    render(plan['main'], 0, names, out)
    return '\n'.join(out).replace('WHERE', repr(where)) + '\n'


def lay(where):
    """Files beside the program."""
    for i in range(2):
        with open(os.path.join(where, 'helper%d.py' % i), 'w') as f:
            f.write(HELPER % i)


class Recorder(object):
    """Counts the calls of a program by their path."""

    def __init__(self, files, base):
        self.files = files
        self.base = base
        self.hits = {}
        self.seen = {}

    def key(self, code):
        return os.path.basename(code.co_filename), code.co_name, code.co_firstlineno

    def profile(self, frame, event, arg):
        if event != 'call' or os.path.basename(frame.f_code.co_filename) not in self.files:
            return
        path = []
        f = frame
        while f is not None and not (f.f_code is self.base and path):
            if os.path.basename(f.f_code.co_filename) in self.files:
                path.append(self.key(f.f_code))
            f = f.f_back
        path = tuple(reversed(path))
        self.hits[path] = self.hits.get(path, 0) + 1

    def run(self, code, globals_):
        threading.setprofile(self.profile)
        sys.setprofile(self.profile)
        try:
            exec(code, globals_)
        except BaseException as exc:
            return exc
        finally:
            sys.setprofile(None)
            threading.setprofile(None)


def hits_of(stats, files):
    """Calls by their path, other files than the program's left out."""
    res = {}
    todo = [(stats, ())]
    while todo:
        s, path = todo.pop()
        for c in s:
            p = path
            if os.path.basename(c.filename or '') in files:
                p += ((os.path.basename(c.filename), c.name or '<module>', c.lineno),)
                if c.own_hits:
                    res[p] = res.get(p, 0) + c.own_hits
            todo.append((c, p))
    return res


def filenames(stats):
    res, todo = set(), [stats]
    while todo:
        s = todo.pop()
        res.add(s.filename)
        todo.extend(s)
    return res
