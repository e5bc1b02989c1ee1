#!/usr/bin/env python3
"""Takes back each repair in a copy and lets the checks of its properties find the defect again.

unfix.py [COMMIT...]      the minimal cases become corpus/CNN/COMMIT.json
"""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


#: Repairs which later ones touched: what takes them back.
EDITS = {
    'e9b96e8': [('profiling/profiler.py', """        if not self.is_running():
            self._cpu_time_started""", """        if True:
            self._cpu_time_started""")],
    'eced739': [('profiling/sampling/samplers.py', 'if self._profiler is profiler:', 'if True:'),
                ('profiling/tracing/__init__.py', ' or not self._recording:', ':')],
    '8c9f833': [('profiling/tracing/timers.py', 'settrace(prev_trace)', 'settrace(None)')],
    '8f14337': [('profiling/remote/__init__.py', 'if exc.errno not in (EAGAIN, EWOULDBLOCK, EINTR):', 'if True:')],
    'eb28e93': [('profiling/remote/__init__.py', """                except socket.error:
                    closed_clients.append(client)""", """                except socket.error as exc:
                    if exc.errno == 32:
                        closed_clients.append(client)"""),
                ('profiling/remote/__init__.py', """        except socket.error:
            self.disconnected(client)
            return""", """        except socket.error as exc:
            if exc.errno not in (9, 32):
                raise
            self.disconnected(client)
            return""")],
    'f716c82': [('profiling/__main__.py', "tree = ast.parse('for __i__ in __it__: pass')",
                 "code = compile('for __i__ in __it__: ' + stmt, 'STATEMENT', 'exec')"),
                ('profiling/__main__.py', """    tree.body[0].body = ast.parse(stmt).body or tree.body[0].body
    code = compile(tree, 'STATEMENT', 'exec')
""", '')],
    '4ccd14c': [('profiling/__main__.py', 'sys.path.insert(0, os.path.dirname(', 'os.path.exists((')],
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def unfix(commit, props):
    w = tempfile.mkdtemp(prefix='unfix-', dir='/var/tmp')
    try:
        repo, verif = os.path.join(w, 'repo'), os.path.join(w, 'verif')
        sh(['cp', '-a', '/repo', repo])
        os.makedirs(verif)
        for n in ('check.py', 'exe', 'pbt', 'known_findings.json', 'properties.jsonl'):
            sh(['cp', '-a', os.path.join(HERE, n), os.path.join(verif, n)])
        for fn, a, b in EDITS.get(commit, ()):
            text = open(os.path.join(repo, fn)).read()
            if a not in text:
                return '%s EDIT' % commit
            with open(os.path.join(repo, fn), 'w') as f:
                f.write(text.replace(a, b))
        r = None if commit in EDITS else sh(['git', '-C', repo, '-c', 'user.name=x', '-c', 'user.email=x@x', 'revert', '-n', commit])
        if r and r.returncode:
            return '%s CONFLICT %s' % (commit, ' '.join(re.findall(r'CONFLICT.*', r.stdout)))
        text = commit
        for p in props:
            out = sh(['unshare', '-m', 'bash', '-c', 'mount --bind %s /repo && mount --bind %s /verif && cd /verif && '
                      'VERIF_SEED=%s VERIF_TIER=quick timeout 900 python3-vt check.py %s' % (
                          repo, verif, os.environ.get('SEED', '1'), p)])
            text += ' %s:%s' % (p, out.returncode)
            if out.returncode == 1:
                for f in glob.glob(os.path.join(verif, 'replays', p + '-*.json')):
                    d = os.path.join(HERE, 'corpus', p)
                    os.makedirs(d, exist_ok=True)
                    data = json.load(open(f))
                    with open(os.path.join(d, commit + '.json'), 'w') as g:
                        json.dump({'property': p, 'plan': data['plan'], 'defect': commit}, g)
                        g.write('\n')
            else:
                text += '\n' + out.stdout[-600:]
        return text
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    known = {}
    for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']:
        if k['status'] == 'fixed':
            known.setdefault(k['commit'], []).append(k['property'])
    ids = sys.argv[1:] or list(known)
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('JOBS', '2'))) as ex:
        for text in ex.map(lambda c: unfix(c, known[c]), ids):
            print(text, flush=True)


main()
