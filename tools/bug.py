#!/usr/bin/env python3
"""Plants, confirms and runs seeded changes (seeded/ID).

bug.py make SPEC.py            writes seeded/ID from a spec file with BUGS = [dict(...)]
bug.py verify [--checks C01,..|own|all] ID...   builds, tests and demonstrates each change in a mount
                               namespace of its own where a changed copy stands in for /repo
"""
import concurrent.futures
import difflib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def mine(path):
    """Line numbers which are not the original repository's."""
    out = sh(['git', '-C', '/repo', 'blame', '-s', '--abbrev=40', 'HEAD', '--', path]).stdout
    base = sh(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD']).stdout.strip()
    res = set()
    for n, line in enumerate(out.splitlines(), 1):
        if not line.startswith('^' + base[:30]) and not line.startswith(base):
            res.add(n)
    return res


def make(spec):
    ns = {}
    exec(compile(open(spec).read(), spec, 'exec'), ns)
    for bug in ns['BUGS']:
        d = os.path.join(SEEDED, bug['id'])
        os.makedirs(d, exist_ok=True)
        patch, originals = '', 0
        for path in sorted(set(e[0] for e in bug['edits'])):
            old = sh(['git', '-C', '/repo', 'show', 'HEAD:' + path]).stdout
            new = old
            for p, a, b in bug['edits']:
                if p == path:
                    assert new.count(a) == 1, (bug['id'], path, new.count(a), a)
                    new = new.replace(a, b)
            lines = list(difflib.unified_diff(old.splitlines(True), new.splitlines(True), 'a/' + path, 'b/' + path))
            patch += ''.join(lines)
            sm = difflib.SequenceMatcher(None, old.splitlines(), new.splitlines(), autojunk=False)
            foreign = mine(path)
            for tag, i1, i2, _, _ in sm.get_opcodes():
                if tag in ('replace', 'delete'):
                    originals += sum(1 for i in range(i1, i2) if i + 1 not in foreign)
        if not originals:
            print('WARNING %s changes no line of the original' % bug['id'])
        with open(os.path.join(d, 'patch.diff'), 'w') as f:
            f.write(patch)
        with open(os.path.join(d, 'demo.py'), 'w') as f:
            f.write(bug['demo'].lstrip('\n'))
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\n# Exits 0 when the behaviour is right, 1 when it is broken.\n'
                    'here=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8\n'
                    'exec timeout 200 /opt/venv/bin/python -W ignore "$here/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        with open(os.path.join(d, 'meta.json'), 'w') as f:
            json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, f, indent=1)
            f.write('\n')
        print('made', bug['id'])


INNER = r'''
set -u
mount --bind "$W/repo" /repo && mount --bind "$W/vpb" /opt/vp-build && mount --bind "$W/verif" /verif && mount --bind "$W/tmp" /tmp
cd /repo
demo() { timeout 300 bash "$W2/demo/demo.sh" >"$W2/demo-$1.log" 2>&1; echo "demo-$1 $?"; }
demo unpatched
git apply "$W2/patch.diff" || { echo "apply 1"; exit; }
sed "s,rm -rf /opt/vp-build$,rm -rf /opt/vp-build/*," /opt/vp/build.sh >"$W/build.sh"; bash "$W/build.sh" >"$W2/build.log" 2>&1; echo "build $?"
timeout 300 bash /opt/vp/test.sh "$W2/test.json" >"$W2/test.log" 2>&1
demo patched
cd /verif
for c in $CHECKS; do
  VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3-vt check.py $c >"$W2/check-$c.log" 2>&1; echo "check-$c $?"
done
'''


def verify(bid, checks, prop):
    src = os.path.join(SEEDED, bid)
    w = tempfile.mkdtemp(prefix='bug-', dir='/var/tmp')
    try:
        for n in ('vpb', 'tmp', 'demo', 'verif'):
            os.makedirs(os.path.join(w, n))
        sh(['cp', '-a', '/repo', os.path.join(w, 'repo')])
        for n in ('check.py', 'exe', 'pbt', 'known_findings.json', 'properties.jsonl', 'corpus'):
            if os.path.exists(os.path.join(HERE, n)):
                sh(['cp', '-a', os.path.join(HERE, n), os.path.join(w, 'verif', n)])
        for n in os.listdir(src):
            if n == 'patch.diff':
                shutil.copy(os.path.join(src, n), w)
            elif n != 'meta.json':
                shutil.copy(os.path.join(src, n), os.path.join(w, 'demo'))
        if checks == 'own':
            cs = [prop]
        elif checks == 'all':
            cs = ['C%02d' % i for i in range(1, 32) if os.path.exists(os.path.join(HERE, 'pbt/props/c%02d.py' % i))]
        else:
            cs = [c for c in checks.split(',') if c]
        env = dict(os.environ, W=w, W2=w, CHECKS=' '.join(cs))
        out = sh(['unshare', '-m', 'bash', '-c', INNER], env=env).stdout
        res = dict(l.rsplit(' ', 1) for l in out.splitlines() if re.match(r'^\S+ \d+$', l))
        tests = 'none'
        try:
            got = json.load(open(os.path.join(w, 'test.json')))
            base = json.load(open('/opt/vp/BASELINE.json'))
            tests = compare(got, base)
        except Exception as exc:
            tests = repr(exc)
        valid = res.get('demo-unpatched') == '0' and res.get('demo-patched') not in ('0', None) and \
            res.get('build') == '0' and tests == 'pass'
        caught = [k[6:] for k, v in res.items() if k.startswith('check-') and v == '1']
        odd = [k for k, v in res.items() if k.startswith('check-') and v not in '01']
        text = '%-30s %-4s %s caught by %s%s' % (bid, prop, 'VALID' if valid else 'INVALID %s tests=%s' % (res, tests),
                                              ','.join(caught) or '-', ' ODD %s' % odd if odd else '')
        if not valid:
            for n in ('demo-unpatched.log', 'demo-patched.log', 'build.log'):
                p = os.path.join(w, n)
                if os.path.exists(p):
                    text += '\n  --%s: %s' % (n, open(p).read()[-700:])
            text += '\n' + out[-300:]
        for c in cs:
            p = os.path.join(w, 'check-%s.log' % c)
            if os.path.exists(p) and ('-v' in sys.argv or res.get('check-%s' % c) not in ('0', '1')):
                text += '\n  %s: %s' % (c, open(p).read()[:900])
        return text, {'id': bid, 'property': prop, 'valid': valid, 'caught': caught, 'run': cs}
    finally:
        shutil.rmtree(w, ignore_errors=True)


def compare(got, base):
    stable = base.get('stable') or base.get('stable_passing') or base.get('pass') or base.get('passed')
    passed = got.get('pass') or got.get('passed')
    if stable is None or passed is None:
        return 'keys %s %s' % (list(base), list(got))
    missing = sorted(set(stable) - set(passed))
    return 'pass' if not missing else 'broken %s' % missing[:4]


CATCHES = os.path.join(HERE, 'tools', 'catches.json')


def note(row):
    """Keeps what was caught by which check."""
    try:
        with open(CATCHES) as f:
            known = json.load(f)
    except OSError:
        known = {}
    got = known.setdefault(row['id'], {'property': row['property'], 'caught': [], 'run': []})
    got['caught'] = sorted(set(got['caught']) - set(row['run']) | set(row['caught']))
    got['run'] = sorted(set(got['run']) | set(row['run']))
    got['valid'] = row['valid']
    known = {k: known[k] for k in sorted(known) if os.path.exists(os.path.join(SEEDED, k))}
    with open(CATCHES, 'w') as f:
        json.dump(known, f, indent=1)
        f.write('\n')


def table():
    """The section of DESIGN.md on planted changes."""
    with open(CATCHES) as f:
        known = json.load(f)
    lines = ['| change | property | caught by | what it needs |', '|---|---|---|---|']
    for k in sorted(known, key=lambda k: (known[k]['property'], k)):
        meta = json.load(open(os.path.join(SEEDED, k, 'meta.json')))
        lines.append('| %s | %s | %s | %s |' % (k, meta['property'], ', '.join(known[k]['caught']) or '**nothing**', meta['needs']))
    fn = os.path.join(HERE, 'DESIGN.md')
    text = open(fn).read()
    a, b = '<!-- planted -->\n', '<!-- /planted -->'
    i, j = text.index(a) + len(a), text.index(b)
    with open(fn, 'w') as f:
        f.write(text[:i] + '\n'.join(lines) + '\n' + text[j:])


def main():
    if sys.argv[1] == 'table':
        return table()
    if sys.argv[1] == 'make':
        return make(sys.argv[2])
    args = [a for a in sys.argv[2:] if a != '-v']
    checks = 'own'
    if args and args[0] == '--checks':
        checks = args[1]
        args = args[2:]
    ids = args or sorted(os.listdir(SEEDED))
    ids = [i for i in ids if os.path.exists(os.path.join(SEEDED, i, 'meta.json'))]
    rows = []
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
        futs = [ex.submit(verify, i, checks, json.load(open(os.path.join(SEEDED, i, 'meta.json')))['property'])
                for i in ids]
        for f in concurrent.futures.as_completed(futs):
            text, row = f.result()
            rows.append(row)
            print(text, flush=True)
            note(row)
    print('%d valid, %d of them caught' % (sum(r['valid'] for r in rows),
                                           sum(bool(r['valid'] and r['caught']) for r in rows)))


main()
