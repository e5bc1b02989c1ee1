#!/opt/veriftools/pyvenv/bin/python3
"""Decides one property:  check.py CXX   (VERIF_SEED, VERIF_TIER from the environment)

Exit 0: the property held on everything explored.
Exit 1 and `VIOLATION property=CXX replay=PATH`: it is broken.
Exit 2: the check could not decide (harness error).

check.py --replay FILE runs one saved case without the generator library.
"""
import collections
import glob
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from pbt.workerclient import PYPY, Worker, executor_env


def main():
    if sys.argv[1] == '--replay':
        cmd = [PYPY, '-B', os.path.join(HERE, 'exe', 'worker.py'), '--replay',
               os.path.abspath(sys.argv[2])]
        scratch = tempfile.mkdtemp(prefix='verif-')
        try:
            return subprocess.call(cmd, env=executor_env({'VERIF_SCRATCH': scratch}), cwd=scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    if sys.argv[1] == '--setup':
        return subprocess.call([PYPY, '-B', '-W', 'ignore', '-c', 'import profiling.__main__'],
                               env=executor_env(), cwd='/')
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or '1')
    t0 = time.time()
    mod = importlib.import_module('pbt.props.' + pid.lower())
    examples, shards = (mod.QUICK if tier == 'quick' else mod.THOROUGH)
    budget = 420 if tier == 'quick' else 3000
    timeout = getattr(mod, 'TIMEOUT', 60)
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        return run(pid, mod, tier, seed, t0, examples, shards, budget, timeout, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(pid, mod, tier, seed, t0, examples, shards, budget, timeout, scratch):
    corpus = sorted(glob.glob(os.path.join(HERE, 'corpus', pid, '*.json')))
    procs = []
    per = max(1, examples // shards)
    for i in range(shards):
        out = os.path.join(scratch, 'shard%d.json' % i)
        spec = {'property': pid, 'seed': seed * 1000003 + i, 'examples': per, 'tier': tier,
                'timeout': timeout, 'budget': budget, 'out': out,
                'scratch': os.path.join(scratch, 's%d' % i),
                'corpus': corpus[i::shards]}
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        procs.append((out, subprocess.Popen(
            [sys.executable, '-B', os.path.join(HERE, 'pbt', 'shard.py'), json.dumps(spec)],
            env=env, cwd=HERE)))
    results, errors = [], []
    for out, proc in procs:
        proc.wait()
        try:
            with open(out) as f:
                results.append(json.load(f))
        except (OSError, ValueError):
            errors.append('shard ended with %s and no result' % proc.returncode)
    tags = collections.Counter()
    nontrivial = set()
    samples, best, more = [], [], []
    for r in results:
        tags.update(r['tags'])
        nontrivial.update(r['nontrivial'])
        samples.extend(r['samples'][:1])
        more.extend(r['samples'][1:])
        if r['error']:
            errors.append(r['error'])
        if r['best']:
            best.append(r['best'])
    seen, unique = set(), []
    for s in samples + more:
        if repr(s) not in seen:
            seen.add(repr(s))
            unique.append(s)
    samples = unique[:6]
    best.sort(key=lambda b: (len(b[0]), b[0]))
    known = load_known(pid)
    violations = []
    unconfirmed = []
    for key, msg, _ in best:
        plan = json.loads(key)
        confirmed = confirm(pid, plan, timeout, scratch)
        if confirmed is None:
            # nothing to show: reported in the evidence, not as a violation.
            unconfirmed.append('%s: %s' % (msg[:300], key[:2000]))
            continue
        violations.append((plan, confirmed))
        break
    for k in known:
        if k.get('status') != 'open':
            continue
        res = fresh(pid, k['plan'], timeout, scratch)
        if res['status'] == 'fail':
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['cases'] for r in results),
            'distinct_nontrivial': len(nontrivial),
            'rule': mod.RULE,
            'samples': samples,
            'classes': dict(sorted(tags.items())),
            'inconclusive': sum(r['inconclusive'] for r in results),
            'skipped_for_time': sum(r['skipped'] for r in results),
            'regression_cases': len(corpus),
            'not_reproduced': unconfirmed,
            'shards': shards,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')
    if violations:
        plan, msg = violations[0]
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        data = json.dumps({'property': pid, 'plan': plan, 'message': msg}, indent=1)
        name = '%s-%s.json' % (pid, hashlib.sha1(data.encode()).hexdigest()[:10])
        path = os.path.join(rdir, name)
        with open(path, 'w') as f:
            f.write(data + '\n')
        print(msg)
        print('minimal case: %s' % json.dumps(plan)[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    for text in unconfirmed:
        print('NOT REPRODUCED in a fresh executor, in 5 attempts: %s' % text, file=sys.stderr)
    if errors:
        for e in errors[:3]:
            print('ERROR: %s' % e, file=sys.stderr)
        return 2
    cov = evidence['coverage']
    print('%s held: %d cases, %d distinct non-trivial, %.1f s' % (
        pid, cov['evaluations'], cov['distinct_nontrivial'], evidence['wall_s']))
    return 0


def fresh(pid, plan, timeout, scratch):
    w = Worker(pid, timeout=timeout, scratch=scratch)
    try:
        return w.call(plan)
    finally:
        w.close()


def confirm(pid, plan, timeout, scratch):
    """A failure counts when the plan fails again in a fresh executor."""
    hangs = 0
    for _ in range(5):
        res = fresh(pid, plan, timeout, scratch)
        if res['status'] == 'fail':
            return res['msg']
        if res['status'] in ('hang', 'died'):
            hangs += 1
            if hangs >= 2:
                return 'the case does not come to an end: ' + res['msg']
    return None


def load_known(pid):
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            return [k for k in json.load(f)['findings'] if k['property'] == pid]
    except OSError:
        return []


if __name__ == '__main__':
    sys.exit(main())
