"""One shard of one check: a seeded Hypothesis run whose test function sends
each generated plan to an executor."""
import collections
import hashlib
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

import hypothesis
from hypothesis import HealthCheck, Phase, Verbosity, given, settings

from pbt.workerclient import Worker

SHRINK_CALLS = 400
SHRINK_SECONDS = 45


class PropertyFailed(Exception):
    pass


class HarnessError(Exception):
    pass


def canon(plan):
    return json.dumps(plan, sort_keys=True)


class Shard(object):

    def __init__(self, pid, mod, timeout, budget, scratch):
        self.mod = mod
        self.worker = Worker(pid, timeout=timeout, scratch=scratch)
        self.t0 = time.monotonic()
        self.budget = budget
        self.cases = 0
        self.nontrivial = set()
        self.tags = collections.Counter()
        self.samples = []
        self.inconclusive = 0
        self.skipped = 0
        self.best = None          # (json, msg)
        self.fail_calls = 0
        self.fail_t0 = None
        self.error = None

    def run(self, plan, shrinking=True):
        """Runs one plan; raises PropertyFailed when the property fails."""
        if self.error:
            return
        key = canon(plan)
        if self.best is not None:
            if key == self.best[0]:
                raise PropertyFailed(self.best[1])
            self.fail_calls += 1
            if (self.fail_calls > SHRINK_CALLS or self.best[2] or
                    time.monotonic() - self.fail_t0 > SHRINK_SECONDS):
                return
            if len(key) > len(self.best[0]) + 40:
                return
        elif time.monotonic() - self.t0 > self.budget:
            self.skipped += 1
            return
        res = self.worker.call(plan)
        status = res['status']
        if status == 'error':
            self.error = res.get('msg', '')
            return
        self.cases += 1
        if status in ('fail', 'hang', 'died'):
            msg = res.get('msg', status)
            if self.best is None:
                self.fail_t0 = time.monotonic()
            if self.best is None or len(key) <= len(self.best[0]):
                self.best = (key, msg, status in ('hang', 'died'))
            raise PropertyFailed(msg)
        if self.best is not None:
            return
        for tag in res.get('tags', ()):
            self.tags[tag] += 1
        if status == 'inconclusive':
            self.inconclusive += 1
            return
        digest = hashlib.sha1(key.encode()).digest()[:10]
        if res.get('nontrivial'):
            if digest not in self.nontrivial:
                self.nontrivial.add(digest)
                if len(self.samples) < 3 and len(key) < 1500 and len(self.nontrivial) > 4 and len(self.nontrivial) % 7 == 1:
                    self.samples.append(json.loads(key))
                elif not self.samples and len(self.nontrivial) in (30, 60):
                    self.samples.append(key[:1500] + '...')


def main():
    spec = json.loads(sys.argv[1])
    pid = spec['property']
    mod = importlib.import_module('pbt.props.' + pid.lower())
    sh = Shard(pid, mod, spec['timeout'], spec['budget'], spec['scratch'])
    os.makedirs(spec['scratch'], exist_ok=True)
    failed = None

    @hypothesis.seed(spec['seed'])
    @settings(max_examples=spec['examples'], database=None, deadline=None,
              suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet,
              phases=[Phase.generate, Phase.shrink], print_blob=False,
              report_multiple_bugs=False)
    @given(mod.plan(spec['tier']))
    def test(plan):
        sh.run(plan)

    try:
        for path in spec.get('corpus', ()):
            with open(path) as f:
                sh.run(json.load(f)['plan'])
        if spec['examples']:
            test()
    except BaseException as exc:
        if sh.best is None and sh.error is None:
            import traceback
            sh.error = traceback.format_exc()[-3000:]
    finally:
        sh.worker.close()
    result = {
        'cases': sh.cases,
        'nontrivial': sorted(d.hex() for d in sh.nontrivial),
        'tags': dict(sh.tags), 'samples': sh.samples,
        'inconclusive': sh.inconclusive, 'skipped': sh.skipped,
        'best': sh.best, 'error': sh.error, 'wall': time.monotonic() - sh.t0,
    }
    with open(spec['out'], 'w') as f:
        json.dump(result, f)


if __name__ == '__main__':
    main()
