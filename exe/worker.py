# -*- coding: utf-8 -*-
"""Executor process: `worker.py CXX RFD WFD` serves plans (one JSON per line);
`worker.py --replay FILE` runs one saved case and prints the verdict."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(1000)


def load(pid):
    mod = importlib.import_module(pid.lower())
    import profiling
    src = os.path.realpath(profiling.__file__)
    if not src.startswith('/repo/'):
        raise RuntimeError('profiling imported from %s' % src)
    # as in a process of the command: importing a module may change others.
    for name in ('__main__', 'remote.asyncio', 'remote.background', 'remote.client', 'remote.gevent',
                 'remote.select'):
        try:
            importlib.import_module('profiling.' + name)
        except Exception:
            # decided by the checks which use it.
            pass
    return mod


def one(mod, plan):
    from base import forked, run_case
    iso = getattr(mod, 'ISOLATE', False)
    if iso:
        return forked(mod.run, plan)
    return run_case(mod.run, plan)


def main():
    if sys.argv[1] == '--replay':
        with open(sys.argv[2]) as f:
            case = json.load(f)
        mod = load(case['property'])
        res = one(mod, case['plan'])
        sys.stdout.write('%s %s\n%s\n' % (case['property'], res['status'], res.get('msg', '')))
        sys.stdout.flush()
        os._exit({'ok': 0, 'fail': 1}.get(res['status'], 2))
    pid, rfd, wfd = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    os.set_inheritable(rfd, False)
    os.set_inheritable(wfd, False)

    def send(x):
        data = (json.dumps(x) + '\n').encode('utf-8')
        while data:
            n = os.write(wfd, data)
            data = data[n:]
    try:
        mod = load(pid)
    except BaseException:
        import traceback
        send({'status': 'error', 'msg': traceback.format_exc()[-3000:]})
        os._exit(2)
    send({'status': 'ready'})
    rf = os.fdopen(rfd, 'rb')
    while True:
        line = rf.readline()
        if not line:
            os._exit(0)
        send(one(mod, json.loads(line.decode('utf-8'))))


main()
