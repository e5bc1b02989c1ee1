"""Talks to an executor: a PyPy process that runs plans against /repo."""
import json
import os
import select
import signal
import subprocess
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYPY = '/opt/venv/bin/python'
REPO = '/repo'


def executor_env(extra=None):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith('PYTHON') and k not in ('LD_PRELOAD',)}
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               LANG='C.UTF-8', LC_ALL='C.UTF-8', HOME='/root', TERM='xterm',
               PYTHONWARNINGS='ignore')
    if extra:
        env.update(extra)
    return env


class Worker(object):
    """One executor process.  `call(plan)` returns a dict:

    {"status": "ok"|"fail"|"error"|"hang"|"died", ...}
    """

    def __init__(self, pid, timeout=60, scratch=None):
        self.pid = pid
        self.timeout = timeout
        self.scratch = scratch
        self.proc = None

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.proc = subprocess.Popen(
            [PYPY, '-B', os.path.join(HERE, 'exe', 'worker.py'), self.pid,
             str(r1), str(w2)],
            env=executor_env({'VERIF_SCRATCH': self.scratch or ''}), cwd=self.scratch or '/',
            pass_fds=(r1, w2), stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
            start_new_session=True)
        os.close(r1)
        os.close(w2)
        self.w = w1
        self.r = r2
        self.buf = b''
        got = self._read(120)
        if got is None or got.get('status') != 'ready':
            self.kill()
            return got or {'status': 'error', 'msg': 'executor did not start'}
        return None

    def _read(self, timeout):
        end = time.monotonic() + timeout
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                return {'status': 'hang', 'msg': 'no answer within %d s' % timeout}
            ready, _, _ = select.select([self.r], [], [], left)
            if not ready:
                continue
            data = os.read(self.r, 1 << 16)
            if not data:
                return {'status': 'died', 'msg': 'executor process ended'}
            self.buf += data
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line.decode('utf-8'))

    def call(self, plan, timeout=None):
        if self.proc is None:
            err = self.start()
            if err is not None:
                err['status'] = 'error'
                return err
        data = (json.dumps(plan) + '\n').encode('utf-8')
        try:
            while data:
                n = os.write(self.w, data)
                data = data[n:]
        except OSError:
            self.kill()
            return {'status': 'died', 'msg': 'executor process ended'}
        res = self._read(timeout or self.timeout)
        if res['status'] in ('hang', 'died'):
            self.kill()
        return res

    def kill(self):
        if self.proc is None:
            return
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.proc.kill()
        except OSError:
            pass
        self.proc.wait()
        for fd in (self.r, self.w):
            try:
                os.close(fd)
            except OSError:
                pass
        self.proc = None

    close = kill
