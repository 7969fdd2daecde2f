"""Driver side of the worker protocol."""
import json
import os
import select
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
WORKER = os.path.join(os.path.dirname(HERE), 'worker', 'main.py')
PYTHON = os.environ.get('VF_TARGET_PYTHON', '/opt/venv/bin/python')


class HarnessError(Exception):
    pass


class Worker(object):
    def __init__(self, hang_s=60.0):
        self.hang_s = hang_s
        self.proc = None
        self.n_started = 0

    def start(self):
        env = dict(os.environ)
        repo = env.get('BIGGUS_REPO', '/repo')
        env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   PYTHONPATH=repo, OMP_NUM_THREADS='1')
        self.proc = subprocess.Popen(
            [PYTHON, WORKER], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            env=env, bufsize=0)
        self.buf = b''
        self.n_started += 1
        hello = self._read(180)
        if hello is None or 'ready' not in hello:
            raise HarnessError('worker did not start: %r' % (hello,))

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.kill()
            except OSError:
                pass
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.proc = None

    def _read(self, timeout):
        fd = self.proc.stdout.fileno()
        while b'\n' not in self.buf:
            r, _, _ = select.select([fd], [], [], timeout)
            if not r:
                return None
            data = os.read(fd, 1 << 16)
            if not data:
                return {'died': self.proc.poll()}
            self.buf += data
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line.decode())

    def run(self, prop, case):
        if self.proc is None:
            self.start()
        msg = json.dumps({'prop': prop, 'case': case}) + '\n'
        try:
            self.proc.stdin.write(msg.encode())
            self.proc.stdin.flush()
        except (OSError, ValueError):
            self.stop()
            raise HarnessError('worker pipe broke')
        res = self._read(self.hang_s)
        if res is None:
            self.stop()
            return {'hang': True}
        if 'died' in res:
            self.stop()
            return {'died': True}
        return res
