"""Persistent node process that runs wasm programs."""
import base64
import json
import os
import select
import subprocess

from build import VERIF


class Node:
    def __init__(self, cwd):
        self.cwd = cwd
        self.p = None

    def start(self):
        self.p = subprocess.Popen(['node', '--no-warnings', '--stack-size=4000', os.path.join(VERIF, 'harness', 'wasmrun.mjs')],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=self.cwd,
                                  env={'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': self.cwd, 'UV_THREADPOOL_SIZE': '1'})
        self.n = 0

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None

    def run(self, file, timeout=20, **kw):
        """-> dict(code, err, out bytes); code None on timeout."""
        if self.p is None or self.n > 2000:
            self.stop()
            self.start()
        self.n += 1
        req = json.dumps(dict(kw, file=os.path.join(self.cwd, file))) + '\n'
        try:
            self.p.stdin.write(req.encode())
            self.p.stdin.flush()
            buf = b''
            fd = self.p.stdout.fileno()
            while not buf.endswith(b'\n'):
                r, _, _ = select.select([fd], [], [], timeout)
                if not r:
                    self.stop()
                    return {'code': None, 'err': 'timeout', 'out': b''}
                d = os.read(fd, 1 << 20)
                if not d:
                    self.stop()
                    return {'code': -3, 'err': 'node died', 'out': b''}
                buf += d
        except OSError as e:
            self.stop()
            return {'code': -3, 'err': str(e), 'out': b''}
        o = json.loads(buf)
        o['out'] = base64.b64decode(o['out'])
        return o
