"""Drives the libc through small request/answer programs (harness/libc_*.c)
compiled by xcc (run natively) and by wcc (run under node)."""
import base64
import os

from build import VERIF
from core import run
from wasm import Node


class DriverFailed(Exception):
    pass


def prepare(ctx, name, native=True, wasm=True, opts=()):
    src = os.path.join(VERIF, 'harness', name + '.c')
    ctx.x['drv_fail'] = []
    if native:
        out = os.path.join(ctx.root, name)
        r = run([os.path.join(ctx.builds['native'], 'xcc'), *opts, '-o', out, src], cwd=ctx.root, cpu=30)
        if r.rc != 0:
            ctx.x['drv_fail'].append('xcc: the driver does not compile: ' + r.short())
        else:
            os.chmod(out, 0o755)
        ctx.x['native'] = out
    if wasm:
        out = os.path.join(ctx.root, name + '.wasm')
        r = run([os.path.join(ctx.builds['wcc'], 'wcc'), *opts, '--stack-size=200000', '-o', out, src], cwd=ctx.root, cpu=30)
        if r.rc != 0:
            ctx.x['drv_fail'].append('wcc: the driver does not compile: ' + r.short())
        else:
            os.chmod(out, 0o644)
        ctx.x['wasm'] = out


def worker_init(ctx):
    if 'wasm' in ctx.x:
        ctx.x['node'] = Node(ctx.dir)


def worker_exit(ctx):
    if 'node' in ctx.x:
        ctx.x['node'].stop()


def native(ctx, req, args=(), cpu=10, env=None):
    """-> (None, output) or (message, output)"""
    if ctx.x['drv_fail']:
        return ctx.x['drv_fail'][0], b''
    r = run([ctx.x['native'], *args], cwd=ctx.dir, inp=req, cpu=cpu, env=env)
    return (None if r.rc == 0 and not r.timeout else 'native: ' + r.short()), r.out


def wasm(ctx, req, args=()):
    if ctx.x['drv_fail']:
        return ctx.x['drv_fail'][0], b''
    o = ctx.x['node'].run(ctx.x['wasm'], stdin=base64.b64encode(req).decode(), args=['prog', *args])
    return (None if o['code'] == 0 else 'wasm: code=%s %s' % (o['code'], o['err'])), o['out']


def compare(exp, out, what, ops):
    """First differing answer line, or None."""
    got = out.split(b'\n')
    if got and got[-1] == b'':
        got.pop()
    for k, e in enumerate(exp):
        e = e if isinstance(e, bytes) else e.encode('latin1')
        g = got[k] if k < len(got) else b'<nothing>'
        if e != g:
            return '%s: operation %d %r: expected %r, got %r' % (what, k, ops[k], e, g)
    if len(got) != len(exp):
        return '%s: extra output %r' % (what, got[len(exp):][:2])
    return None
