"""Builds /repo's current working tree, outside /repo, in a content-addressed
directory, one sub-directory per variant."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import time

REPO = os.environ.get('XCC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
CCW = os.path.join(VERIF, 'lib', 'ccw')
DIRS = ('src', 'include', 'libsrc')

ENV = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
       'HOME': '/tmp', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8'}


class BuildFailed(Exception):
    pass


def _files():
    out = []
    for d in DIRS:
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs[:] = sorted(x for x in dirs if x not in ('obj', 'tests', 'www', 'node_modules'))
            for f in sorted(files):
                if f.endswith(('.c', '.h', '.inc', '.S', '.s')) or f == 'Makefile':
                    out.append(os.path.relpath(os.path.join(root, f), REPO))
    out.append('Makefile')
    return out


def tree_hash(files=None):
    h = hashlib.sha256()
    for f in files or _files():
        h.update(f.encode() + b'\0')
        with open(os.path.join(REPO, f), 'rb') as fp:
            h.update(hashlib.sha256(fp.read()).digest())
    with open(os.path.abspath(__file__), 'rb') as fp:
        h.update(fp.read())
    return h.hexdigest()[:16]


def _copy(dst, files):
    for f in files:
        d = os.path.join(dst, f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, f), d)


def _make(dst, *args, timeout=600):
    env = dict(ENV)
    r = subprocess.run(['make', '-j8', *args], cwd=dst, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout)
    if r.returncode != 0:
        raise BuildFailed('make %s: %s' % (' '.join(args), r.stdout[-700:].decode(errors='replace')))


def _do(variant, dst):
    cc = 'CC=%s' % CCW
    env_cc = CCW
    if variant == 'native':
        _make_env(dst, env_cc, 'exes')
        _make_env(dst, env_cc, 'libs')
    elif variant == 'gen2':
        _make_env(dst, env_cc, 'exes')
        _make_env(dst, env_cc, 'libs')
        _make_env(dst, env_cc, 'gen2')
    elif variant == 'wcc':
        _make_env(dst, env_cc, 'wcc')
        _make_env(dst, env_cc, 'wcc-libs')
    elif variant in ('riscv64', 'aarch64'):
        _make_env(dst, env_cc, 'ARCHTYPE=' + variant, 'PLATFORM=posix', 'exes')
        _make_env(dst, env_cc, 'ARCHTYPE=' + variant, 'PLATFORM=posix', 'libs')
    elif variant == 'asan':
        san = '-fsanitize=address,null,bool,bounds -fno-sanitize-recover=null,bool,bounds -fno-omit-frame-pointer'
        _make_env(dst, env_cc, 'OPTIMIZE=-O1 -g ' + san, 'LDFLAGS=' + san, 'exes')
    elif variant == 'asanwcc':
        san = '-fsanitize=address,null,bool,bounds -fno-sanitize-recover=null,bool,bounds -fno-omit-frame-pointer'
        _make_env(dst, env_cc, 'OPTIMIZE=-O1 -g ' + san, 'LDFLAGS=' + san, 'wcc',)
    else:
        raise ValueError(variant)


def _make_env(dst, ccw, *args):
    # CC comes from the environment: on the command line it would override the
    # CC:=./xcc of the self-hosting stages.
    env = dict(ENV)
    env['CC'] = ccw
    env['ASAN_OPTIONS'] = 'detect_leaks=0'
    r = subprocess.run(['make', '-j8', *args], cwd=dst, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=800)
    if r.returncode != 0:
        raise BuildFailed('make %s: %s' % (' '.join(args), r.stdout[-700:].decode(errors='replace')))


def build(variant):
    """Returns the directory of the finished build of `variant`."""
    files = _files()
    os.makedirs(CACHE, exist_ok=True)
    key = tree_hash(files)
    final = os.path.join(CACHE, key, variant)
    if os.path.exists(os.path.join(final, '.done')):
        return final
    with open(os.path.join(CACHE, 'lock.' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(final, '.done')):
            return final
        shutil.rmtree(final, ignore_errors=True)
        _prune(key)
        os.makedirs(final)
        _copy(final, files)
        os.makedirs(os.path.join(final, 'tests'), exist_ok=True)
        _do(variant, final)
        open(os.path.join(final, '.done'), 'w').close()
    return final


def _prune(keep):
    try:
        ds = [d for d in os.listdir(CACHE) if os.path.isdir(os.path.join(CACHE, d)) and d != keep]
    except OSError:
        return
    ds.sort(key=lambda d: os.path.getmtime(os.path.join(CACHE, d)))
    for d in ds[:-3]:
        if time.time() - os.path.getmtime(os.path.join(CACHE, d)) > 1200:
            shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
