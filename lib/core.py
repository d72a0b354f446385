"""Campaign driver: parallel generated-case search, confirmation, shrinking,
replay files, known findings and evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import build as B
from pbt import Src, shrink

VERIF = B.VERIF
NOBODY = 65534
NPROC = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)


class Res:
    """Outcome of one case. status: 'pass' | 'fail' | 'skip'."""
    __slots__ = ('status', 'nontrivial', 'msg', 'labels', 'detail', 'units', 'keys')

    def __init__(self, status='pass', nontrivial=True, msg='', labels=None, detail=None, units=1, keys=None):
        self.status = status
        self.nontrivial = nontrivial
        self.msg = msg
        self.labels = labels or {}
        self.detail = detail
        self.units = units       # how many elementary evaluations the case holds
        self.keys = keys         # distinct elementary cases, when finer than the case


def fail(msg, detail=None, **kw):
    return Res('fail', True, msg, detail=detail, **kw)


class Ctx:
    """What a property's check function gets: builds and a scratch dir."""

    def __init__(self, root, tier, seed):
        self.root = root
        self.tier = tier
        self.seed = seed
        self.builds = {}
        self.dir = root
        self.x = {}

    def need(self, *variants):
        for v in variants:
            if v not in self.builds:
                self.builds[v] = B.build(v)

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, data):
        p = os.path.join(self.dir, name)
        with open(p, 'wb' if isinstance(data, bytes) else 'w') as f:
            f.write(data)
        return p


class R:
    __slots__ = ('rc', 'out', 'err', 'timeout')

    def __init__(self, rc, out, err, timeout):
        self.rc = rc
        self.out = out
        self.err = err
        self.timeout = timeout

    def short(self):
        return 'rc=%s%s out=%r err=%r' % (self.rc, ' TIMEOUT' if self.timeout else '',
                                         self.out[-300:], self.err[-400:])


def run(cmd, cwd=None, inp=None, cpu=10, wall=60, env=None, mem_mb=None, maxout=4 << 20):
    """Runs a command; never raises on failure. Limits are set by the worker
    process (RLIMIT_*, inherited); `wall` is a generous backstop."""
    e = {'PATH': B.ENV['PATH'], 'LANG': 'C', 'LC_ALL': 'C', 'TMPDIR': cwd or '/tmp', 'HOME': '/tmp'}
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        resource.prlimit(p.pid, resource.RLIMIT_CPU, (cpu, cpu + 1))
        if mem_mb:
            resource.prlimit(p.pid, resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
    except OSError:
        pass
    try:
        out, err = p.communicate(inp, timeout=wall)
        to = p.returncode == -signal.SIGXCPU
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        to = True
    return R(p.returncode, out[:maxout], err[:maxout], to)


def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))


def drop_privileges():
    """Generated programs, and the toolchain that may be broken, run as an
    unprivileged user that owns nothing but its scratch directory."""
    if os.environ.get('VERIF_NODROP'):
        return
    try:
        if os.getuid() == 0:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
    except OSError:
        pass


def case_seed(seed, prop, idx):
    return int.from_bytes(hashlib.sha256(b'%d/%s/%d' % (seed, prop.encode(), idx)).digest()[:8], 'big')


def eval_case(mod, ctx, choices=None, seed=None):
    src = Src(seed=seed, prefix=choices)
    case = mod.gen(src, ctx)
    res = mod.check(case, ctx)
    for k, v in src.labels.items():
        res.labels[k] = res.labels.get(k, 0) + v
    return src, case, res


def case_key(case):
    return hashlib.sha256(repr(case).encode()).hexdigest()[:16]


def _worker(wid, mod, ctx, idxs, q, stop, deadline):
    os.setpgid(0, 0)
    _limits()
    d = os.path.join(ctx.root, 'w%d' % wid)
    os.makedirs(d, exist_ok=True)
    os.chmod(d, 0o777)
    if os.getuid() == 0:
        try:
            os.chown(d, NOBODY, NOBODY)
        except OSError:
            pass
    ctx.dir = d
    drop_privileges()
    os.chdir(d)
    st = {'n': 0, 'skip': 0, 'units': 0, 'keys': set(), 'labels': {}, 'samples': [], 'incomplete': 0,
          'skipmsg': [], 'exc': 0, 'excmsg': []}
    try:
        if hasattr(mod, 'worker_init'):
            mod.worker_init(ctx)
        for idx in idxs:
            if stop.is_set():
                break
            if time.time() > deadline:
                st['incomplete'] += 1
                break
            s = case_seed(ctx.seed, mod.ID, idx)
            try:
                src, case, res = eval_case(mod, ctx, seed=s)
            except Exception:
                # a defect of the machinery, or an unforeseen effect of a broken tree: never a verdict
                st['n'] += 1
                st['exc'] += 1
                if len(st['excmsg']) < 2:
                    st['excmsg'].append('case %d\n%s' % (idx, traceback.format_exc()))
                continue
            st['n'] += 1
            st['units'] += res.units
            for k, v in res.labels.items():
                st['labels'][k] = st['labels'].get(k, 0) + v
            if res.status == 'skip':
                st['skip'] += 1
                if len(st['skipmsg']) < 3:
                    st['skipmsg'].append(res.msg[:600])
                continue
            if res.nontrivial:
                if res.keys is not None:
                    st['keys'].update(res.keys)
                else:
                    st['keys'].add(case_key(case))
                if len(st['samples']) < 2:
                    st['samples'].append(mod.render(case) if hasattr(mod, 'render') else repr(case))
            if res.status == 'fail':
                # confirm: the same case must fail three times in a row
                good = 0
                for _ in range(3):
                    _, _, r2 = eval_case(mod, ctx, choices=src.rec)
                    if r2.status == 'fail':
                        good += 1
                if good < 3:
                    st['labels']['unconfirmed-failure'] = st['labels'].get('unconfirmed-failure', 0) + 1
                    st['labels']['unconfirmed:' + res.msg[:120]] = 1
                    continue
                q.put(('fail', wid, idx, src.rec, res.msg))
                # this worker shrinks its own failure, if it is the first
                stop.set()
                break
    except Exception:
        q.put(('error', wid, traceback.format_exc()))
    finally:
        if hasattr(mod, 'worker_exit'):
            try:
                mod.worker_exit(ctx)
            except Exception:
                pass
        q.put(('done', wid, st))


def _shrinker(mod, ctx, rec, msg, q, max_s):
    os.setpgid(0, 0)
    _limits()
    d = os.path.join(ctx.root, 'shrink')
    os.makedirs(d, exist_ok=True)
    os.chmod(d, 0o777)
    if os.getuid() == 0:
        try:
            os.chown(d, NOBODY, NOBODY)
        except OSError:
            pass
    ctx.dir = d
    drop_privileges()
    os.chdir(d)
    try:
        if hasattr(mod, 'worker_init'):
            mod.worker_init(ctx)

        def fails(c):
            try:
                _, _, r = eval_case(mod, ctx, choices=c)
            except Exception:
                return False
            return r.status == 'fail'
        best, evals = shrink(rec, fails, max_s=max_s)
        src, case, res = eval_case(mod, ctx, choices=best)
        if res.status != 'fail':
            best = rec
            src, case, res = eval_case(mod, ctx, choices=best)
        q.put({'choices': best, 'msg': res.msg or msg, 'detail': res.detail,
               'case': mod.render(case) if hasattr(mod, 'render') else repr(case), 'evals': evals})
    except Exception:
        q.put({'choices': rec, 'msg': msg, 'detail': None, 'case': '', 'evals': 0,
               'error': traceback.format_exc()})
    finally:
        if hasattr(mod, 'worker_exit'):
            try:
                mod.worker_exit(ctx)
            except Exception:
                pass


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f)['findings'] if x['property'] == pid and x['status'] == 'known']


def write_replay(pid, obj):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (pid, hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:10]))
    with open(p, 'w') as f:
        json.dump(obj, f, indent=1, default=str)
    return p


def write_evidence(mod, tier, seed, cov, wall, violations, level='exploration'):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = {'property': mod.ID, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': violations}
    tmp = os.path.join(d, '.%s.tmp' % mod.ID)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, mod.ID + '.json'))


def load(pid):
    return importlib.import_module('p_' + pid.lower())


def run_check(pid, tier, seed):
    t0 = time.time()
    mod = load(pid)
    n = mod.N[tier]
    maxs = float(os.environ.get('VERIF_MAX_S', 0)) or (getattr(mod, 'MAX_S', {}).get(tier) or (420 if tier == 'quick' else 3600))
    root = tempfile.mkdtemp(prefix='xccv-')
    os.chmod(root, 0o755)
    ctx = Ctx(root, tier, seed)
    try:
        try:
            ctx.need(*mod.BUILDS)
        except B.BuildFailed as e:
            return _build_violation(mod, tier, seed, t0, str(e))
        if hasattr(mod, 'prepare'):
            mod.prepare(ctx)
        known_lines = []
        regress = _directed(mod, ctx, known_lines)
        if regress is not None:
            rp = write_replay(pid, regress)
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            print(regress['msg'])
            write_evidence(mod, tier, seed, {'evaluations': 1, 'distinct_nontrivial': 1, 'rule': mod.RULE,
                                             'samples': [regress.get('case', '')]}, time.time() - t0, 1)
            return 1
        return _campaign(mod, ctx, tier, seed, n, maxs, t0, root, known_lines)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _build_violation(mod, tier, seed, t0, msg):
    obj = {'property': mod.ID, 'kind': 'build', 'msg': msg}
    rp = write_replay(mod.ID, obj)
    print('VIOLATION property=%s replay=%s' % (mod.ID, rp))
    print('the tree does not build: ' + msg[-1500:])
    write_evidence(mod, tier, seed, {'evaluations': 1, 'distinct_nontrivial': 1, 'rule': mod.RULE,
                                     'samples': ['build']}, time.time() - t0, 1)
    return 1


def _in_child(fn, *args):
    """Runs fn in an unprivileged child and returns its (picklable) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            _limits()
            out = fn(*args)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        except Exception:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('child failed')
    return pickle.loads(data)


def _directed(mod, ctx, known_lines):
    """Known findings: replay each listed input; print the line if it still fails."""
    ks = known_findings(mod.ID)
    if not ks or not hasattr(mod, 'replay_known'):
        return None

    def go():
        d = os.path.join(ctx.root, 'known')
        os.makedirs(d, exist_ok=True)
        os.chmod(d, 0o777)
        ctx.dir = d
        drop_privileges()
        os.chdir(d)
        if hasattr(mod, 'worker_init'):
            mod.worker_init(ctx)
        out = []
        for k in ks:
            out.append(bool(mod.replay_known(k, ctx)))
        if hasattr(mod, 'worker_exit'):
            mod.worker_exit(ctx)
        return out
    for k, still in zip(ks, _in_child(go)):
        if still:
            known_lines.append('KNOWN-FINDING: property=%s %s: %s' % (mod.ID, k['id'], k['what']))
    return None


def _campaign(mod, ctx, tier, seed, n, maxs, t0, root, known_lines):
    q = mp.Queue()
    stop = mp.Event()
    deadline = t0 + maxs
    procs = []
    first = getattr(mod, 'FIRST', 0)
    for w in range(NPROC):
        p = mp.Process(target=_worker, args=(w, mod, ctx, range(first + w, first + n, NPROC), q, stop, deadline))
        p.start()
        procs.append(p)
    done = 0
    tot = {'n': 0, 'skip': 0, 'units': 0, 'keys': set(), 'labels': {}, 'samples': [], 'incomplete': 0, 'skipmsg': [],
           'exc': 0, 'excmsg': []}
    fails = []
    errors = []
    while done < NPROC:
        try:
            m = q.get(timeout=5)
        except Exception:
            if all(not p.is_alive() for p in procs):
                try:
                    m = q.get(timeout=1)
                except Exception:
                    break
            else:
                continue
        if m[0] == 'fail':
            fails.append(m[1:])
        elif m[0] == 'error':
            errors.append(m[2])
            stop.set()
        elif m[0] == 'done':
            done += 1
            st = m[2]
            for k in ('n', 'skip', 'units', 'incomplete', 'exc'):
                tot[k] += st[k]
            tot['keys'] |= st['keys']
            tot['samples'] += st['samples']
            tot['skipmsg'] += st['skipmsg']
            tot['excmsg'] += st['excmsg']
            for k, v in st['labels'].items():
                tot['labels'][k] = tot['labels'].get(k, 0) + v
    for p in procs:
        p.join(10)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    cov = {'evaluations': tot['units'], 'generated_cases': tot['n'], 'discarded': tot['skip'], 'exceptions': tot['exc'],
           'distinct_nontrivial': len(tot['keys']), 'rule': mod.RULE,
           'samples': [s[:4000] for s in tot['samples'][:3]],
           'distribution': dict(sorted(tot['labels'].items())),
           'stopped_by_time_limit': bool(tot['incomplete'])}
    if fails:
        fails.sort(key=lambda f: f[1])
        wid, idx, rec, msg = fails[0]
        q2 = mp.Queue()
        p = mp.Process(target=_shrinker, args=(mod, ctx, rec, msg, q2, 45 if tier == 'quick' else 240))
        p.start()
        try:
            r = q2.get(timeout=400)
        except Exception:
            r = {'choices': rec, 'msg': msg, 'detail': None, 'case': ''}
        p.join(5)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        obj = {'property': mod.ID, 'kind': 'choices', 'seed': seed, 'case_index': idx, **r}
        rp = write_replay(mod.ID, obj)
        for l in known_lines:
            print(l)
        print('VIOLATION property=%s replay=%s' % (mod.ID, rp))
        print((r['msg'] or '')[:3000])
        write_evidence(mod, tier, seed, cov, time.time() - t0, 1)
        return 1
    if errors:
        sys.stderr.write(errors[0] + '\n')
        write_evidence(mod, tier, seed, cov, time.time() - t0, 0)
        return 2
    for l in known_lines:
        print(l)
    if tot['exc']:
        print('note: %d cases raised an exception in the check' % tot['exc'])
        sys.stderr.write(tot['excmsg'][0])
        if tot['exc'] > tot['n'] * 0.2:
            write_evidence(mod, tier, seed, cov, time.time() - t0, 0)
            return 2
    if tot['n'] and tot['skip'] > tot['n'] * 0.5:
        sys.stderr.write('check error: %d of %d cases discarded\n' % (tot['skip'], tot['n']))
        for m in tot['skipmsg'][:3]:
            sys.stderr.write('  ' + m + '\n')
        write_evidence(mod, tier, seed, cov, time.time() - t0, 0)
        return 2
    write_evidence(mod, tier, seed, cov, time.time() - t0, 0)
    print('%s ok: %d evaluations in %d cases, %d distinct non-trivial, %d discarded, %.1fs%s' % (
        mod.ID, tot['units'], tot['n'], len(tot['keys']), tot['skip'], time.time() - t0,
        ' (stopped by time limit)' if tot['incomplete'] else ''))
    for m in tot['skipmsg'][:2]:
        print('  discarded: ' + m[:300].replace('\n', ' | '))
    for k, v in tot['labels'].items():
        if k.startswith('unconfirmed'):
            print('  note: %s x%d' % (k, v))
    return 0


def run_replay(path):
    with open(path) as f:
        obj = json.load(f)
    mod = load(obj['property'])
    if obj['kind'] == 'build':
        try:
            for v in mod.BUILDS:
                B.build(v)
        except B.BuildFailed as e:
            print(e)
            return 1
        print('builds now')
        return 0
    root = tempfile.mkdtemp(prefix='xccv-')
    os.chmod(root, 0o755)
    ctx = Ctx(root, 'quick', obj.get('seed', 1))
    try:
        ctx.need(*mod.BUILDS)
        if hasattr(mod, 'prepare'):
            mod.prepare(ctx)

        def go():
            d = os.path.join(root, 'replay')
            os.makedirs(d)
            os.chmod(d, 0o777)
            ctx.dir = d
            drop_privileges()
            os.chdir(d)
            if hasattr(mod, 'worker_init'):
                mod.worker_init(ctx)
            src, case, res = eval_case(mod, ctx, choices=obj['choices'])
            if hasattr(mod, 'worker_exit'):
                mod.worker_exit(ctx)
            return res.status, res.msg, mod.render(case) if hasattr(mod, 'render') else repr(case)
        st, msg, case = _in_child(go)
        print(case)
        print('status:', st)
        print(msg)
        return 1 if st == 'fail' else 0
    finally:
        shutil.rmtree(root, ignore_errors=True)
