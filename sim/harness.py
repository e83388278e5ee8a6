"""Executes cases (one forked driver per case), explores them with faults and schedules, minimises failures."""
import copy
import gc
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import time
import traceback
from collections import Counter

from . import proc as pm
from .kernel import World, HarnessError, Crashed, Outcome
from .proc import Violation, _real, blame

DEFAULT_FAULTS = {   # kind of point -> {fault kind: weight}
    'write': {'crash': 3, 'torn': 3, 'short': 2, 'err': 2, 'sticky': 1, 'int': 1},
    'openw': {'crash': 2, 'err': 2, 'sticky': 1, 'int': 1},
    'mkdir': {'crash': 2, 'err': 1, 'int': 1}, 'rename': {'crash': 3, 'err': 1, 'int': 1},
    'remove': {'crash': 3, 'err': 1}, 'rmdir': {'crash': 3, 'err': 1},
    'openr': {'crash': 1, 'err': 1}, 'listdir': {'crash': 1, 'err': 1}, 'opendir': {'crash': 1},
    'fsync': {'crash': 1, 'err': 1}, 'utime': {'crash': 1}, 'chmod': {'crash': 1}, 'truncate': {'crash': 1, 'err': 1},
    'link': {'crash': 1}, 'symlink': {'crash': 1},
    'solve': {'sol_fail': 3, 'sol_value': 2, 'sol_mem': 1, 'sol_int': 2, 'sol_exc': 1, 'crash': 1},
}
ERRS = ['ENOSPC', 'EIO', 'EACCES', 'EMFILE', 'EDQUOT']


class Env:
    """What a property's `run` works with inside a case driver."""

    def __init__(self, case, base):
        self.case = case
        self.base = base
        self.scratch = os.path.join(base, 'c')
        self.tags = Counter()
        self.worlds = []
        self.samples = []

    def path(self, *a):
        return os.path.join(self.scratch, *a)

    def fresh(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(os.path.join(self.scratch, 'ws'))

    def world(self, **over):
        c = dict(self.case)
        c.update(over)
        c['world'] = len(self.worlds)      # entropy differs between machines or boots, process ids need not
        w = World(c, self.scratch)
        self.worlds.append(w)
        return w


def _drive(prop, case, base, fn='run'):
    env = Env(case, base)
    env.fresh()
    res = {'status': 'ok', 'sig': '', 'msg': ''}
    try:
        res['value'] = getattr(prop, fn)(env, case)
    except Violation as v:
        res.update(status='violation', sig=v.sig, msg=v.msg, data=v.data)
    except BaseException as e:
        where = blame(e)
        if where:
            res.update(status='violation', sig='raises-%s-in-%s' % (type(e).__name__, where),
                       msg=''.join(traceback.format_exception(e))[-5000:])
        else:
            res.update(status='harness', sig=type(e).__name__, msg=''.join(traceback.format_exception(e))[-5000:])
    res['stats'] = [w.stats() for w in env.worlds]
    res['points'] = [p for w in env.worlds for p in w.points]
    res['devs'] = env.worlds[-1].devs_made if env.worlds else []
    res['multi'] = len(env.worlds)
    res['trace'] = [t for w in env.worlds for t in w.trace][-80:]
    res['tags'] = dict(env.tags)
    shutil.rmtree(env.scratch, ignore_errors=True)
    return res


def execute(prop, case, base, timeout=None, fn='run'):
    """Runs one case in a forked driver."""
    timeout = timeout or getattr(prop, 'TIMEOUT', 200)
    r, w = os.pipe()
    gc.freeze()
    pid = _real['fork']()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            import ctypes
            ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)   # reap orphaned grandchildren ourselves
            gc.disable()
            sys.stdout = _real['open']('/dev/null', 'w')
            res = _drive(prop, case, base, fn)
            with _real['open'](w, 'wb') as f:
                pickle.dump(res, f)
        except BaseException:
            sys.__stderr__.write(traceback.format_exc())
        finally:
            os._exit(0)
    os.close(w)
    buf = []
    end = _real['time']() + timeout
    try:
        while True:
            left = end - _real['time']()
            if left <= 0:
                break
            rd, _, _ = select.select([r], [], [], left)
            if not rd:
                break
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
    finally:
        os.close(r)
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    shutil.rmtree(os.path.join(base, 'c'), ignore_errors=True)
    try:
        return pickle.loads(b''.join(buf))
    except Exception:
        return {'status': 'harness', 'sig': 'driver-lost', 'msg': 'the case driver gave no result', 'stats': [],
                'points': [], 'devs': [], 'trace': [], 'tags': {}, 'multi': 0}


# ------------------------------------------------------------------------------------------------ other interpreters
class Helper:
    """Another interpreter with another hash seed, which observes the same case; started with the lane."""

    def __init__(self, prop, base, k):
        import subprocess
        self.base = '%s/h%d' % (base, k)
        os.makedirs(self.base + '/home')
        with _real['open'](self.base + '/home/.pygmofwork', 'w') as f:
            f.write('workspace: %s/c/ws\n' % self.base)
        h = self.base + '/home'
        env = dict(os.environ, HOME=h, MPLCONFIGDIR=h, TMPDIR=h,
                   PYTHONHASHSEED=str((int(os.environ.get('PYTHONHASHSEED') or 0) * 31 + 17 + k) % 2 ** 32))
        self.p = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lane.py'),
                                   json.dumps(dict(property=prop, helper=True, base=self.base))],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=self.base)
        self.n = 0

    def ask(self, case, timeout=150):
        i = '%d.%r' % (os.getpid(), _real['time']())
        fd = self.p.stdin.fileno()
        _real['write'](fd, (json.dumps({'case': case, 'id': i}) + '\n').encode())
        buf, end = b'', _real['time']() + timeout
        while True:
            rd, _, _ = select.select([self.p.stdout.fileno()], [], [], max(0, end - _real['time']()))
            if not rd:
                raise HarnessError('no answer of the other interpreter')
            b = os.read(self.p.stdout.fileno(), 1 << 20)
            if not b:
                raise HarnessError('the other interpreter is gone')
            buf += b
            while b'\n' in buf:
                line, buf = buf.split(b'\n', 1)
                o = json.loads(line)
                if o['id'] == i:
                    return pickle.loads(bytes.fromhex(o['v']))


def observe(prop, case, base, i):
    r = execute(prop, case, base, timeout=140, fn='other')
    return {'id': i, 'v': pickle.dumps({k: r.get(k) for k in ('status', 'sig', 'msg', 'value', 'stats')}).hex()}


# ------------------------------------------------------------------------------------------------ fault plans
def pick_faults(rng, prop, points, nmax=2):
    table = getattr(prop, 'FAULTS', DEFAULT_FAULTS)
    allow = getattr(prop, 'FAULT_OK', None)
    pts = [p for p in points if p[1] in table and (allow is None or allow(p))]
    if not pts:
        return {}
    out = {}
    n = 1 if nmax == 1 or rng.random() < 0.75 else nmax
    for _ in range(n):
        if rng.random() < 0.5:
            kinds = sorted({p[1] for p in pts})
            kw = getattr(prop, 'KIND_WEIGHT', {})
            k = rng.choices(kinds, [kw.get(x, 1) for x in kinds])[0]
            p = rng.choice([q for q in pts if q[1] == k])
        else:
            p = rng.choice(pts)
        ft = table[p[1]]
        f = rng.choices(list(ft), list(ft.values()))[0]
        spec = {'f': f}
        if f == 'torn':
            spec['frac'] = rng.choice([0.1, 0.5, 0.9, rng.random()])
        elif f == 'short':
            spec['frac'] = rng.random()
        elif f in ('err', 'sticky'):
            spec = {'f': 'err', 'e': rng.choice(ERRS)}
            if f == 'sticky':
                spec['sticky'] = True
        out[p[0]] = spec
    return out


def rand_sched(rng, procs=3):
    pol = rng.choice(['random', 'random', 'writes', 'writes', 'writes', 'pct', 'pct', 'rr', 'stall', 'serial'])
    s = {'policy': pol, 'seed': rng.getrandbits(30)}
    if pol == 'random':
        s['p'] = rng.choice([0.02, 0.1, 0.4, 1.0])
    elif pol == 'writes':
        s['p'] = rng.choice([0.2, 0.5, 0.9])
    elif pol == 'pct':
        s['d'] = rng.randint(1, 6)
        s['len'] = rng.choice([60, 200, 800, 2000])
    elif pol == 'stall':
        s['victim'] = rng.randrange(max(1, procs))
    return s


# ------------------------------------------------------------------------------------------------ minimisation
def _ddmin(items, test, budget):
    n = 2
    items = list(items)
    while len(items) >= 1 and budget():
        size = max(1, len(items) // n)
        some = False
        i = 0
        while i < len(items) and budget():
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                some = True
            else:
                i += size
        if not some:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(prop, case, res, base, seconds=60, runs=250):
    """Smaller case with the same violation signature."""
    t0 = _real['time']()
    count = [0]

    def budget():
        return count[0] < runs and _real['time']() - t0 < seconds

    best = [copy.deepcopy(case), res]

    def test(c):
        count[0] += 1
        r = execute(prop, c, base)
        if r['status'] == 'violation' and r['sig'] == res['sig']:
            best[0], best[1] = copy.deepcopy(c), r
            return True
        return False

    def with_(**kw):
        c = copy.deepcopy(best[0])
        c.update(kw)
        return c

    # 1. a recorded schedule instead of a policy
    if res.get('multi') == 1:
        if not test(with_(sched={'dev': []})):
            test(with_(sched={'dev': res['devs']}))
    # 2. operations
    for _ in range(2):
        if best[0].get('ops') and budget():
            _ddmin(best[0]['ops'], lambda ops: test(with_(ops=ops)), budget)
        for key in sorted(best[0].get('faults') or {}):
            if budget():
                f = dict(best[0]['faults'])
                f.pop(key, None)
                test(with_(faults=f))
        for c in getattr(prop, 'shrinks', lambda c: ())(copy.deepcopy(best[0])):
            if not budget():
                break
            test(c)
        sched = best[0].get('sched') or {}
        if 'dev' in sched and sched['dev'] and budget():
            _ddmin(sched['dev'], lambda d: test(with_(sched={'dev': d})), budget)
    return best[0], best[1], count[0]


def trace_hash(res):
    h = hashlib.blake2b(digest_size=8)
    h.update(repr((res['sig'], res['msg'], res['trace'], [s['sig'] for s in res['stats']])).encode())
    return h.hexdigest()


# ------------------------------------------------------------------------------------------------ a lane of cases
def lane(prop, args, base, emit):
    """args: seed, lane, tier, seconds, max_cases."""
    t0 = _real['time']()
    agg = dict(runs=0, dry=0, steps=0, switches=0, sim_s=0.0, faults=Counter(), tags=Counter(), harness=[],
               sigs=set(), nontrivial=0, samples=[], reruns=0, rerun_mismatch=0, unreproduced=[], jumps=0, points=0,
               known=Counter())
    known = args.get('known') or []
    i = 0
    done = False

    def left():
        return args['seconds'] - (_real['time']() - t0)

    def account(case, res):
        agg['runs'] += 1
        agg['tags'].update(res['tags'])
        fired = []
        for s in res['stats']:
            agg['steps'] += s['steps']
            agg['switches'] += s['switches']
            agg['sim_s'] += s['sim_s']
            agg['jumps'] += s['jumps']
            agg['points'] += s['points']
            agg['faults'].update(s['fired'])
            fired += s['fired']
        sig = hashlib.blake2b(repr((
            [s['sig'] for s in res['stats']], fired, json.dumps(case.get('ops'), sort_keys=True),
            json.dumps(case.get('chem'), sort_keys=True))).encode(), digest_size=8).digest()
        nt = bool(fired) or sum(s['devs'] for s in res['stats']) > 0 or len(case.get('ops') or ()) > 1 or \
            bool(case.get('nontrivial'))
        if nt and sig not in agg['sigs']:
            agg['sigs'].add(sig)
        if nt and len(agg['samples']) < 3 and (fired or len(agg['samples']) < 1):
            agg['samples'].append({k: v for k, v in case.items() if k not in ('chem', 'known')} | {
                'fired': fired, 'steps': sum(s['steps'] for s in res['stats'])})

    def handle(case, res):
        """True if the lane has to stop."""
        if res['status'] == 'harness':
            agg['harness'].append([res['sig'], res['msg'][-1500:], case.get('seed')])
            return len(agg['harness']) > 20
        if res['status'] != 'violation':
            return False
        for k in known:
            import re
            if re.search(k['match'], res['sig'] + ' ' + res['msg']):
                agg['known'][k['match']] += 1
                return False
        again = execute(prop, case, base)
        if again['status'] != 'violation' or again['sig'] != res['sig']:
            agg['unreproduced'].append([res['sig'], res['msg'][:400], case.get('seed')])
            return len(agg['unreproduced']) > 20
        emit({'found': res['sig'], 'msg': res['msg'][:500]})
        small, r, n = minimise(prop, case, res, base, seconds=args.get('min_seconds', 60))
        final = execute(prop, small, base)
        if final['status'] != 'violation' or final['sig'] != res['sig']:
            small, final = case, again
        out = dict(property=prop.ID, case=small, sig=final['sig'], msg=final['msg'], data=final.get('data'),
                   trace=final['trace'], fired=[f for s in final['stats'] for f in s['fired']],
                   hash=trace_hash(final), minimisation_runs=n, hashseed=os.environ.get('PYTHONHASHSEED', ''))
        emit({'violation': out})
        return True

    while not done and left() > 0 and i < args['max_cases']:
        key = '%s|%s|%s|%s' % (prop.ID, args['seed'], args['lane'], i)
        rng = random.Random(key)
        i += 1
        case = prop.make_case(rng, args['tier'])
        case['seed'] = key
        res = execute(prop, case, base)
        agg['dry'] += 1
        account(case, res)
        if handle(case, res):
            break
        if res['status'] == 'harness':
            continue
        if i % 23 == 1:
            again = execute(prop, case, base)
            agg['reruns'] += 1
            if trace_hash(again) != trace_hash(res):
                agg['rerun_mismatch'] += 1
        nvar = prop.variants(args['tier']) if hasattr(prop, 'variants') else 6
        for j in range(nvar):
            if left() <= 0:
                break
            vr = random.Random('%s|v%d' % (key, j))
            v = prop.variant(vr, case, res) if hasattr(prop, 'variant') else None
            if v is None:
                v = copy.deepcopy(case)
                v['faults'] = pick_faults(vr, prop, res['points'])
                if getattr(prop, 'CONCURRENT', False):
                    v['sched'] = rand_sched(vr)
            v['seed'] = key
            vres = execute(prop, v, base)
            account(v, vres)
            if handle(v, vres):
                done = True
                break
    agg['cases'] = i
    agg['wall'] = _real['time']() - t0
    agg['sigs'] = [s.hex() for s in agg['sigs']]
    for k in ('faults', 'tags', 'known'):
        agg[k] = dict(agg[k])
    emit({'done': agg})
