"""check <ID> [--tier quick|thorough] | replay <file> | seeds <ID> <n>
Orchestrates the lanes of one check.  Exit 0: held; 1: violation; 2: error of the check."""
import ctypes
import fcntl
import hashlib
import json
import os
import re
import select
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PLASCHEM_REPO', '/repo')
PY = os.environ.get('PLASCHEM_PYTHON') or ('/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python')
                                           else sys.executable)
LANES = 8


def slot():
    """A scratch place of its own with a path of constant length."""
    for root in ('/dev/shm', '/tmp'):
        if not os.access(root, os.W_OK):
            continue
        if root == '/dev/shm':
            try:
                st = os.statvfs(root)
                if st.f_bavail * st.f_frsize < 256 << 20:
                    continue
            except OSError:
                continue
        for i in range(100):
            p = '%s/vpsim%02d' % (root, i)
            try:
                os.makedirs(p, mode=0o700, exist_ok=True)
                fd = os.open(p + '/lock', os.O_CREAT | os.O_RDWR)
                fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
                return p, fd
            except OSError:
                continue
    raise SystemExit('no scratch place')


def no_aslr():
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


def spawn(prop, lane, args, place, hashseed):
    base = '%s/%02d' % (place, lane)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + '/home')
    with open(base + '/home/.pygmofwork', 'w') as f:
        f.write('workspace: %s/c/ws\n' % base)
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'TZ')}
    env.update(HOME=base + '/home', PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               LC_ALL='C.UTF-8', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
               PYTHONPATH=REPO, MPLCONFIGDIR=base + '/home',
               TMPDIR=base + '/home', PLASCHEM_REPO=REPO)
    a = dict(args, property=prop, lane=lane, base=base)
    return subprocess.Popen([PY, VERIF + '/sim/lane.py', json.dumps(a)], stdout=subprocess.PIPE, env=env, cwd=base,
                            preexec_fn=no_aslr, start_new_session=True)


def kill(ps):
    for p in ps:
        # a lane's drivers have process groups of their own
        try:
            kids = subprocess.run(['pgrep', '-s', str(p.pid)], capture_output=True, text=True).stdout.split()
        except OSError:
            kids = []
        for k in kids + [p.pid]:
            try:
                os.kill(int(k), signal.SIGKILL)
            except (ProcessLookupError, PermissionError, ValueError):
                pass
    for p in ps:
        p.wait()


def known_findings(pid):
    out = []
    try:
        with open(VERIF + '/known_findings.txt') as f:
            for line in f:
                m = re.match(r'known: property=(\S+) match=(\S+) (.*)', line.strip())
                if m and m.group(1) == pid:
                    out.append({'match': m.group(2), 'what': m.group(3)})
    except FileNotFoundError:
        pass
    return out


def settings(pid, tier):
    import importlib.util
    secs = {'quick': 40, 'thorough': 900}[tier]
    try:
        with open(VERIF + '/sim/budgets.json') as f:
            secs = json.load(f).get(pid, {}).get(tier, secs)
    except FileNotFoundError:
        pass
    return secs


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    secs = float(os.environ.get('PLASCHEM_SECONDS', settings(pid, tier)))
    lanes = int(os.environ.get('PLASCHEM_LANES', LANES))
    known = known_findings(pid)
    place, lock = slot()
    args = dict(seed=seed, tier=tier, seconds=secs, max_cases=10 ** 9, known=known,
                min_seconds=60 if tier == 'quick' else 180)
    ps = [spawn(pid, i, args, place, (seed * 1009 + i * 7) % 2 ** 32) for i in range(lanes)]
    bufs = {p.stdout.fileno(): [p, b''] for p in ps}
    done, viol, found = [], [], []
    try:
        hard = t0 + secs + 400
        while bufs and time.time() < hard:
            rd, _, _ = select.select(list(bufs), [], [], 5)
            for fd in rd:
                b = os.read(fd, 1 << 20)
                if not b:
                    del bufs[fd]
                    continue
                bufs[fd][1] += b
                *lines, bufs[fd][1] = bufs[fd][1].split(b'\n')
                for line in lines:
                    o = json.loads(line)
                    if 'done' in o:
                        done.append(o['done'])
                    elif 'violation' in o:
                        viol.append(o['violation'])
                    elif 'found' in o:
                        found.append(o)
                        print('# %s found: %s %s' % (pid, o['found'], o['msg'][:300]), flush=True)
            if viol:
                break
    finally:
        kill(ps)
        rcs = [p.returncode for p in ps]
        shutil.rmtree(place, ignore_errors=True)
        os.close(lock)
    rc = report(pid, tier, seed, t0, done, viol, known, lanes)
    if not viol and len(done) < lanes:
        print('# %d of %d lanes gave no result (return codes %s)' % (lanes - len(done), lanes, rcs))
        rc = 2
    return rc


def report(pid, tier, seed, t0, done, viol, known, lanes):
    wall = time.time() - t0
    tot = {k: sum(d[k] for d in done) for k in ('runs', 'dry', 'steps', 'switches', 'sim_s', 'reruns',
                                                'rerun_mismatch', 'cases', 'jumps', 'points')} if done else {}
    faults, tags, kn, sigs, harness, unrep, samples = {}, {}, {}, set(), [], [], []
    for d in done:
        for src, dst in ((d['faults'], faults), (d['tags'], tags), (d['known'], kn)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        sigs.update(d['sigs'])
        harness += d['harness']
        unrep += d['unreproduced']
        samples += d['samples']
    sys.path.insert(0, VERIF)
    meta = json.load(open(VERIF + '/sim/meta.json')) if os.path.exists(VERIF + '/sim/meta.json') else {}
    m = meta.get(pid, {})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2),
        'violations': len(viol),
        'coverage': {
            'evaluations': int(tot.get('runs', 0)), 'distinct_nontrivial': len(sigs),
            'rule': 'A case is a seeded history of operations on a seeded random chemistry, run once without faults '
                    'and then again with seeded faults and/or schedules. It counts as non-trivial if a fault fired, '
                    'or the scheduler deviated from serial execution, or it has more than one operation; distinct '
                    'by the hash of (sequence of granted processes and system calls, faults fired, operations, '
                    'chemistry).',
            'samples': samples[:6],
            'histories': int(tot.get('cases', 0)), 'simulated_runs_per_hour': int(tot.get('runs', 0) / wall * 3600),
            'seeds_per_hour': int(tot.get('cases', 0) / wall * 3600),
            'simulated_time_s': round(tot.get('sim_s', 0), 3), 'clock_jumps': int(tot.get('jumps', 0)),
            'scheduling_steps': int(tot.get('steps', 0)), 'process_switches': int(tot.get('switches', 0)),
            'fault_points_met': int(tot.get('points', 0)), 'faults_injected': dict(sorted(faults.items())),
            'reached': dict(sorted(tags.items())),
            'determinism_reruns': int(tot.get('reruns', 0)),
            'determinism_mismatches': int(tot.get('rerun_mismatch', 0)),
            'unreproduced_alarms': unrep[:5], 'harness_errors': len(harness), 'lanes': lanes,
            'real_code': m.get('real', 'all of plaschem and pygmo_fwork, pandas, numpy, yaml, csv/xml parsing, the '
                                       'standard library file layers, a real file system (tmpfs)'),
            'stubbed': m.get('stub', 'process scheduling, multiprocessing pools (same semantics on simulated '
                                     'processes), clocks, entropy, process ids, directory listing order; '
                                     "scipy's solve_ivp is a deterministic stub in most cases, real in some"),
        },
        'assumptions': ['A crash kills processes: completed system calls are durable, user-space buffers are lost '
                        '(no loss of operating system caches).',
                        'Seeded search: what was not drawn was not explored.'],
    }
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(VERIF + '/evidence/%s.json' % pid, 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write('\n')
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('# %s %s: %d runs of %d histories, %d distinct non-trivial, %d steps, faults %d, %.1f s; reruns %d (%d differ)'
          % (pid, tier, tot.get('runs', 0), tot.get('cases', 0), len(sigs), tot.get('steps', 0), sum(faults.values()),
             wall, tot.get('reruns', 0), tot.get('rerun_mismatch', 0)))
    if tags:
        print('# reached: %s' % ', '.join('%s=%d' % x for x in sorted(tags.items())))
    for h in harness[:3]:
        print('# HARNESS ERROR %s seed=%s\n%s' % (h[0], h[2], h[1]))
    for u in unrep[:3]:
        print('# not reproduced, not reported: %s' % u)
    if viol:
        v = viol[0]
        os.makedirs(VERIF + '/out', exist_ok=True)
        name = '%s/out/%s-%s.json' % (VERIF, pid, hashlib.blake2b(json.dumps(v['case'], sort_keys=True, default=repr)
                                                                  .encode(), digest_size=5).hexdigest())
        with open(name, 'w') as f:
            json.dump(v, f, indent=1, default=repr)
        print('# %s: %s' % (v['sig'], v['msg'][:1500]))
        print('# faults: %s' % json.dumps(v['case'].get('faults')))
        print('VIOLATION property=%s replay=%s' % (pid, name), flush=True)
        return 1
    return 2 if harness else 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    place, lock = slot()
    try:
        p = spawn(v['property'], 0, dict(replay=True, case=v['case']), place, v.get('hashseed') or 0)
        out, _ = p.communicate()
    finally:
        shutil.rmtree(place, ignore_errors=True)
        os.close(lock)
    o = json.loads(out.decode().strip().split('\n')[-1])
    r = o['replayed']
    print('status %s\nsignature %s (recorded %s)\n%s\ntrace:\n  %s' % (
        r['status'], r['sig'], v['sig'], r['msg'], '\n  '.join(r['trace'])))
    print('exact repetition of the recorded execution: %s' % (o['hash'] == v['hash']))
    if r['status'] == 'violation':
        print('VIOLATION property=%s replay=%s' % (v['property'], path))
        return 1
    return 0 if r['status'] == 'ok' else 2


if __name__ == '__main__':
    if sys.argv[1] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in sys.argv:
            tier = sys.argv[sys.argv.index('--tier') + 1]
        sys.exit(check(sys.argv[2], tier))
    if sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    sys.exit(__doc__)
