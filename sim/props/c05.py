"""C05: a parallel Morris batch yields exactly the requested complete trajectories."""
from .. import lib, morris as mo
from ..lib import require

ID = 'C05'
CONCURRENT = True


def variants(tier):
    return 4


def make_case(rng, tier):
    c = mo.model_case(rng)
    phases = []
    i = 0
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        procs = []
        for p in range(rng.choice([1, 1, 1, 2, 2, 3])):
            ops = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                o = {'i': i, 'full': rng.random() < .25, 'nocomp': rng.random() < .3}
                i += 1
                if rng.random() < .6:
                    o.update(k='batch', n=rng.choice([1, 2, 2, 3, 4]), cores=rng.choice([1, 2, 2, 3]))
                else:
                    o.update(k='traj', id='x%d' % i, verb=rng.choice([0, 1, 2]))
                ops.append(o)
            procs.append(ops)
        phases.append(procs)
    if rng.random() < .3:
        c['mine'] = rng.choice([1, 2])       # results in a directory of the user's
    c.update(ops=phases, solver={'n': 4}, listseed=rng.randint(0, 3), bufsize=8192, cpus=rng.choice([2, 3, 4]),
             kin=False)
    return c


def variant(rng, case, dry):
    return mo.variants_with(rng, case, dry, [None, mo.Table(mo.FAULTS_BATCH), mo.Table(mo.FAULTS_BATCH, first_half),
                                             mo.Table({'solve': mo.FAULTS_BATCH['solve']})])


def first_half(pt):
    return True


def shrinks(case):
    for f in ('full', 'nocomp'):
        c = dict(case, ops=[[[dict(o, **{f: False}) for o in ops] for ops in ph] for ph in case['ops']])
        yield c
    for i, ph in enumerate(case['ops']):
        for j in range(len(ph)):
            if len(ph) > 1:
                yield dict(case, ops=case['ops'][:i] + [ph[:j] + ph[j + 1:]] + case['ops'][i + 1:])
    if case.get('state') and case['type'] != 'return_coefficients':
        yield dict(case, state=[])


def run(env, case):
    case = mo.place(env, case)
    if not mo.workable(case):
        env.tags['not_workable'] += 1
        return
    w = env.world(crash_all=True)
    names = list(mo.chem_of(case, {}).get_species_name())
    solves = {}
    for n, procs in enumerate(case['ops']):
        before, _ = mo.finished(env)
        hashes = {t: lib.tree(mo.logs_dir(env) + '/' + t) for t in before}
        ph = mo.Phase(env, w, case, [('p%d%s' % (n, 'abc'[j]), ops) for j, ops in enumerate(procs)])
        for p, s in ph.solves.items():
            solves.setdefault(p, []).extend(s)
        after, bad = mo.finished(env)
        for t in before:
            require(lib.tree(mo.logs_dir(env) + '/' + t) == hashes[t], 'earlier-trajectory-changed', t)
        new = set(after) - set(before)
        lo = hi = 0
        for j, ops in enumerate(procs):
            name = 'p%d%s' % (n, 'abc'[j])
            for o in ops:
                r = ph.res[o['i']]
                k = o['n'] if o['k'] == 'batch' else 1
                hi += k
                if r['ok']:
                    lo += k
                    if o['k'] == 'traj':
                        require(o['id'] in new, 'trajectory-missing', lambda: '%s: %s' % (o['id'], bad.get(o['id'])))
                else:
                    require(ph.faulty(name), 'failed-without-fault', lambda: '%s: %s' % (o, r['e']))
                    env.tags['raised'] += 1
                env.tags[o['k']] += 1
        lo2 = max(lo, len(ph.ended))
        require(len(new) >= lo2, 'trajectories-missing', lambda: '%d new ones, %d were to be there; unfinished: %s' % (
            len(new), lo2, bad))
        require(len(new) <= hi, 'too-many-trajectories', lambda: '%d new ones instead of %d' % (len(new), hi))
        seen = set()
        for t in sorted(new):
            at = mo.find_solves(*after[t], solves, names)
            require(at, 'trajectory-not-of-its-runs', lambda: '%s is not made of successive model runs' % t)
            at = [x for x in at if x not in seen]
            require(at, 'same-trajectory-twice', t)
            seen.add(at[0])
        if after:
            check_readable(env, case, after, bad)
        env.tags['trajectories'] += len(new)


def check_readable(env, case, after, bad):
    from pygmo_fwork.optichem.morris import MorrisMethod
    times = mo.times_for([.3] if len(after) % 2 else [], list(after.values()))
    for t in sorted(after):
        r = lib.attempt(MorrisMethod.evaluate_trajectory, mo.logs_dir(env) + '/' + t, times)
        require(r[0] == 'ok', 'trajectory-not-readable', lambda: '%s: %s' % (t, lib.ename(r[1])))
    r = lib.attempt(MorrisMethod.get_morris_stats, logs_dir=mo.logs_dir(env), times=times)
    require(r[0] == 'ok', 'evaluation-fails', lambda: '%s; finished %s, unfinished %s' % (
        lib.ename(r[1]), sorted(after), bad))
    d = mo.same_stats(r[1], list(after.values()), times)
    require(d is None, 'evaluation-of-other-trajectories', d)
