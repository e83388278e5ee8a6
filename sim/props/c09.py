"""C09: Morris leaves the inputs alone and its trajectories random and independent."""
import copy

import numpy as np

from .. import gen, lib, morris as mo, solver
from ..lib import require
from ..proc import quiet

ID = 'C09'
CONCURRENT = True


def variants(tier):
    return 4


def make_case(rng, tier):
    big = rng.random() < .5
    while True:
        c = mo.model_case(rng, 8 if big else 2, 10 if big else 4, types=('reactions',) if big else
                          ('species', 'reactions', 'return_coefficients'))
        if not big or len(c['chem']['reactions']) >= 8:
            break
    i, phases = 0, []
    seed = rng.choice([0, rng.randrange(2 ** 31), rng.randrange(2 ** 31)])
    for _ in range(rng.choice([1, 2, 2])):
        procs = []
        for p in range(rng.choice([1, 1, 2])):
            ops = []
            for _ in range(rng.choice([1, 2, 2, 3])):
                o = {'i': i, 'run': 'mr%d' % i if rng.random() < .5 else 'mr', 'full': rng.random() < .15}
                i += 1
                if rng.random() < .4:
                    o.update(k='batch', n=rng.choice([2, 3, 4]), cores=rng.choice([1, 2, 4]),
                             rs=seed if rng.random() < .15 else None)
                else:
                    o.update(k='traj', id='x%d' % i, verb=0, rs=seed if rng.random() < (.3 if big else .6) else None)
                o['before'] = rng.choice([None, None, 'draw', 'seed', 'run'])
                ops.append(o)
            procs.append(ops)
        phases.append(procs)
    c.update(ops=phases, solver={'n': 3}, cpus=4, kin=True, seedused=seed, mp=rng.random() < .2,
             share=rng.random() < .5, np=rng.random() < .2)
    return c


def not_worker(pt):
    return '.w' not in pt[0]


def variant(rng, case, dry):
    return mo.variants_with(rng, case, dry, [None, mo.Table(mo.FAULTS_BATCH), mo.Table(mo.FAULTS_BATCH),
                                             mo.Table(mo.FAULTS_INT, not_worker)])


def shrinks(case):
    for i, ph in enumerate(case['ops']):
        for j in range(len(ph)):
            if len(ph) > 1:
                yield dict(case, ops=case['ops'][:i] + [ph[:j] + ph[j + 1:]] + case['ops'][i + 1:])
            for k in range(len(ph[j])):
                if len(ph[j]) > 1:
                    yield dict(case, ops=case['ops'][:i] + [ph[:j] + [ph[j][:k] + ph[j][k + 1:]] + ph[j + 1:]] +
                               case['ops'][i + 1:])


def view(p):
    d = {k: p[k] for k in p.keys()} if not isinstance(p, dict) else p
    return {k: lib.plain(v) for k, v in d.items()}


def other_run(P, case):
    from pygmo_fwork.global_model import GlobalModel
    saved, solver.ON_SOLVE[:] = list(solver.ON_SOLVE), []
    try:
        with lib.quiet_keep_solver(P):
            GlobalModel(gen.build(case['chem']), copy.deepcopy(case['params'])).run(log_results=False, verbose=False)
    finally:
        solver.ON_SOLVE[:] = saved


def body(P, case, ops):
    mo.watch()
    with quiet():
        c, p = mo.chem_of(case, {}), mo.params_of(case, {'mp': case['mp']})
        if case['np'] and not case['mp']:
            p = {k: np.array(v, dtype=float) if isinstance(v, list) else v for k, v in p.items()}
        mm = mo.probe()(c, p)
    for o in ops:
        P.op(o['i'])
        with quiet():
            if not case['share']:
                mm = mo.probe()(c, p)
            if o['before'] == 'draw':
                np.random.rand(7)
            elif o['before'] == 'seed':
                np.random.seed(12345)
        if o['before'] == 'run':
            lib.attempt(lambda: other_run(P, case))
        with quiet():
            s0, p0 = gen.snapshot(c), view(p)
        P.emit('start', {'i': o['i'], 'rs': o.get('rs')})
        r = mo.act(P, case, o, mm)
        with quiet():
            d = gen.snap_diff(gen.snapshot(c), s0)
            require(not d, 'chemistry-changed', lambda: '%s by %s (%s)' % (d, o, r[0]))
            require(view(p) == p0 and type(p) is type(mm.model_params), 'model-parameters-changed', lambda: '%s' % o)
        P.emit('res', {'i': o['i'], 'ok': r[0] == 'ok', 'e': '' if r[0] == 'ok' else lib.ename(r[1])})


def run(env, case):
    if not mo.workable(case):
        env.tags['not_workable'] += 1
        return
    w = env.world(crash_all=True)
    k0 = {int(i): float(v) for i, v in mo.chem_of(case, {}).get_reactions_arrh_a(si_units=False).items()}
    nz = sorted(r for r, k in k0.items() if k)
    seeded, free = {}, []
    for n, procs in enumerate(case['ops']):
        ph = mo.Phase(env, w, case, [('p%d%s' % (n, 'abc'[j]), ops) for j, ops in enumerate(procs)], body)
        ops = {o['i']: o for q in procs for o in q}
        for j, q in enumerate(procs):
            for o in q:
                r = ph.res[o['i']]
                require(r['ok'] or ph.faulty('p%d%s' % (n, 'abc'[j])), 'failed-without-fault', lambda: '%s: %s' % (o, r['e']))
                env.tags['ok' if r['ok'] else 'failed'] += 1
        # the trajectories that came to their end, by process
        cur, buf = {}, {}
        for name, t, b in ph.log:
            root = name.split('.w')[0]
            if t == 'start':
                cur[root] = b['i']
            elif t == 'tb':
                buf[name] = []
            elif t == 'sv' and name in buf:
                buf[name].append(b)
            elif t == 'te' and name in buf:
                o = ops[cur[root]]
                (seeded.setdefault(o['rs'], []) if o.get('rs') is not None else free).append((o, buf.pop(name), b))
    # the same seed, the same trajectory
    for rs, ts in seeded.items():
        for o, svs, t in ts[1:]:
            a, b = ts[0][1], svs
            same = len(a) == len(b) and all(
                np.array_equal(x['y0'], y['y0']) and all(np.allclose(p, q, rtol=1e-9, atol=0, equal_nan=True)
                                                         for p, q in zip(x['f'], y['f'])) for x, y in zip(a, b))
            require(same, 'seed-not-reproduced', lambda: 'seed %s: %s and %s' % (rs, ts[0][0], o))
            m = [mo.load(mo.logs_dir(env, x.get('run', mo.RUN)) + '/' + y)[0] for x, y in ((ts[0][0], ts[0][2]), (o, t))]
            require(m[0] is not None and m[0] == m[1], 'seed-not-reproduced', lambda: 'records %s / %s' % tuple(m))
            env.tags['seed_reproduced'] += 1
    # without one, independent ones
    if case['type'] == 'reactions' and len(nz) >= 8:
        starts, orders = [], []
        for o, svs, _ in free:
            x = vector(svs[0], k0, nz)
            if x is None:
                continue
            order = tuple(moved(a, b, k0, nz) for a, b in zip(svs, svs[1:]))
            starts.append(x)
            orders.append(order)
        for i in range(len(starts)):
            for j in range(i):
                require(starts[i] != starts[j], 'same-random-start', lambda: '%s and %s' % (free[j][0], free[i][0]))
        for group in (orders,):
            for i in range(len(group) - 2):
                require(not group[i] == group[i + 1] == group[i + 2], 'same-random-order', lambda: '%s' % (group[i],))
        for s in seeded:
            for o, svs, _ in seeded[s][:1]:
                x = vector(svs[0], k0, nz)
                require(x is None or x not in starts, 'unseeded-equals-seeded', lambda: '%s' % o)
        if len(starts) > 1:
            env.tags['independent'] += len(starts)
        # a factor that never varies between many trajectories is not sampled
        if len(starts) >= 10:
            for k, col in enumerate(zip(*starts)):
                require(len(set(col)) > 1, 'factor-not-random', lambda: 'reaction %s' % nz[k])


def vector(sv, k0, nz):
    """The factors of a run, out of whichever chemistry at hand is not the nominal one."""
    for kin in reversed(sv['kin']):
        if set(kin['arrh']) == set(k0) and any(kin['arrh'][r] != k0[r] for r in nz):
            return tuple(round(kin['arrh'][r] / 2 / k0[r], 4) for r in nz)
    return None


def moved(a, b, k0, nz):
    x, y = vector(a, k0, nz), vector(b, k0, nz)
    if x is None or y is None:
        return None
    return tuple(r for r, u, v in zip(nz, x, y) if u != v)
