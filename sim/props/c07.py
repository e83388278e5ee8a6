"""C07: a Morris trajectory moves one factor per step and records what it solved."""
import numpy as np

from .. import lib, morris as mo, solver
from ..lib import require
from ..proc import quiet, Violation

ID = 'C07'
CONCURRENT = True
GRID = [round(.05 + .1 * i, 5) for i in range(10)]


def variants(tier):
    return 2


def make_case(rng, tier):
    c = mo.model_case(rng, 2, 7 if rng.random() < .3 else 4)
    i, phases = 0, []
    if rng.random() < .25 and c['type'] != 'return_coefficients':
        c['state'].append(dict(lib.chem_op(rng, c['chem'])))
        if c['state'][-1]['k'] not in ('dis_sp', 'dis_r', 'stick', 'arrh'):
            c['state'].pop()
    for _ in range(rng.choice([1, 1, 2])):
        procs = []
        for p in range(rng.choice([1, 1, 2])):
            ops = []
            for _ in range(rng.choice([1, 1, 2])):
                o = {'i': i, 'full': rng.random() < .3, 'nocomp': rng.random() < .5,
                     'rs': rng.randrange(2 ** 31) if rng.random() < .2 else None}
                i += 1
                if rng.random() < .35:
                    o.update(k='batch', n=2, cores=rng.choice([1, 2]), rs=None)
                else:
                    o.update(k='traj', id='x%d' % i, verb=rng.choice([0, 1, 2, 2, 3]))
                ops.append(o)
            procs.append(ops)
        phases.append(procs)
    if rng.random() < .3:
        c['mine'] = rng.choice([1, 2])       # results in a directory of the user's
    c.update(ops=phases, solver={'n': rng.choice([3, 4, 8])}, cpus=3, kin=True, reuse=rng.random() < .5,
             u=[rng.random() for _ in range(rng.choice([0, 1, 2]))])
    return c


def variant(rng, case, dry):
    return mo.variants_with(rng, case, dry, [None, mo.Table(mo.FAULTS_BATCH)])


def shrinks(case):
    for i, ph in enumerate(case['ops']):
        for j in range(len(ph)):
            if len(ph) > 1:
                yield dict(case, ops=case['ops'][:i] + [ph[:j] + ph[j + 1:]] + case['ops'][i + 1:])
            if len(ph[j]) > 1:
                yield dict(case, ops=case['ops'][:i] + [ph[:j] + [ph[j][:1]] + ph[j + 1:]] + case['ops'][i + 1:])


def body(P, case, ops):
    mo.watch()
    mm = None
    for o in ops:
        P.op(o['i'])
        if mm is None or not case['reuse']:
            with quiet():
                c, p = mo.chem_of(case, o), mo.params_of(case, o)
                mm = mo.probe()(c, p)
        r = mo.act(P, case, o, mm)
        P.emit('res', {'i': o['i'], 'ok': r[0] == 'ok', 'e': '' if r[0] == 'ok' else lib.ename(r[1])})


def run(env, case):
    case = mo.place(env, case)
    if not mo.workable(case):
        env.tags['not_workable'] += 1
        return
    w = env.world(crash_all=True)
    names = list(mo.chem_of(case, {}).get_species_name())
    solves, how = {}, {}
    for n, procs in enumerate(case['ops']):
        before = set(mo.finished(env)[0])
        ph = mo.Phase(env, w, case, [('p%d%s' % (n, 'abc'[j]), ops) for j, ops in enumerate(procs)], body)
        for p, s in ph.solves.items():
            solves.setdefault(p, []).extend(s)
        for j, ops in enumerate(procs):
            for o in ops:
                r = ph.res[o['i']]
                require(r['ok'] or ph.faulty('p%d%s' % (n, 'abc'[j])), 'failed-without-fault', lambda: '%s: %s' % (o, r['e']))
                if r['ok'] and o['k'] == 'traj':
                    how[o['id']] = o
        batch = [o for ops in procs for o in ops if o['k'] == 'batch']
        for t in set(mo.finished(env)[0]) - before:
            if t not in how:
                how[t] = batch[0] if len(batch) == 1 else {}
    after, _ = mo.finished(env)
    jobs = []
    for t in sorted(after):
        meta, sols = after[t]
        at = mo.find_solves(meta, sols, solves, names)
        require(at, 'not-made-of-successive-runs', lambda: '%s: %s' % (t, meta))
        jobs.append((t, meta, sols, [[r for r in solves[p] if r['ok']][o:o + len(sols)] for p, o in at]))
        env.tags['ambiguous'] += len(at) > 1
    if not jobs:
        return
    w.call('verify', lambda P: verify(P, case, jobs, how, names))
    # the evaluation
    from pygmo_fwork.optichem.morris import MorrisMethod
    for t, meta, sols, _ in jobs:
        times = mo.times_for(case['u'], [after[t]])
        r = lib.attempt(MorrisMethod.evaluate_trajectory, mo.logs_dir(env) + '/' + t, times)
        require(r[0] == 'ok', 'not-readable', lambda: '%s: %s' % (t, lib.ename(r[1])))
        cols, ee, mean = mo.effects(meta, sols, times)
        for i in range(len(times)):
            df = r[1].elementary_effects[i]
            require([str(x) for x in df.index] == [str(x) for x in meta['factors_ids']], 'effects-of-other-factors',
                    lambda: '%s / %s' % (list(df.index), meta['factors_ids']))
            require(list(df.columns) == cols, 'effects-of-other-outputs', '')
            sc = np.abs(mean[i]) + 1e-300
            d = np.abs(np.array(df.values, dtype=float) - ee[i])
            require((d <= 1e-6 * np.abs(ee[i]) + 1e-9 * sc).all(), 'effects-differ', t)
            require(np.allclose(np.array(r[1].mean_outputs[i].values, dtype=float), mean[i], rtol=1e-7), 'means-differ', t)
        env.tags['verified_' + case['type']] += 1
        env.tags['steps'] += len(meta['deltas'])


def verify(P, case, jobs, how, names):
    with quiet():
        base = mo.chem_of(case, {})
        k0 = {int(i): float(v) for i, v in base.get_reactions_arrh_a(si_units=False).items()}
        ret0 = {int(i): {k: float(x) for k, x in v.items()} for i, v in base.get_species_ret_coefs().items()}
        ids = {n: int(i) for i, n in base.get_species_name().items()}
    for t, meta, sols, windows in jobs:
        for recs in windows:      # runs that cannot be told apart by their solutions
            try:
                verify_one(P, case, t, meta, sols, recs, how, names, base, k0, ret0, ids)
                break
            except Violation:
                if recs is windows[-1]:
                    raise


def verify_one(P, case, t, meta, sols, recs, how, names, base, k0, ret0, ids):
    kins = []
    for j, rec in enumerate(recs):
        ok = None
        for k in reversed(rec['kin']):
            got = fresh(P, case, base, k, k0, ret0)
            if got is None:
                continue
            rec2, frame = got
            if solver.same_problem(rec2, rec) is None:
                ok = k, frame
                break
        require(ok is not None, 'solved-something-else', lambda: '%s, run %d: the problem solved is not that of any '
                'chemistry at hand' % (t, j))
        kins.append(ok[0])
        got = lib.frame(sols[j])
        comp = not how[t].get('full') and not how[t].get('nocomp')
        d = (lib.subset_frame if comp or not how[t] else lib.same_frame)(got, ok[1], 1e-9)
        require(d is None, 'logged-solution-differs', lambda: '%s, run %d: %s' % (t, j, d))
    deltas = [float(d) for d in meta['deltas']]
    require(all(d in (.5, -.5) for d in deltas), 'wrong-delta', lambda: '%s %s' % (t, deltas))
    facs = list(meta['factors_ids'])
    runs = [meta['base_run_id']] + list(meta['run_ids'])
    require(len(set(runs)) == len(runs), 'run-ids-repeat', t)
    if case['type'] == 'reactions':
        want = set(k0)
    elif case['type'] == 'species':
        want = set(names)
    else:
        want = {'r(%s>%s)' % tuple(x) for x in case['kw']['ret_species']}
    require(set(facs) == want and len(facs) == len(want), 'factors-not-once-each', lambda: '%s: %s of %s' % (t, facs, want))
    x0 = {'reactions': reactions, 'species': species, 'return_coefficients': returns}[case['type']](
        case, t, facs, deltas, kins, k0, ret0, ids)
    for f, x in x0.items():
        g = min(GRID, key=lambda g: abs(g - x))
        require(abs(g - x) < 1e-6, 'start-not-on-grid', lambda: '%s: factor %s starts at %r' % (t, f, x))
        d = deltas[facs.index(f)]
        require(0 < g + d < 1, 'left-the-cube', lambda: '%s: %s from %s by %s' % (t, f, g, d))


def near(a, b, rtol=1e-7):
    return abs(a - b) <= rtol * max(abs(a), abs(b))


def walk(x0, facs, deltas):
    x = dict(x0)
    yield dict(x)
    for f, d in zip(facs, deltas):
        if f in x:
            x[f] += d
        yield dict(x)


def reactions(case, t, facs, deltas, kins, k0, ret0, ids):
    x0 = {r: kins[0]['arrh'][r] / 2 / k for r, k in k0.items() if k}
    for j, x in enumerate(walk(x0, facs, deltas)):
        for r, v in x.items():
            require(near(kins[j]['arrh'][r], 2 * v * k0[r]), 'wrong-rate-coefficient',
                    lambda: '%s, run %d: reaction %s has %r x its nominal value, the steps say %r' % (
                        t, j, r, kins[j]['arrh'][r] / k0[r], 2 * v))
        unchanged(t, j, kins[j], ret0)
    return x0


def species(case, t, facs, deltas, kins, k0, ret0, ids):
    inv = {rid: set(lhs) | set(rhs) for rid, lhs, rhs, _, _ in case['chem']['reactions'] if rid in k0}
    x0 = {}
    for j, (f, d) in enumerate(zip(facs, deltas)):
        rs = [r for r in inv if f in inv[r] and k0[r]]
        for r in k0:
            a, b = kins[j]['arrh'][r], kins[j + 1]['arrh'][r]
            if r not in rs:
                require(near(a, b), 'moved-another-factor', lambda: '%s, run %d: %s moved, reaction %s changed' % (
                    t, j + 1, f, r))
        rho = [kins[j + 1]['arrh'][r] / kins[j]['arrh'][r] for r in rs]
        for q in rho:
            require(near(q, rho[0]), 'uneven-step', lambda: '%s, run %d: %s' % (t, j + 1, rho))
        if rho:
            require(rho[0] != 1., 'factor-not-moved', lambda: '%s, run %d: %s' % (t, j + 1, f))
            x0[f] = d / (rho[0] - 1)
    for j, x in enumerate(walk(x0, facs, deltas)):
        for r, k in k0.items():
            v = k * np.prod([2 * x.get(s, .5) for s in inv[r] if s in ids])
            require(near(kins[j]['arrh'][r], v, 1e-6), 'wrong-rate-coefficient',
                    lambda: '%s, run %d: reaction %s has %r, the factors say %r' % (t, j, r, kins[j]['arrh'][r], v))
        unchanged(t, j, kins[j], ret0)
    return x0


def unchanged(t, j, kin, ret0):
    for i, v in ret0.items():
        require({k: float(x) for k, x in kin['ret'].get(i, {}).items()} == v, 'return-coefficients-changed',
                lambda: '%s, run %d' % (t, j))


def returns(case, t, facs, deltas, kins, k0, ret0, ids):
    pairs = {'r(%s>%s)' % tuple(x): (i, *x) for i, x in enumerate(case['kw']['ret_species'])}
    rr = case['kw']['rel_ranges']
    rr = rr if isinstance(rr, list) else [rr] * len(pairs)
    x0 = {}
    for f, (i, s, g) in pairs.items():
        v = kins[0]['ret'][ids[s]][g]
        x0[f] = .5 + .5 * np.log(v / ret0[ids[s]][g]) / np.log(rr[i])
    for j, x in enumerate(walk(x0, facs, deltas)):
        want = {i: dict(v) for i, v in ret0.items()}
        for f, (i, s, g) in pairs.items():
            v = ret0[ids[s]][g] * rr[i] ** (2 * x[f] - 1)
            want[ids[s]][s] = want[ids[s]].get(s, 0.) - (v - want[ids[s]][g])
            want[ids[s]][g] = v
        for i, v in want.items():
            got = {k: float(y) for k, y in kins[j]['ret'][i].items()}
            require({k for k in got if got[k]} == {k for k in v if v[k]} and all(
                abs(got[k] - v[k]) <= 1e-7 for k in got), 'wrong-return-coefficients',
                lambda: '%s, run %d, species %s: %s, the factors say %s' % (t, j, i, got, v))
        for r, k in k0.items():
            require(kins[j]['arrh'][r] == k, 'rate-coefficients-changed', lambda: '%s, run %d' % (t, j))
    return x0


def fresh(P, case, base, kin, k0, ret0):
    """(problem, frame of the solution) of a new model of a new chemistry with these kinetics."""
    from pygmo_fwork.global_model import GlobalModel
    if set(kin['arrh']) != set(k0):
        return None
    with lib.quiet_keep_solver(P):
        c = mo.chem_of(case, {})
        for r, v in kin['arrh'].items():
            if v != k0[r]:
                c.set_adhoc_reactions_attributes('arrh_a', r, v)
        for i, v in kin['ret'].items():
            if v != ret0.get(i):
                c.set_adhoc_species_attributes('ret_coefs', i, dict(v))
        m = GlobalModel(c, mo.params_of(case, {}))
        n = len(P.solves)
        saved, solver.ON_SOLVE[:] = list(solver.ON_SOLVE), []
        r = lib.attempt(m.run, log_results=False, verbose=False)
        solver.ON_SOLVE[:] = saved
        if r[0] == 'exc':
            return None
        return P.solves[n], lib.frame(m.get_solution())
