"""Shared parts of the Morris properties (C05 to C09): simulated batches and trajectories, what they solved, what is on
disk afterwards, and independent evaluations of it."""
import copy
import os
import pickle
import weakref

import numpy as np

from . import gen, lib, solver, proc as pm
from .harness import pick_faults, rand_sched
from .lib import attempt, ename, require
from .proc import quiet

RUN = 'mr'
FAULTS_BATCH = {     # inside pools: no process is killed alone, since that makes the real pool wait for ever
    'write': {'err': 3, 'short': 2, 'sticky': 2}, 'openw': {'err': 3, 'sticky': 1}, 'mkdir': {'err': 2},
    'rename': {'err': 2}, 'openr': {'err': 2}, 'listdir': {'err': 1},
    'solve': {'sol_fail': 3, 'sol_value': 2, 'sol_mem': 1, 'sol_exc': 1}}
FAULTS_CRASH = {
    'write': {'crash': 3, 'torn': 3}, 'openw': {'crash': 3}, 'mkdir': {'crash': 2}, 'rename': {'crash': 3},
    'remove': {'crash': 2}, 'rmdir': {'crash': 2}, 'openr': {'crash': 1}, 'solve': {'crash': 2}}
FAULTS_INT = {'write': {'int': 2}, 'openw': {'int': 2}, 'mkdir': {'int': 1}, 'openr': {'int': 1},
              'rename': {'int': 1}, 'solve': {'sol_int': 3}}


class Table:
    def __init__(self, table, allow=None, weight=None):
        self.FAULTS = table
        self.FAULT_OK = allow or (lambda pt: True)
        self.KIND_WEIGHT = weight or {'write': 3, 'solve': 2}


# ------------------------------------------------------------------------------------------------ cases
def model_case(rng, nmin=2, nmax=5, types=('species', 'reactions', 'return_coefficients'), prefer=None):
    """Chemistry, state, parameters and kind of trajectory."""
    tries = 40
    while True:
        spec = gen.chem_spec(rng, nmin, nmax)
        tries -= 1
        if prefer and tries > 0 and not prefer(spec):
            continue
        sp = [a['name'] for _, a in spec['species'] if a['name'] not in ('e', 'M')]
        if len(sp) >= 2 and len(spec['reactions']) >= 2:
            break
    t = rng.choice(types)
    state = []
    for r in spec['reactions']:
        if rng.random() < .15:
            state.append({'k': 'arrh', 'a': [r[0], r[3] and float(r[3]['arrh_a']) * rng.choice([.5, 3.])]})
    out = {'chem': spec, 'type': t, 'params': gen.params(rng, spec), 'kw': {}}
    if t == 'return_coefficients':
        pairs = []
        cand = [a['name'] for _, a in spec['species'] if a['name'] not in ('e', 'M') and a['charge'] >= 0]
        rng.shuffle(cand)
        for s in cand[:2]:
            tg = [x for x in sp if x != s]
            rng.shuffle(tg)
            tg = tg[:rng.choice([1, 2])]
            d = {x: round(rng.uniform(.05, .2), 3) if rng.random() < .8 else 10 ** rng.uniform(-6, -1.5) for x in tg}
            d[s] = round(rng.uniform(.6, 1.), 3)
            state.append({'k': 'stick', 'a': [s, rng.choice([.05, .3, 1.])]})
            state.append({'k': 'ret', 'a': [s, d]})
            pairs += [[s, x] for x in tg]
        rng.shuffle(pairs)
        out['kw'] = {'ret_species': pairs, 'rel_ranges': rng.choice([1.5, 1.2, [rng.choice([1.1, 1.4, 1.7]) for _ in pairs]])}
    out['state'] = state
    out['debug'] = rng.random() < (.2 if t == 'return_coefficients' else .05)  # prints a table, changes nothing else
    return out


def kwargs(case, o):
    kw = {}
    k = o.get('kw') or (case['kw'] if o.get('type', case['type']) == case['type'] else {})
    if k:
        kw['ret_species'] = [tuple(x) for x in k['ret_species']]
        kw['rel_ranges'] = k['rel_ranges']
    if o.get('full'):
        kw['full_log'] = True
    if o.get('nocomp'):
        kw['compress_solution'] = False
    if o.get('rs') is not None:
        kw['random_seed'] = o['rs']
    if case.get('_mine'):
        kw['morris_results_dir'] = case['_mine']
    return kw


def place(env, case):
    """The case with its Morris results in a directory of the user's, if it is such a case."""
    if not case.get('mine'):
        return case
    env.mdir = env.path('mine', *['deep'] * (case['mine'] - 1))
    return dict(case, _mine=env.mdir)


def chem_of(case, o):
    c = gen.build(case['chem'])
    for s in list(case['state']) + list(o.get('state') or ()):
        lib.apply_chem_op(c, s)
    return c


def params_of(case, o):
    p = copy.deepcopy(o.get('params') or case['params'])
    if o.get('mp'):
        from pygmo_fwork.pygmol.model_parameters import ModelParameters
        p = ModelParameters(p)
    return p


def workable(case, o=None):
    """Whether the plain model of the case runs at all (and every factor vector is allowed)."""
    from pygmo_fwork.global_model import GlobalModel
    from scipy.integrate._ivp import ivp
    solver_real = solver._real_solve
    c = chem_of(case, o or {})
    try:
        m = GlobalModel(c, params_of(case, {}))
    except Exception:
        return False
    # the driver is not a simulated process: use the stub by hand
    solver._real_solve = lambda fun, t_span, y0, *a, **k: solver._stub(fun, t_span, y0, case.get('solver') or {})
    try:
        m.run(log_results=False, verbose=False)
    except Exception:
        return False
    finally:
        solver._real_solve = solver_real
    if len(c.get_species()) < 2 or len(c.get_reactions()) < 2:
        return False
    if case['type'] == 'return_coefficients':
        kw = kwargs(case, {})
        rr = kw['rel_ranges']
        rr = rr if isinstance(rr, list) else [rr] * len(kw['ret_species'])
        ret = c.get_species_ret_coefs()
        need = {}
        for (s, t), g in zip(kw['ret_species'], rr):
            if c.get_rp(s).id not in ret.index:
                return False
            d = ret[c.get_rp(s).id]
            if not d or not d.get(t) or not c.get_species_stick_coef()[c.get_rp(s).id] > 0:
                return False
            need[s] = need.get(s, 0) + d[t] * (g - 1)
        if any(need[s] >= .95 * ret[c.get_rp(s).id].get(s, 0) for s in need):
            return False
        if len(kw['ret_species']) < 2:
            return False
    return True


# ------------------------------------------------------------------------------------------------ inside processes
_live = []


def watch():
    """From now on note every chemistry of this process (and its forks), and what kinetics they hold at each solve."""
    from plaschem.chemistry import Chemistry

    def new(cls, *a, **k):
        o = object.__new__(cls)
        _live.append(weakref.ref(o))
        return o
    Chemistry.__new__ = staticmethod(new)
    solver.ON_SOLVE[:] = [on_solve]


def on_solve(P, rec):
    kin = []
    with quiet():
        for r in _live if P.cfg.get('kin', True) else ():
            c = r()
            if c is None:
                continue
            try:
                k = {'arrh': {int(i): float(v) for i, v in c.get_reactions_arrh_a(si_units=False).items()},
                     'ret': {int(i): dict(v) for i, v in c.get_species_ret_coefs().items()},
                     'stick': {int(i): float(v) for i, v in c.get_species_stick_coef().items()}}
            except Exception:
                continue
            if k not in kin:
                kin.append(k)
    P.emit('sv', {'y0': rec['y0'], 'f': rec['f'], 't_end': rec['t_end'], 't': rec.get('t'), 'y': rec.get('y'), 'ok': rec.get('ok'),
                  'kin': kin, 'op': P.op_label})


def probe():
    """The Morris method, saying when a trajectory starts and ends."""
    if 'Probe' in globals():
        return globals()['Probe']
    from pygmo_fwork.optichem.morris import MorrisMethod

    class Probe(MorrisMethod):
        def run_trajectory(self, *a, **k):
            P = pm.CUR
            P.emit('tb', {})
            try:
                r = super().run_trajectory(*a, **k)
            except BaseException as e:
                P.emit('tf', ename(e))
                raise
            d = k.get('traj_id') or os.path.basename(str(getattr(self, 'logs_traj_dir', None) or ''))
            P.emit('te', str(d))
            return r
    Probe.__qualname__ = 'Probe'
    Probe.__module__ = __name__
    globals()['Probe'] = Probe
    return Probe


def act(P, case, o, mm=None):
    """One operation of a process; returns ('ok', v) or ('exc', e)."""
    if mm is None:
        with quiet():
            c, p = chem_of(case, o), params_of(case, o)
        mm = probe()(c, p, *([o['backend']] if o.get('backend') else []))
    mm.debug = bool(case.get('debug'))
    kw = kwargs(case, o)
    t = o.get('type', case['type'])
    if o['k'] == 'batch':
        return attempt(mm.run_morris, o.get('run', RUN), t, o['n'], num_cores=o['cores'], **kw)
    if o['k'] == 'traj':
        if o.get('id'):
            kw['traj_id'] = o['id']
        return attempt(mm.run_trajectory, o.get('run', RUN), t, verbosity=o.get('verb', 0), **kw)
    raise ValueError(o['k'])


def body(P, case, ops, before=None, after=None):
    watch()
    for o in ops:
        P.op(o['i'])
        P.emit('start', {'i': o['i']})
        r = act(P, case, o)
        P.emit('res', {'i': o['i'], 'ok': r[0] == 'ok', 'e': '' if r[0] == 'ok' else ename(r[1]),
                       'et': '' if r[0] == 'ok' else type(r[1]).__name__})


class Phase:
    """What happened in one set of concurrent processes."""

    def __init__(self, env, w, case, procs, fn=None):
        seen, nf = len(w.log), len(w.fired)
        fn = fn or body
        self.out = w.run([(n, (lambda P, ops=ops: fn(P, case, ops))) for n, ops in procs])
        for n, _ in procs:
            if not self.out[n].crashed:
                self.out[n].value()
        self.log = [(n, t, pickle.loads(b)) for n, t, b in w.log[seen:]]
        self.fired = w.fired[nf:]
        self.crashed = any(o.crashed for o in self.out.values())
        self.res = {b['i']: b for _, t, b in self.log if t == 'res'}
        self.ended = [b for _, t, b in self.log if t == 'te']
        self.solves = {}
        for n, t, b in self.log:
            if t == 'sv':
                self.solves.setdefault(n, []).append(b)

    def faulty(self, name):
        """Faults that hit the process or one of its workers."""
        return [f for f in self.fired if f[0].split('|')[0].split('.w')[0] == name]


# ------------------------------------------------------------------------------------------------ on disk
def logs_dir(env, run=RUN):
    return os.path.join(getattr(env, 'mdir', None) or env.path('ws', 'results', 'morris_sensitivity'), run, 'logs')


def load(d):
    """(meta, [solutions]) of a complete trajectory directory, or why it is not one."""
    import pandas as pd
    import yaml
    try:
        with open(os.path.join(d, 'meta.yaml')) as f:
            meta = yaml.load(f, Loader=yaml.FullLoader)
        ids = [meta['base_run_id']] + list(meta['run_ids'])
        if len(meta['deltas']) != len(ids) - 1 or len(meta['factors_ids']) != len(ids) - 1 or len(ids) < 2:
            return None, 'meta data of %d runs, %d deltas, %d factors' % (
                len(ids), len(meta['deltas']), len(meta['factors_ids']))
        sols = [pd.read_csv(os.path.join(d, str(i), 'solution.csv'), index_col=0, float_precision='round_trip') for i in ids]
        cols = list(sols[0].columns)
        for i, s in zip(ids, sols):
            if list(s.columns) != cols or len(s) < 2 or s.isnull().values.any():
                return None, 'solution of %s' % i
        return meta, sols
    except Exception as e:
        return None, ename(e)


def finished(env, run=RUN):
    """{trajectory: (meta, solutions)} of all complete ones, {trajectory: reason} of the others."""
    ok, bad = {}, {}
    top = logs_dir(env, run)
    for d in sorted(os.path.join(top, x) for x in (os.listdir(top) if os.path.isdir(top) else ())):
        if not os.path.isdir(d) or os.path.basename(d).startswith('.'):
            continue
        m, s = load(d)
        if m is None:
            bad[os.path.basename(d)] = s
        else:
            ok[os.path.basename(d)] = (m, s)
    return ok, bad


def find_solves(meta, sols, solves, names):
    """[(process, offset)] of the successive solves that gave exactly these solutions."""
    want = [(s['t'].values, s[names].values) for s in sols]
    out = []
    for p, recs in solves.items():
        recs = [r for r in recs if r['ok']]
        for o in range(len(recs) - len(want) + 1):
            if all(_covers(recs[o + j], *want[j]) for j in range(len(want))):
                out.append((p, o))
    return out


def _covers(rec, t, y):
    T, Y = rec['t'], rec['y'][:y.shape[1]].T
    if Y.shape[1] != y.shape[1]:
        return False
    if len(t) > len(T):
        return False
    j = 0
    for i in range(len(t)):
        while j < len(T) and not (np.isclose(T[j], t[i], rtol=1e-14, atol=0) and np.allclose(Y[j], y[i], rtol=1e-14, atol=0)):
            if i == 0:
                return False
            j += 1
        if j == len(T):
            return False
        j += 1
    return j == len(T)


# ------------------------------------------------------------------------------------------------ evaluations
def effects(meta, sols, times):
    """Elementary effects {time index: {factor: {output: value}}} and mean outputs, from the definition."""
    cols = list(sols[0].columns)
    at = np.array([[[np.interp(t, s['t'].values, s[c].values) if c != 't' else t for c in cols] for s in sols]
                   for t in times])
    d = np.array([float(x) for x in meta['deltas']])
    ee = (at[:, 1:] - at[:, :-1]) / d[None, :, None]
    return cols, ee, at.mean(axis=1)


def stats(trajs, times):
    """mu, sigma, mean outputs per time over trajectories, by definition: {(t, factor): (mu row, sigma row)}, means."""
    per, means, cols = {}, [], None
    for meta, sols in trajs:
        cols, ee, mo = effects(meta, sols, times)
        means.append(mo)
        for i in range(len(times)):
            for j, f in enumerate(meta['factors_ids']):
                per.setdefault((i, f), []).append(ee[i, j])
    mean = np.mean(means, axis=0)
    out = {}
    for k, v in per.items():
        v = np.array(v)
        with np.errstate(all='ignore'):
            sg = v.std(axis=0, ddof=1) if len(v) > 1 else np.full(v.shape[1], np.nan)
        out[k] = (v.mean(axis=0), sg)
    return cols, out, mean


def same_stats(ms, trajs, times, rtol=1e-6):
    """None, or what differs between statistics of the code and those of exactly these trajectories."""
    cols, want, mean = stats(trajs, times)
    facs = {f for _, f in want}
    for i in range(len(times)):
        for name in ('mu', 'sigma'):
            df = getattr(ms, name)[i]
            if [str(c) for c in df.columns] != [str(c) for c in cols] or set(df.index) != facs:
                return '%s has labels %s' % (name, sorted(map(str, df.index)))
            for f in facs:
                a, b = np.array(df.loc[f].values, dtype=float), want[(i, f)][0 if name == 'mu' else 1]
                sc = np.abs(mean[i]) + 1e-300
                if not np.all((np.abs(a - b) <= rtol * np.abs(b) + 1e-9 * sc) | (np.isnan(a) & np.isnan(b))):
                    return '%s of %s at time %d' % (name, f, i)
        mo = np.array(ms.mean_outputs[i].values, dtype=float)
        if not np.allclose(mo, mean[i], rtol=rtol, atol=0):
            return 'mean outputs'
        with np.errstate(all='ignore'):
            for name, j in (('mu_rel', 0), ('sigma_rel', 1)):
                df = getattr(ms, name)[i]
                for f in facs:
                    a, b = np.array(df.loc[f].values, dtype=float), want[(i, f)][j] / mean[i]
                    ok = (np.abs(a - b) <= rtol * np.abs(b) + 1e-9) | (np.isnan(a) & np.isnan(b)) | (a == b)
                    if not np.all(ok):
                        return '%s of %s' % (name, f)
    return None


def times_for(rng_u, trajs):
    """Two times inside the range of all solutions."""
    t0 = max(s['t'].values[0] for _, ss in trajs for s in ss)
    t1 = min(s['t'].values[-1] for _, ss in trajs for s in ss)
    return [t0 + (t1 - t0) * u for u in rng_u] + [t1]


def variants_with(rng, case, dry, tables, sched=True):
    """A variant of a case: a schedule and faults after one of the tables."""
    v = copy.deepcopy(case)
    tb = rng.choice(tables)
    v['faults'] = pick_faults(rng, tb, dry['points']) if tb is not None else {}
    if sched:
        v['sched'] = rand_sched(rng)
    return v


def ranking(trajs, times, outputs, method):
    """{factor: score} from the definition, or None where it is not defined for a single trajectory."""
    cols, want, mean = stats(trajs, times)
    ix = [cols.index(o) for o in outputs]
    out = {}
    for f in {f for _, f in want}:
        mu = np.array([np.abs(want[(i, f)][0][ix] / mean[i][ix]) for i in range(len(times))])
        sg = np.array([want[(i, f)][1][ix] / mean[i][ix] for i in range(len(times))])
        if not np.isfinite(mu).all() or not np.isfinite(sg).all():
            return None
        out[f] = (mu.sum() + sg.sum()) / len(times) / len(ix) if method == 'mean' else \
            float((mu.max(axis=1) + sg.max(axis=1)).max())
    return out


def same_ranking(got, want, rtol=1e-6):
    if want is None:
        return None
    if set(got.index) != set(want):
        return 'ranked factors %s' % list(got.index)
    sc = max(want.values()) + 1e-300
    for f, v in want.items():
        if abs(float(got.loc[f]) - v) > rtol * abs(v) + 1e-9 * sc:
            return 'score of %s' % f
    g = [float(x) for x in got.values]
    if any(b < a for a, b in zip(g, g[1:])):
        return 'order of scores'
    return None


def subsets(must, may):
    """Sets of trajectories with all of `must` and some of `may`, the full one first."""
    may = sorted(may)
    for k in range(1 << len(may)):
        yield sorted(must) + [m for i, m in enumerate(may) if not k >> i & 1]
