"""Shared parts of the reduction properties (C10, C11): simulated reductions, and an executable reference of them."""
import copy
import os
import random
import zlib

import numpy as np

from . import gen, lib, morris as mo, solver, proc as pm
from .lib import attempt, ename, require
from .proc import quiet

COLS = ['run_id', 'species', 'ranking_score', 'rm_success', 'rm_additional', 'total_removed', 'total_left',
        'error_base_max', 'error_base_rms', 'error_last_max', 'error_last_rms']
ERRS = COLS[-4:]
MODEL_ERRORS = ('ModelSolutionError', 'InitialSolutionError', 'GlobalModelInitialGuessError',
                'EquationsParametersConsistencyError')
GENTLE = ('sol_fail', 'sol_value', 'sol_int')      # the reduction goes on with the next species
SOLF = ('sol_fail', 'sol_value', 'sol_int', 'sol_mem', 'sol_exc')


# ------------------------------------------------------------------------------------------------ cases
def case_of(rng, nmin=3, nmax=9):
    tries = rng.choice([0, 0, 10])
    while True:
        spec = gen.chem_spec(rng, nmin, nmax)
        tries -= 1
        if tries > 0 and len(gen.hub(spec)[1]) < 2:
            continue
        sp = [a['name'] for _, a in spec['species'] if a['name'] not in ('e', 'M')]
        if len(sp) >= 4:
            break
    state = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        o = lib.chem_op(rng, spec)
        if o['k'] in ('stick', 'ret', 'arrh', 'protect'):
            state.append(o)
    p = gen.params(rng, spec)
    if rng.random() < .75:
        for f in spec['feeds']:
            state.append({'k': 'protect', 'a': [f]})
    return {'chem': spec, 'params': p, 'state': state, 'kw': {}, 'type': 'species', 'kin': False,
            'solver': {'n': rng.choice([2, 3, 5]), 'amp': rng.choice([.05, .3]), 'freq': 3.0}}


def session(rng, case, i):
    spec = case['chem']
    sp = [a['name'] for _, a in spec['species'] if a['name'] not in ('e', 'M')]
    te = float(case['params']['t_end'])
    outs = rng.sample(sp, rng.choice([1, 1, 2]))
    if rng.random() < .3:
        outs.append(rng.choice(['Te', 'p', 'e', 'Tg']))
    rk = list(sp)
    rng.shuffle(rk)
    if rng.random() < .25:
        rk = rk[:max(2, len(rk) - 2)]
    mode = rng.choice(['static', 'static', 'dynamic', 'dynamic', 'manual'])
    s = {'i': i, 'id': 'rr', 'mode': mode, 'outs': outs, 'times': sorted(te * rng.choice([.02, .1, .3, .5, 1.]) * rng.choice([.7, 1])
                                                                       for _ in range(rng.choice([1, 2, 3]))),
         'max': rng.choice([.5, 2., 5., 10., 20., 50., 200., 1e4]), 'rank': rk, 'rs': rng.randrange(1000),
         'streak': rng.choice([0, 1, 1, 2, 2, 3, 9]), 'verb': rng.choice([0, 0, 0, 1, 2]), 'dir': rng.random() < .5,
         'pre': rng.random() < .15, 'np': rng.random() < .1,
         'log': [True, True, rng.random() < .3, rng.random() < .3] if rng.random() < .7 else
         [rng.random() < .5, rng.random() < .8, rng.random() < .5, rng.random() < .5]}
    if mode == 'manual':
        s['bt'] = [rng.random() < .6 for _ in rk]
        s['bad'] = rng.random() < .3
    return s


def rank_of(s, names, final=None):
    """[(species, score)] ascending; a pure function of what is left (and the solution of the model)."""
    if s['mode'] != 'dynamic':
        return [(n, k * .5) for k, n in enumerate(s['rank'])]
    if final is not None and s['rs'] % 2:
        return sorted(((n, float(final[n])) for n in names), key=lambda x: (x[1], x[0]))
    out = [(n, zlib.crc32(('%s|%d|%d' % (n, s['rs'], len(names))).encode()) / (1e6 if s['rs'] % 3 else 1e21)) for n in names]
    return sorted(out, key=lambda x: (x[1], x[0]))


def parent(env_path, s):
    return env_path('own') if s['dir'] else env_path('ws', 'results', 'reduction')


# ------------------------------------------------------------------------------------------------ inside processes
def probe():
    if 'Probe' in globals():
        return globals()['Probe']
    from pygmo_fwork.optichem.reduction import ReductionIterator

    class Probe(ReductionIterator):
        sess, count = None, 0

        def _ev(self, kind, ns, r, **kw):
            P = pm.CUR
            with quiet():
                text = None
                f = os.path.join(str(self.reduction_run_dir), 'reduction_history.csv')
                if os.path.exists(f):
                    with pm._real['open'](f, encoding='utf8') as st:
                        text = st.read()
                P.emit(kind, dict(kw, s=self.sess['i'], n=self.count, ok=r[0] == 'ok',
                                  e='' if r[0] == 'ok' else ename(r[1]), et='' if r[0] == 'ok' else type(r[1]).__name__,
                                  snap=gen.snapshot(self.model.model.chemistry), text=text, solves=[
                                      {k: x.get(k) for k in ('y0', 'f', 't_end', 'fault')} for x in P.solves[ns:]]))

        def run_base_case(self, *a, **k):
            P = pm.CUR
            ns = len(P.solves)
            P.op('%d.0' % self.sess['i'])
            P.emit('b0', {'s': self.sess['i']})
            r = attempt(super().run_base_case, *a, **k)
            self._ev('b1', ns, r)
            if r[0] == 'exc':
                raise r[1]
            return r[1]

        def remove_one_species_and_run(self, species, sp_ranking_score=np.nan, backtrack_if_over_max_error=False):
            P = pm.CUR
            self.count += 1
            ns = len(P.solves)
            P.op('%d.%d' % (self.sess['i'], self.count))
            P.emit('it0', {'s': self.sess['i'], 'n': self.count, 'sp': str(species), 'score': float(sp_ranking_score),
                           'bt': bool(backtrack_if_over_max_error)})
            r = attempt(super().remove_one_species_and_run, species, sp_ranking_score=sp_ranking_score,
                        backtrack_if_over_max_error=backtrack_if_over_max_error)
            row = lib.plain(dict(r[1])) if r[0] == 'ok' and r[1] is not None else None
            self._ev('it1', ns, r, row=row)
            P.op('%d' % self.sess['i'])
            if r[0] == 'exc':
                raise r[1]
            return r[1]
    globals()['Probe'] = Probe
    return Probe


def reduce(P, case, s, model, path):
    import pandas as pd
    P.op('%d' % s['i'])
    P.emit('ss', {'s': s['i']})
    kw = {}
    if s['dir']:
        kw['reduction_results_dir'] = path('own')
    mx = np.float64(s['max']) if s['np'] else s['max']
    r = attempt(probe(), model, s['id'], list(s['outs']), list(s['times']), mx, verbose_level=s['verb'], **kw)
    P.emit('si', {'s': s['i'], 'ok': r[0] == 'ok', 'e': '' if r[0] == 'ok' else ename(r[1])})
    if r[0] == 'exc':
        return
    it = r[1]
    it.sess = s
    it.compress_logs, it.log_solution, it.log_rates, it.log_wall_fluxes = s['log']
    if s['mode'] == 'manual':
        if s['bad']:
            P.op('%d' % s['i'])
            refused(P, it, s, s['rank'][0], 'before-base')
        r = attempt(it.run_base_case)
        if r[0] == 'exc':
            P.emit('se', {'s': s['i'], 'ok': False, 'e': ename(r[1])})
            return
        for sp, bt in zip(s['rank'], s['bt']):
            with quiet():
                can = it.can_be_removed(sp)
            if not can:
                if s['bad']:
                    refused(P, it, s, sp, 'ineligible')
                continue
            score = dict(rank_of(s, ()))[sp]
            attempt(it.remove_one_species_and_run, sp, score, bt)
        with quiet():
            model.model.chemistry.reset()
        P.emit('se', {'s': s['i'], 'ok': True, 'e': '', 'manual': True})
        return
    if s['mode'] == 'dynamic':
        def ranking(m):
            with quiet():
                fin = m.get_solution_final()
                x = rank_of(s, [str(n) for n in m.model.chemistry.get_species_name()], fin)
                return pd.Series([v for _, v in x], index=[n for n, _ in x])
    else:
        x = rank_of(s, ())
        ranking = pd.Series([v for _, v in x], index=[n for n, _ in x])
    keep = None if s['mode'] == 'dynamic' else ranking.copy()
    r = attempt(it.run_reduction, ranking, max_unsuccess_streak=s['streak'])
    with quiet():
        require(keep is None or keep.equals(ranking), 'ranking-changed', lambda: 'the ranking passed in was %s, is %s' % (
            dict(keep), dict(ranking)))
        P.emit('se', {'s': s['i'], 'ok': r[0] == 'ok', 'e': '' if r[0] == 'ok' else ename(r[1]),
                      'et': '' if r[0] == 'ok' else type(r[1]).__name__, 'snap': gen.snapshot(model.model.chemistry)})
        model.model.chemistry.reset()


def refused(P, it, s, sp, why):
    """A removal that has to be refused without any effect."""
    with quiet():
        s0, t0 = gen.snapshot(it.model.model.chemistry), lib.tree(str(it.reduction_run_dir))
    r = attempt(type(it).__mro__[1].remove_one_species_and_run, it, sp, 0., True)
    with quiet():
        require(r[0] == 'exc', 'illegal-removal-accepted', lambda: '%s of %s' % (why, sp))
        d = gen.snap_diff(gen.snapshot(it.model.model.chemistry), s0)
        require(not d, 'refused-removal-changes-chemistry', lambda: '%s: %s' % (why, d))
        require(lib.tree(str(it.reduction_run_dir)) == t0, 'refused-removal-touches-disk', why)


def body(P, case, sessions, path):
    from pygmo_fwork.global_model import GlobalModel
    model = None
    for s in sessions:
        if model is None or not case['share']:
            with quiet():
                model = GlobalModel(mo.chem_of(case, {}), copy.deepcopy(case['params']))
        reduce(P, case, s, model, path)


def poll(P, case, files, times):
    """Looks at histories while they are being written."""
    P.op('r')
    for _ in range(times):
        for f in files:
            r = attempt(read, f)
            if r[0] == 'ok':
                P.emit('rd', {'f': f, 'text': r[1]})
        P.point('sleep', 'reader', faultable=False)


def read(f):
    with open(f, encoding='utf8') as s:
        return s.read()


# ------------------------------------------------------------------------------------------------ reference
class Ref:
    """What a reduction has to do, given how its solves and disk operations went."""

    def __init__(self, case, s):
        self.case, self.s = case, s
        self.c0 = mo.chem_of(case, {})
        self.snap0 = gen.snapshot(self.c0)
        self.chem = gen.RefChem(case['chem'])
        for o in case['state']:
            if o['k'] == 'protect':
                self.chem.explicit.add(self.chem.names[o['a'][0]])
        special = {'e', 'M'}
        self.names0 = self.names(self.chem)
        self.eligible = {n for n in self.names0 if n not in special and self.chem.names[n] not in self.chem.protected()
                         and n not in s['outs']}
        self.attempted = set()
        self.memo = {}
        self.rows = []
        self.base = self.last = None

    def names(self, chem):
        return {chem.byid[i] for i in chem.sp} - {'e', 'M'}

    def fresh(self, chem):
        """('ok', solution, problem) or ('exc', error) of a new model of a new chemistry in that state."""
        k = (tuple(sorted(chem.sp)), tuple(sorted(chem.r)))
        if k not in self.memo:
            self.memo[k] = self._fresh(chem)
        return self.memo[k]

    def _fresh(self, chem):
        from pygmo_fwork.global_model import GlobalModel
        snap = dict(self.snap0, disabled_sp=sorted(set(chem.byid) - chem.sp), disabled_r=sorted(set(chem.rx) - chem.r))
        got = {}

        def stub(fun, t_span, y0, *a, **k):
            got['p'] = solver.problem(fun, t_span, y0)
            return solver._stub(fun, t_span, y0, self.case.get('solver') or {})
        real, solver._real_solve = solver._real_solve, stub
        try:
            c = gen.build_state(self.case['chem'], snap)
            m = GlobalModel(c, copy.deepcopy(self.case['params']))
            m.run(log_results=False, verbose=False)
            sol = lib.frame(m.get_solution())
        except Exception as e:
            return 'exc', e, got.get('p')
        finally:
            solver._real_solve = real
        return 'ok', sol, got['p']

    def ranking(self):
        sol = self.last
        fin = dict(zip(sol[0], sol[1][-1]))
        return rank_of(self.s, sorted(self.names(self.chem)), fin)

    def errors(self, sol, ref):
        per = []
        for o in self.s['outs']:
            d = []
            ts = [round(t, 10) for t in self.s['times']]
            f = np.array([np.interp(t, ref[1][:, ref[0].index('t')], ref[1][:, ref[0].index(o)]) for t in ts])
            r = np.array([np.interp(t, sol[1][:, sol[0].index('t')], sol[1][:, sol[0].index(o)]) for t in ts])
            d = 2 * (r - f) / (f + max(f))
            per.append(d)
        return float(max(np.abs(d).max() for d in per)), \
            float(np.sqrt(np.mean([np.mean(np.square(d)) for d in per])))

    def expect_base(self):
        b = self.fresh(self.chem)
        self.base = self.last = b[1]
        self.row0 = {'species': None, 'rm_success': True, 'total_removed': 0, 'total_left': len(self.names0),
                     'error_base_max': 0., 'error_base_rms': 0., 'error_last_max': 0., 'error_last_rms': 0., 'run': True,
                     'state': self.chem, 'sol': self.base}
        return b

    def plan(self, sp):
        """('refuse', why) or ('run', new state, implicitly removed)."""
        n = self.chem.try_disable([self.chem.names[sp]], [])
        if n is None:
            return 'refuse', 'cannot be disabled', None
        removed = self.names(self.chem) - self.names(n)
        if not removed <= self.eligible:
            return 'refuse', 'removes %s' % sorted(removed - self.eligible), None
        return 'run', n, removed - {sp}

    def row_fail(self, sp, score):
        left = len(self.names(self.chem))
        return {'species': sp, 'ranking_score': score, 'rm_success': False, 'rm_additional': set(),
                'total_removed': len(self.names0) - left, 'total_left': left, **{k: None for k in ERRS}}

    def row_done(self, sp, score, n, implicit, sol):
        left = len(self.names(n))
        eb, el = self.errors(sol, self.base), self.errors(sol, self.last)
        return {'species': sp, 'ranking_score': score, 'rm_success': True, 'rm_additional': implicit,
                'total_removed': len(self.names0) - left, 'total_left': left, 'error_base_max': eb[0],
                'error_base_rms': eb[1], 'error_last_max': el[0], 'error_last_rms': el[1], 'run': True, 'state': n,
                'sol': sol}

    def same_state(self, snap, chem):
        """None, or what of the snapshot is not that state."""
        if set(snap['enabled_sp']) != chem.sp:
            return 'species %s enabled instead of %s' % (
                sorted(chem.byid[i] for i in snap['enabled_sp']), sorted(chem.byid[i] for i in chem.sp))
        if set(snap['enabled_r']) != chem.r:
            return 'reactions %s enabled instead of %s' % (snap['enabled_r'], sorted(chem.r))
        if set(snap['protected']) != chem.protected():
            return 'protected species %s instead of %s' % (snap['protected'], sorted(chem.protected()))
        for k in ('stick', 'arrh_a', 'adhoc_sp', 'adhoc_r'):
            if snap[k] != self.snap0[k]:
                return k
        return None


def parse(text):
    """Rows of a history as dictionaries; raises if it is not one."""
    import io
    import pandas as pd
    df = pd.read_csv(io.StringIO(text), header=0, index_col=0, float_precision='round_trip')
    if list(df.columns) != COLS:
        raise ValueError('columns %s' % list(df.columns))
    if not text.endswith('\n'):
        raise ValueError('last line is not complete')
    if any(b <= a for a, b in zip(df.index, df.index[1:])):
        raise ValueError('index %s' % list(df.index))
    out = []
    for _, r in df.iterrows():
        d = {}
        for k in COLS:
            v = r[k]
            d[k] = None if pd.isna(v) else v
        out.append(d)
    return out


def row_diff(got, want):
    """None, or what of a row on disk is not as expected."""
    for k in ('species',):
        if got[k] != want[k]:
            return '%s is %s instead of %s' % (k, got[k], want[k])
    if str(got['rm_success']) != str(want['rm_success']):
        return 'rm_success is %s' % got['rm_success']
    for k in ('total_removed', 'total_left'):
        if got[k] is None or float(got[k]) != want[k]:
            return '%s is %s instead of %s' % (k, got[k], want[k])
    if 'ranking_score' in want and (got['ranking_score'] is None or not np.isclose(
            float(got['ranking_score']), want['ranking_score'], rtol=1e-13, atol=0.)):
        return 'ranking_score is %s instead of %s' % (got['ranking_score'], want['ranking_score'])
    if 'rm_additional' in want:
        g = set(str(got['rm_additional']).split(', ')) if got['rm_additional'] is not None else set()
        if g != want['rm_additional']:
            return 'rm_additional is %s instead of %s' % (got['rm_additional'], sorted(want['rm_additional']))
    for k in ERRS:
        if want[k] is None:
            if got[k] is not None:
                return '%s is %s' % (k, got[k])
        elif got[k] is None or not np.isclose(float(got[k]), want[k], rtol=1e-5, atol=1e-7):
            return '%s is %s instead of %s' % (k, got[k], want[k])
    if want.get('run') and not isinstance(got['run_id'], str):
        return 'no run id'
    return None


def match(rows, exp, need):
    """Rows against the expected entries ({'alts': [row, ...], 'opt': may be absent}); the first `need` entries have to be
    there. Returns the list of (row, alternative) pairs, or raises."""
    out, j = [], 0
    for i, r in enumerate(rows):
        while True:
            if j == len(exp):
                return None, 'row %d (%s) was never performed' % (i, r['species'])
            ds = [row_diff(r, a) for a in exp[j]['alts']]
            if None in ds:
                out.append((r, exp[j]['alts'][ds.index(None)]))
                j += 1
                break
            if exp[j]['opt'] and exp[j]['alts'][0]['species'] != r['species']:
                j += 1
                continue
            return None, 'row %d (%s): %s' % (i, r['species'], ' | '.join(ds))
    while j < need:
        if not exp[j]['opt']:
            return None, 'iteration %d (%s) is missing' % (j, exp[j]['alts'][0]['species'])
        j += 1
    return out, None
