"""C16: equal inputs give identical rankings and records in any process.

The same work is done in two interpreters with different hash seeds, in simulated processes which differ in everything
that must not matter: directory listing order, clock, entropy, process ids, buffer sizes, and what they did before."""
import copy
import os
import random

import numpy as np

from .. import gen, lib, morris as mo, solver, proc as pm
from ..harness import Helper, HarnessError
from ..kernel import Violation
from ..lib import attempt, ename, require
from ..proc import quiet

ID = 'C16'
TIMEOUT = 400
HELPER = []
WEIGHTINGS = ['DRG', 'DRG1', 'DRG2', 'DRGEP']
SEARCHES = ['shortest_path', 'max_bottleneck', 'max_product', 'max_flow']


def warm(base):
    import sys
    if '"replay": true' in sys.argv[1] or '"lane"' in sys.argv[1]:
        HELPER.append(Helper(ID, base, 1))


def variants(tier):
    return 1


def variant(rng, case, dry):
    v = copy.deepcopy(case)
    v['sides'] = [side(rng), side(rng)]
    return v


def side(rng):
    return {'seed': rng.randrange(10 ** 6), 'list': rng.randrange(1000), 'pid': rng.choice([1001, 1999, 30000, 99998]),
            'buf': rng.choice([512, 8192, 65536]), 'before': rng.sample(['draw', 'run', 'graph', 'traj', 'objects', 'seed'],
                                                                     rng.choice([0, 0, 1, 2]))}


def make_case(rng, tier):
    sparse = rng.random() < .4      # every species in few reactions, so that some go along with others
    c = mo.model_case(rng, *((3, 7) if sparse else (4, 10)), prefer=(lambda sp: len(gen.hub(sp)[1]) >= 2) if sparse else None,
                      types=('species', 'reactions', 'species', 'reactions', 'return_coefficients'))
    spec = c['chem']
    first, along = gen.hub(spec) if sparse else (None, [])
    sp = [a['name'] for _, a in spec['species'] if a['name'] not in ('e', 'M')]
    te = float(c['params']['t_end'])
    if rng.random() < .4:      # ties: rates that are equal, or nothing at all
        v = rng.choice([1e-15, 0.])
        for r in spec['reactions']:
            if r[3] and rng.random() < .5:
                r[3].update({k: v if k == 'arrh_a' else 0. for k in ('arrh_a', 'arrh_b', 'arrh_c') if k in r[3]})
    if rng.random() < .3:
        o = lib.chem_op(rng, spec)
        if o['k'] in ('dis_sp', 'dis_r'):
            c['state'].append(o)
    for f in spec['feeds']:
        c['state'].append({'k': 'protect', 'a': [f]})
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(['graph', 'graph', 'red', 'red', 'morris'] + ['red'] * 4 * sparse)
        cand = [x for x in sp if x != first and x not in along] or sp
        outs = rng.sample(cand, min(len(cand), rng.choice([1, 1, 1, 2] if sparse else [1, 2, 3])))
        o = {'k': k, 'i': len(ops), 'outs': outs,
             'times': sorted({te * rng.choice([.02, .1, .3, .5, 1.]) * rng.choice([.7, 1]) for _ in range(rng.choice([1, 2, 3]))})}
        if k == 'graph':
            o.update(w=rng.choice(WEIGHTINGS), surface=rng.random() < .7)
        elif k == 'morris':
            o.update(trajs=[[name(rng, j), rng.randrange(2 ** 31)] for j in range(rng.choice([1, 2, 3]))],
                     full=rng.random() < .4, nocomp=rng.random() < .3)
        else:
            o.update(rank=rng.choice(['graph', 'dynamic', 'dynamic', 'morris', 'names'] + ['names'] * 4 * sparse), first=first, w=rng.choice(WEIGHTINGS[:1] * 2 + WEIGHTINGS),
                     search=rng.choice(SEARCHES[:1] * 2 + SEARCHES), surface=rng.random() < .7,
                     max=rng.choice([50., 1e4, 1e6] if sparse else [2., 10., 50., 1e4]), streak=rng.choice([0, 1, 3, 9]), log=rng.random() < .3,
                     rs=rng.randrange(2 ** 31))
        ops.append(o)
    c.update(ops=ops, solver={'n': rng.choice([3, 5]), 'amp': rng.choice([.05, .3])}, cpus=2, kin=False,
             sides=[side(rng), side(rng)], record_solves=False, nontrivial=True)
    if rng.random() < .2:
        c['solver']['fail_mod'] = rng.choice([3, 7, 20])
    elif rng.random() < .06 and len(ops) == 1 and ops[0]['k'] == 'graph':
        c['solver'] = {'real': True}
    return c


def name(rng, j):
    return '%s%d' % (rng.choice(['x', 'traj_', 'A', 'z.', 'é']), rng.choice([j, 10 - j, 100 + j]))


def shrinks(case):
    for i in (0, 1):
        for b in case['sides'][i]['before']:
            v = copy.deepcopy(case)
            v['sides'][i]['before'].remove(b)
            yield v
    for i, o in enumerate(case['ops']):
        for k in ('outs', 'times', 'trajs'):
            if len(o.get(k) or ()) > 1:
                v = copy.deepcopy(case)
                v['ops'][i][k] = o[k][:1]
                yield v


# ------------------------------------------------------------------------------------------------ inside processes
def val(x):
    """Plain, exact, comparable."""
    import pandas as pd
    if isinstance(x, pd.Series):
        return ['series', [repr(i) for i in x.index], [val(v) for v in x.values]]
    if isinstance(x, pd.DataFrame):
        return ['frame', [repr(i) for i in x.index], [repr(i) for i in x.columns], [[val(v) for v in r] for r in x.values]]
    if isinstance(x, (tuple, list)):
        return [val(v) for v in x]
    if isinstance(x, dict):
        return ['dict', [[repr(k), val(v)] for k, v in x.items()]]
    if isinstance(x, (bool, np.bool_)) or x is None or isinstance(x, str):
        return x if not isinstance(x, np.bool_) else bool(x)
    return repr(float(x))


def files(path):
    """Everything below path."""
    out = {}
    with quiet():
        for b, dirs, fs in os.walk(path):
            for f in fs:
                with pm._real['open'](os.path.join(b, f), encoding='utf8', errors='replace') as s:
                    out[os.path.relpath(os.path.join(b, f), path)] = s.read()
    return out


def model_of(P, case, tweak=False):
    from pygmo_fwork.global_model import GlobalModel
    c = mo.chem_of(case, {})
    return GlobalModel(c, copy.deepcopy(case['params']))


def ranking(chem, params, rates, fluxes, o, search):
    from pygmo_fwork.optichem.graph import ChemistryGraph
    g = ChemistryGraph(chem, params, rates, fluxes)
    g.distribute_weights(o['w'], surface=o['surface'])
    return g.get_ranking(list(o['outs']), search)


def of_run(m, o, search):
    from pygmo_fwork.results import ResultsParser
    fr = ResultsParser.get_results_frames
    return ranking(m.model.chemistry, m.model.model_params, fr(m.get_rates(), o['times']), fr(m.get_wall_fluxes(), o['times']), o,
                   search)


def graph(P, case, o, path):
    from pygmo_fwork.results import ResultsParser
    m = model_of(P, case)
    rid = 'g%d' % o['i']
    m.run(run_id=rid, verbose=False)
    rp = ResultsParser()
    fr = rp.get_results_frames
    out = {'files': files(path('ws', 'results', 'pygmol', rid))}
    rates, fluxes = fr(rp.fetch_rates(rid), o['times']), fr(rp.fetch_wall_fluxes(rid), o['times'])
    for s in SEARCHES:
        r = attempt(ranking, m.model.chemistry, m.model.model_params, rates, fluxes, o, s)
        out[s] = val(r[1]) if r[0] == 'ok' else ename(r[1])
    return out


def morris(P, case, o, path):
    from pygmo_fwork.optichem.morris import MorrisMethod
    run = 'm%d' % o['i']
    mm = MorrisMethod(mo.chem_of(case, {}), mo.params_of(case, {}))
    out = {}
    for t, rs in o['trajs']:
        r = attempt(mm.run_trajectory, run, case['type'], traj_id=t, verbosity=0,
                    **mo.kwargs(case, {'full': o['full'], 'nocomp': o['nocomp'], 'rs': rs}))
        out['traj ' + t] = r[0] if r[0] == 'ok' else ename(r[1])
    out['files'] = files(path('ws', 'results', 'morris_sensitivity', run))
    r = attempt(MorrisMethod.get_morris_stats, run, times=o['times'])
    out['stats'] = val(list(r[1])) if r[0] == 'ok' else ename(r[1])
    for meth in ('max', 'mean'):
        r = attempt(MorrisMethod.get_ranking, list(o['outs']), list(o['times']), run, method=meth)
        out['ranking ' + meth] = val(r[1]) if r[0] == 'ok' else ename(r[1])
    return out


def red(P, case, o, path):
    import pandas as pd
    from pygmo_fwork.optichem.morris import MorrisMethod
    from pygmo_fwork.optichem.reduction import ReductionIterator
    m = model_of(P, case)
    m.model.chemistry.reset()
    out = {}
    if o['rank'] == 'dynamic':
        def rk(mod):
            return of_run(mod, o, o['search'])
    elif o['rank'] == 'graph':
        m.run(log_results=False, verbose=False)
        rk = of_run(m, o, o['search'])
        out['rank'] = val(rk)
    elif o['rank'] == 'morris':
        run = 'q%d' % o['i']
        mm = MorrisMethod(m.model.chemistry, mo.params_of(case, {}))
        for j in (0, 1):
            mm.run_trajectory(run, 'species', traj_id='y%d' % j, verbosity=0, random_seed=o['rs'] + j)
        rk = MorrisMethod.get_ranking(list(o['outs']), list(o['times']), run)
        out['rank'] = val(rk)
    else:
        ns = [str(n) for n in m.model.chemistry.get_species_name()]
        random.Random(o['rs']).shuffle(ns)
        ns.sort(key=lambda n: n != o['first'])
        rk = pd.Series([float(i // 2) for i in range(len(ns))], index=ns)
    it = ReductionIterator(m, 'r%d' % o['i'], list(o['outs']), list(o['times']), o['max'], verbose_level=0)
    if o['log']:
        it.log_rates = it.log_wall_fluxes = True
    r = attempt(it.run_reduction, rk, max_unsuccess_streak=o['streak'])
    out['end'] = r[0] if r[0] == 'ok' else ename(r[1])
    out['files'] = files(path('ws', 'results', 'reduction', 'r%d' % o['i']))
    hist = out['files'].get('reduction_history.csv', '')
    P.emit('tags', {'red_rows': hist.count('\n'), 'red_several_implicit': sum('", ' in x or ', ' in x for x in hist.split('\n'))})
    return out


def before(P, case, k, rng):
    """Something the process did earlier."""
    if k == 'draw':
        np.random.rand(5)
        random.random()
    elif k == 'seed':
        np.random.seed(rng.randrange(1000))
    elif k == 'objects':
        before.keep = [gen.build(case['chem']) for _ in range(3)]
    else:
        spec = gen.chem_spec(rng, 3, 6)
        oc = {'chem': spec, 'state': [], 'params': gen.params(rng, spec), 'kw': {}, 'type': 'species'}
        o = {'i': 99, 'outs': [a['name'] for _, a in spec['species'] if a['name'] not in ('e', 'M')][:1],
             'times': [oc['params']['t_end'] * .5], 'w': 'DRG', 'surface': True}
        if k == 'traj':
            from pygmo_fwork.optichem.morris import MorrisMethod
            attempt(MorrisMethod(mo.chem_of(oc, {}), mo.params_of(oc, {})).run_trajectory, 'earlier', 'species', verbosity=0)
        else:
            m = model_of(P, oc)
            attempt(m.run, log_results=False, verbose=False)
            if k == 'graph' and m.success is True:
                attempt(of_run, m, o, 'shortest_path')


def work(P, case, sd, path):
    rng = random.Random(sd['seed'])
    for k in sd['before']:
        attempt(before, P, case, k, rng)
    res = {}
    for o in case['ops']:
        P.op(o['i'])
        r = attempt({'graph': graph, 'morris': morris, 'red': red}[o['k']], P, case, o, path)
        res['%d %s' % (o['i'], o['k'])] = r[1] if r[0] == 'ok' else {'failed': ename(r[1])}
    P.emit('res', res)


def observe(env, case, n):
    import pickle
    sd = case['sides'][n]
    w = env.world(seed='%s|%d' % (case['seed'], sd['seed']), listseed=sd['list'], bufsize=sd['buf'])
    w.next_pid = sd['pid']
    out = w.run([('p', lambda P: work(P, case, sd, env.path))])
    out['p'].value()
    for _, t, b in w.log:
        if t == 'tags':
            env.tags.update(pickle.loads(b))
    return [pickle.loads(b) for _, t, b in w.log if t == 'res'][0]


def other(env, case):
    return observe(env, case, 1)


def run(env, case):
    if not mo.workable(case):
        env.tags['not_workable'] += 1
        return
    r = HELPER[0].ask(case)
    if r['status'] != 'ok':
        raise HarnessError('other interpreter: %s %s' % (r['sig'], r['msg']))
    b = r['value']
    a = observe(env, case, 0)
    for k in a:
        compare(env, k, a[k], b[k])
        env.tags[k.split()[1] + ('_failed ' + a[k]['failed'][:50] if 'failed' in a[k] else '')] += 1


def compare(env, k, a, b):
    kind = k.split()[1]
    require(('failed' in a) == ('failed' in b), kind + '-fails-in-one-process', lambda: '%s: %s / %s' % (
        k, a.get('failed', 'ok'), b.get('failed', 'ok')))
    require(set(a) == set(b), kind + '-differs', lambda: '%s: %s / %s' % (k, list(a), list(b)))
    for q in a:
        x, y = a[q], b[q]
        if x == y:
            continue
        if q == 'files':
            require(set(x) == set(y), kind + '-other-files', lambda: '%s: only in one: %s' % (k, sorted(set(x) ^ set(y))))
            for f in sorted(x):
                require(x[f] == y[f], kind + '-file-differs', lambda: '%s: %s: %s' % (k, f, line_diff(x[f], y[f])))
        require(False, kind + '-' + q.split()[0] + '-differs', lambda: '%s, %s: %s' % (k, q, first_diff(x, y)))


def line_diff(x, y):
    a, b = x.split('\n'), y.split('\n')
    for i, (p, q) in enumerate(zip(a, b)):
        if p != q:
            return 'line %d: %r / %r' % (i, p[:300], q[:300])
    return '%d / %d lines' % (len(a), len(b))


def first_diff(x, y):
    if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
        if x[:1] == ['series'] and x[1] != y[1]:
            return 'order %s %s / %s %s' % (x[1], x[2], y[1], y[2])
        for i, (p, q) in enumerate(zip(x, y)):
            if p != q:
                return '[%d]%s' % (i, first_diff(p, q))
    return '%r / %r' % (x, y)
