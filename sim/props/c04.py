"""C04: a run depends only on current chemistry, parameters and its own arguments."""
import copy
import os
import random
from collections import Counter

import numpy as np

from .. import gen, lib, solver
from ..lib import attempt, require, ename
from ..proc import quiet

ID = 'C04'
FAULTS = {'solve': {'sol_fail': 4, 'sol_value': 2, 'sol_mem': 1, 'sol_int': 2, 'sol_exc': 1}}


def variants(tier):
    return 2


def make_case(rng, tier):
    spec = gen.chem_spec(rng, 3, 11)
    x = rng.random()
    spec = gen.maybe_neutral(rng, spec, 1) if x < .12 else dict(spec, direct=True) if x < .18 else spec
    ops = []
    for i in range(rng.randint(3, 10)):
        x = rng.random()
        o = {'i': i, 'm': rng.randrange(2) if rng.random() < .4 else 0, 's': rng.getrandbits(30)}
        if x < .45 or i == 0:
            o.update(k='run', te=rng.choice([1., 2.5, 4.]), init=rng.choice([None, None, 'own']),
                     np=rng.random() < .3)
        elif x < .68:
            o.update(lib.chem_op(rng, spec), chem=True)
        elif x < .75:
            o.update(k='mut_params', what=rng.choice(['power', 't_power', 'feeds', 'radius', 'temp_gas', 'clear', 'handed', 'handed']))
        elif x < .8:
            o.update(k='mut_init')
        elif x < .86:
            o.update(k='mut_result', g=rng.choice(lib.GETTERS))
        elif x < .9:
            o.update(k='params', bad=rng.random() < .3, how=rng.choice(['dict', 'obj', 'np']))
        elif x < .94:
            o.update(k='dump')
        elif x < .975:
            o.update(k='load')
        else:
            o.update(k='mut_view', g=rng.choice(['get_species', 'get_species_stick_coef', 'get_reactions',
                                                 'get_reactions_arrh_a', 'get_stoichiomatrix', 'get_return_matrix',
                                                 'get_species_ret_coefs']))
        ops.append(o)
    if rng.random() < .15:       # as much enabled as when it was run, but something else
        some = [r[0] for r in spec['reactions']]
        k = 'dis_r' if rng.random() < .6 else 'dis_sp'
        some = some if k == 'dis_r' else [a['name'] for i, a in spec['species'] if a['name'] not in ('e', 'M')]
        if len(some) > 1:
            a, b = rng.sample(some, 2)
            m = rng.randrange(2)
            for x in [{'k': k, 'a': [a], 'chem': True}, {'k': 'run', 'te': 1., 'init': None, 'np': False},
                      {'k': 'reset', 'a': [], 'chem': True}, {'k': k, 'a': [b], 'chem': True}]:
                ops.append(dict(x, i=len(ops), m=m, s=rng.getrandbits(30)))
    ops.append({'i': len(ops), 'm': 0, 's': rng.getrandbits(30), 'k': 'run', 'te': 1., 'init': None, 'np': False})
    return {'chem': spec, 'pseed': rng.getrandbits(30), 'listseed': 0, 'how': rng.choice(['dict', 'dict', 'obj', 'np']),
            'solver': {'real': True} if rng.random() < .03 else {'n': rng.choice([1, 2, 4, 4, 60]), 'amp': .3}, 'ops': ops}


def run(env, case):
    w = env.world()
    w.call('p', lambda P: body(P, case, env))
    env.tags.update(w.emitted('tags')[-1][2])


def given(params, how):
    """What the caller passes in, and what the caller keeps to itself (for mutation)."""
    from pygmo_fwork.pygmol.model_parameters import ModelParameters
    p = copy.deepcopy(params)
    if how == 'np':
        for k, v in p.items():
            if isinstance(v, list):
                p[k] = np.array(v, dtype=float)
    return (ModelParameters(p) if how == 'obj' else p), p


def mutate(p, what):
    for k in list(p):
        nom = {'P': 'power', 't_P': 't_power', 'time_P': 't_power', 'r': 'radius', 'R': 'radius', 'Tg': 'temp_gas',
               'gas_temp': 'temp_gas'}.get(k, k)
        if nom != what:
            continue
        v = p[k]
        if nom in ('power', 't_power'):
            for i in range(len(v)):
                v[i] = v[i] * .5 + (7. if nom == 'power' else 0.)
        elif nom == 'feeds':
            for s in list(v):
                v[s] = v[s] * 3
        else:
            p[k] = v * 2
    if what == 'clear':
        p.clear()


def body(P, case, env):
    spec = case['chem']
    GlobalModel = lib.model_class(spec)
    tags = Counter()
    if GlobalModel is lib.Direct:
        tags['neutral' if spec.get('neutral') else 'direct'] += 1
    chem = gen.build(spec)
    want_params, models, own = [], [], []
    for j in range(2):      # two models share the chemistry
        p = gen.params(random.Random(case['pseed'] + j), spec)
        arg, keep = given(p, case['how'])
        models.append(GlobalModel(chem, arg))
        want_params.append(p)
        own.append(keep)
    inits, dumps, ranok = [], [], [False, False]
    expected = [None, None]     # what each model reported after its last run
    for o in case['ops']:
        P.op('x')
        rng = random.Random(o['s'])
        m = models[o['m']]
        j = o['m']
        if o.get('chem'):
            lib.apply_chem_op(chem, o)
        elif o['k'] == 'mut_params':
            if o['what'] == 'handed':     # what the model has handed out
                mutate({k: m.model.model_params[k] for k in ('power', 't_power', 'feeds')}, rng.choice(['power', 't_power', 'feeds', 'feeds', 'feeds']))
            else:
                mutate(own[j], o['what'])
            tags['mutated_params'] += 1
        elif o['k'] == 'mut_init' and inits:
            d = rng.choice(inits)
            for k in d:
                d[k] = d[k] * 10
            tags['mutated_init'] += 1
        elif o['k'] == 'mut_result' and ranok[j]:
            x = getattr(m, o['g'])()
            try:
                if hasattr(x, 'columns'):
                    x.iloc[:, :] = 3.
                    x.drop(columns=list(x.columns)[:1], inplace=True)
                else:
                    x.iloc[:] = 3.
            except ValueError:      # a read-only result cannot be disturbed by the caller
                pass
            tags['mutated_result'] += 1
        elif o['k'] == 'mut_view':
            x = getattr(chem, o['g'])()
            try:
                if o['g'] == 'get_species_ret_coefs':
                    pass
                elif hasattr(x, 'columns'):
                    x.iloc[:, :] = 2.
                elif o['g'] in ('get_species', 'get_reactions'):
                    x.drop(x.index[:1], inplace=True)
                else:
                    x.iloc[:] = .77
            except ValueError:
                pass
        elif o['k'] == 'params':
            new = gen.params(rng, spec)
            if o['bad']:
                k = rng.choice(sorted(new))
                bad = dict(new)
                if rng.random() < .5:
                    bad.pop(k)
                else:
                    bad[k] = -1
                r = attempt(m.reload_model_parameters, bad)
                if r[0] == 'ok':
                    require(False, 'bad-parameters-accepted', str(bad))
                tags['refused_params'] += 1
            elif attempt(GlobalModel, chem.copy(), new)[0] == 'ok':
                arg, own[j] = given(new, o['how'])
                m.reload_model_parameters(arg)
                want_params[j] = new
                ranok[j], expected[j] = False, None
        elif o['k'] == 'dump':
            with quiet():
                p = env.path('d%d.yaml' % len(dumps))
                chem.dump_chemistry_attributes(p)
                dumps.append(p)
        elif o['k'] == 'load' and dumps:
            with quiet():
                chem.load_chemistry_attributes(rng.choice(dumps))
            tags['loaded'] += 1
        elif o['k'] == 'run':
            do_run(P, case, o, rng, m, j, chem, want_params[j], inits, ranok, expected, tags)
        for q in (0, 1) if o.get('chem') or o['k'] == 'load' else (j,):
            # results of the last run are still what they were, whatever the chemistry is by now
            if o['k'] != 'run' and ranok[q]:
                r = attempt(lib.mem_results, models[q])
                require(r[0] == 'ok', 'results-lost', lambda: '%s after %s' % (ename(r[1]), o))
                d = lib.same_mem(r[1], expected[q][0], 1e-9)
                require(d is None, 'results-changed-by-caller', lambda: '%s after %s' % (d, o))
                tags['results_again'] += 1
    P.emit('tags', dict(tags))


def do_run(P, case, o, rng, m, j, chem, params, inits, ranok, expected, tags):
    init = None
    if o['init']:
        init = lib.init_n_for(rng, chem, '')
        if o['np']:
            init = {k: np.float64(v) for k, v in init.items()}
        inits.append(init)
    keep = copy.deepcopy(init)
    snap = gen.snapshot(chem)
    ns = len(P.solves)
    P.op(o['i'])
    r = attempt(m.run, init_el_temp=o['te'], init_n=init, log_results=False, verbose=False)
    P.op('x')
    sv = P.solves[ns] if len(P.solves) > ns else None
    if r[0] == 'ok':
        got = attempt(lib.mem_results, m)
        require(got[0] == 'ok', 'no-results-of-finished-run', lambda: 'model %d: %s' % (j, ename(got[1])))
    require(init == keep, 'arguments-changed', 'the initial densities passed in were changed by the run')
    ref = lib.fresh_run(P, case['chem'], snap, params, o['te'], keep)
    if ref[0] == 'nostate':
        tags['nostate'] += 1
        return
    prob = ref[2]
    if sv is not None and prob is not None:
        d = solver.same_problem(sv, prob)
        require(d is None, 'another-problem-solved', lambda: 'model %d: %s' % (j, d))
        tags['problems_compared'] += 1
    if r[0] == 'ok':
        ranok[j] = True
        require(ref[0] == 'ok', 'fresh-model-differs', lambda: 'a fresh model fails with %s' % ename(ref[1]))
        got = got[1]
        d = lib.same_mem(got, ref[1], 1e-6)
        require(d is None, 'results-depend-on-history', lambda: 'model %d: %s' % (j, d))
        expected[j] = (got,)
        tags['runs'] += 1
    else:
        ranok[j] = False
        require((sv is not None and sv.get('fault')) or ref[0] == 'exc', 'fails-unlike-fresh',
                lambda: 'only the model with a history fails: %s' % ename(r[1]))
        tags['failed'] += 1
