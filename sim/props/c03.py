"""C03: a failed run is never reported, read or logged as a result."""
import copy
import os
import random
from collections import Counter

from .. import gen, lib
from ..lib import attempt, require, ename

ID = 'C03'
FAULTS = {'solve': {'sol_fail': 4, 'sol_value': 2, 'sol_mem': 1, 'sol_int': 2, 'sol_exc': 1},
          'write': {'err': 1, 'short': 1, 'int': 1}, 'openw': {'err': 1, 'int': 1}, 'mkdir': {'err': 1, 'int': 1},
          'rename': {'err': 1, 'int': 1}}
KIND_WEIGHT = {'solve': 8}
BAD = ['te0', 'te-', 'bad_missing', 'bad_extra', 'bad_charge', 'no_id', 'no_dir', 'id_int']


def FAULT_OK(pt):
    return pt[0].startswith('p')


def variants(tier):
    return 4


def make_case(rng, tier):
    spec = gen.chem_spec(rng, 2, 9)
    ops = []
    for i in range(rng.randint(2, 7)):
        x = rng.random()
        if x < .75 or i == 0:
            o = {'i': i, 'k': 'run', 'id': rng.choice(['a', 'b', 'c', 'd']), 'log': rng.random() < .6,
                 'over': rng.random() < .5, 'te': rng.choice([1., 2.5, 4.]), 'init': rng.choice([None, None, 'own']),
                 's': rng.getrandbits(30), 'verbose': rng.random() < .15}
            y = rng.random()
            if y < .25:
                o['bad'] = rng.choice(BAD)
            elif y < .4:
                o['leaf'] = [rng.random(), rng.choice(['int', 'mem', 'exc'])]
            elif y < .55:
                o['fault'] = rng.choice(['sol_fail', 'sol_fail', 'sol_value', 'sol_mem', 'sol_int', 'sol_exc'])
            ops.append(o)
        elif x < .95:
            ops.append(dict(lib.chem_op(rng, spec), i=i, chem=True))
        else:
            ops.append({'i': i, 'k': 'params', 's': rng.getrandbits(30)})
    return {'chem': spec, 'pseed': rng.getrandbits(30), 'listseed': 0,
            'solver': {'n': rng.choice([1, 2, 4]), 'amp': .3}, 'ops': ops,
            'faults': {'p|%d|0' % o['i']: {'f': o['fault']} for o in ops if o.get('fault') and not o.get('verbose')}}


def variant(rng, case, dry):
    from ..harness import pick_faults
    import sys
    v = copy.deepcopy(case)
    v['faults'] = dict(v.get('faults') or {}, **pick_faults(rng, sys.modules[__name__], dry['points'], 3))
    return v


EXC = {'int': KeyboardInterrupt, 'mem': MemoryError, 'exc': ArithmeticError}


def run(env, case):
    w = env.world()
    os.makedirs(env.path('r0'))
    w.call('p', lambda P: body(P, case, env))
    env.tags.update(w.emitted('tags')[-1][2])


def kwargs(o, env, chem):
    kw = dict(run_id=o['id'], init_el_temp=o['te'], log_results=o['log'], log_to=env.path('r0'),
              verbose=o['verbose'], overwrite=o['over'])
    rng = random.Random(o['s'])
    b = o.get('bad')
    if o['init'] or b in ('bad_missing', 'bad_extra', 'bad_charge'):
        kw['init_n'] = lib.init_n_for(rng, chem, b or '')
    if b == 'te0':
        kw['init_el_temp'] = 0
    elif b == 'te-':
        kw['init_el_temp'] = -1.5
    elif b == 'no_id':
        kw.update(run_id=None, log_results=True)
    elif b == 'id_int':
        kw.update(run_id=7, log_results=True)
    elif b == 'no_dir':
        kw.update(log_to=env.path('nowhere'), log_results=True)
    return kw


def body(P, case, env):
    from pygmo_fwork.global_model import GlobalModel
    spec = case['chem']
    tags = Counter()
    chem = gen.build(spec)
    params = gen.params(random.Random(case['pseed']), spec)
    model = GlobalModel(chem, params)
    had = False
    for o in case['ops']:
        P.op('x')
        if o.get('chem'):
            lib.apply_chem_op(chem, o)
            continue
        if o['k'] == 'params':
            new = gen.params(random.Random(o['s']), spec)
            if attempt(GlobalModel, chem.copy(), new)[0] == 'ok':
                params = new
                model.reload_model_parameters(params)
                had = False
            continue
        kw = kwargs(o, env, chem)
        before = lib.tree(env.path('r0'))
        snap = gen.snapshot(chem)
        leaf = None
        if o.get('leaf'):
            n = count_leaves(P, model, kw)
            leaf = lib.LeafFault(P, LEAVES, int(o['leaf'][0] * n), EXC[o['leaf'][1]]) if n else None
        ns = len(P.solves)
        P.op(o['i'])
        if leaf is not None:
            def f():
                with leaf:
                    model.run(**kw)
            r = attempt(f)
        else:
            r = attempt(model.run, **kw)
        P.op('x')
        after = lib.tree(env.path('r0'))
        sv = P.solves[ns] if len(P.solves) > ns else None
        completed = sv is not None and sv.get('ok') is True and not (leaf is not None and leaf.fired)
        if not completed:
            # the run as such did not complete, whatever the reason
            require(r[0] == 'exc' or not model.success(), 'failure-reported-as-success',
                    lambda: 'run returned and success() is True (%s)' % (sv and sv.get('fault')))
            check_refusing(P, model, env, before, r)
            tags['failed'] += 1
            tags['failed_after_success'] += had
            vis = [x for x in lib.tree_diff(before, after) if not x[2:].startswith('.')]
            require(not vis, 'failed-run-logged', lambda: '%s: %s' % (o['id'], vis[:4]))
            continue
        # the solver finished and nothing was injected: a completed run, possibly not logged (id taken, disk error)
        if r[0] == 'exc':
            tags['not_logged'] += 1
            s = attempt(model.success)
            if s[0] == 'exc' or not s[1]:
                check_refusing(P, model, env, before, r, log=False)
                continue
        else:
            require(model.success() is True, 'success-not-reported', '')
            tags['completed'] += 1
        ref = lib.fresh_run(P, spec, snap, params, kw['init_el_temp'], kw.get('init_n'))
        if ref[0] == 'nostate':
            tags['nostate'] += 1
            continue
        require(ref[0] == 'ok', 'fresh-model-differs', lambda: 'a fresh model fails with %s' % ename(ref[1]))
        got = lib.mem_results(model)
        d = lib.same_mem(got, ref[1], 1e-6)
        require(d is None, 'results-differ-from-fresh', lambda: '%s after %s' % (d, 'earlier runs' if had else 'edits'))
        had = True
    P.emit('tags', dict(tags))


LEAVES = ['pygmo_fwork/pygmol/equations.py']


def count_leaves(P, model, kw):
    with lib.quiet_keep_solver(P):
        m = copy.deepcopy(model)
        lf = lib.LeafFault(P, LEAVES)

        def f():
            with lf:
                m.run(**dict(kw, log_results=False, verbose=False))
        attempt(f)
        return lf.count


def check_refusing(P, model, env, before, r, log=True):
    s = attempt(model.success)
    require(s[0] == 'ok' and s[1] is False, 'failure-reported-as-success',
            lambda: 'success() is %r after %s' % (s[1], ename(r[1]) if r[0] == 'exc' else 'a failed solution'))
    for g in lib.GETTERS:
        x = attempt(getattr(model, g))
        require(x[0] == 'exc', 'failed-run-readable', lambda: '%s() answers after %s' % (
            g, ename(r[1]) if r[0] == 'exc' else 'a failed solution'))
    if log:
        x = attempt(model.log_results, 'late', env.path('r0'), {})
        require(x[0] == 'exc', 'failed-run-loggable', 'log_results accepts a failed run')
        vis = [y for y in lib.tree_diff(before, lib.tree(env.path('r0'))) if not y[2:].startswith('.')]
        require(not vis, 'failed-run-logged', lambda: str(vis[:4]))
