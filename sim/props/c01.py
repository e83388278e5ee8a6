"""C01: a logged run reads back as what was computed, and never disturbs others."""
import os
import random
from collections import Counter

import numpy as np

from .. import gen, lib
from ..lib import attempt, require, ename
from ..proc import quiet

ID = 'C01'
FAULTS = {'solve': {'sol_fail': 3, 'sol_value': 2, 'sol_mem': 1, 'sol_int': 1, 'sol_exc': 1}}
IDS = ['run_1', 'run_1.', 'run_1 ', 'run_10', 'run 1', 'run_1.old', 'run_1.tmp', 'RUN_1', 'r.1', 'b\u011bh', 'run_1-2', '1', 'run', 'run_1.csv', 'solution']


def variants(tier):
    return 2


def gen_ops(rng, spec, n):
    ops = []
    ids = rng.sample(IDS, rng.randint(2, 5))
    for i in range(n):
        x = rng.random()
        if x < .62 or i == n - 1:
            ops.append({'i': i, 'k': 'run', 'id': rng.choice(ids), 'dir': rng.choice([0, 0, 0, 1, None]),
                        'over': rng.random() < .4, 'comp': rng.random() < .4, 'init': rng.choice([None, None, 'own']),
                        'np': rng.random() < .25, 'te': rng.choice([1.0, 2, .5, 3.25, rng.uniform(.4, 6)]), 'verbose': rng.random() < .2,
                        's': rng.getrandbits(30)})
        elif x < .8:
            ops.append(dict(lib.chem_op(rng, spec), i=i, chem=True))
        elif x < .88:
            ops.append({'i': i, 'k': 'params', 's': rng.getrandbits(30)})
        elif x < .93:
            ops.append({'i': i, 'k': 'notes', 'id': rng.choice(ids)})
        else:
            ops.append({'i': i, 'k': 'restart'})
    return ops


def make_case(rng, tier):
    spec = gen.chem_spec(rng, 4, rng.choice([12, 12, 12, 12, 12, 45]))
    c = {'chem': spec, 'pseed': rng.getrandbits(30), 'listseed': rng.getrandbits(20),
            'bufsize': rng.choice([64, 512, 8192]), 'clock_jumps': rng.random() < .3,
            'solver': {'n': rng.choice([1, 2, 3, 4, 5, 8, 25]), 'amp': rng.choice([0., .05, .5])},
            'ops': gen_ops(rng, spec, rng.randint(3, 9))}
    if rng.random() < .03:
        c['solver'] = dict(c['solver'], n=rng.choice([130, 1100, 2600]))
        c['ops'] = c['ops'][:2] + c['ops'][-2:]
    if rng.random() < .04:
        c['solver'] = {'real': True}
        c['ops'] = c['ops'][:3] + c['ops'][-1:]
    return c


def run(env, case):
    case = dict(case, _fresh=gen.build(case['chem']))
    w = env.world()
    for d in ('r0', 'r1'):
        os.makedirs(env.path(d))
    segs = [[]]
    for op in case['ops']:
        if op['k'] == 'restart':
            segs.append([])
        else:
            segs[-1].append(op)
    book = {}      # (dir, id) -> what was logged last
    for n, seg in enumerate(segs):
        book = w.call('p%d' % n, lambda P: body(P, case, seg, book, env))
        env.tags.update(w.emitted('tags')[-1][2] if w.emitted('tags') else {})
    w.call('reader', lambda P: reread(P, case, book, env))


def rdir(env, d):
    if d is None:
        return env.path('ws', 'results', 'pygmol')
    return env.path('r%d' % d)


def body(P, case, ops, book, env):
    from pygmo_fwork.global_model import GlobalModel
    tags = Counter()
    spec = case['chem']
    chem = gen.build(spec)
    params = gen.params(random.Random(case['pseed']), spec)
    model = GlobalModel(chem, params)
    book = dict(book)
    for op in ops:
        P.op(op['i'])
        if op.get('chem'):
            lib.apply_chem_op(chem, op)
            continue
        if op['k'] == 'params':
            new = gen.params(random.Random(op['s']), spec)
            # parameters may not fit the present state of the chemistry (a disabled feed gas): then nothing is claimed
            if attempt(GlobalModel, chem.copy(), new)[0] == 'ok':
                params = new
                model.reload_model_parameters(params)
            continue
        if op['k'] == 'notes':     # somebody leaves a file next to logged results
            with quiet():
                d = rdir(env, 0) + '/' + op['id']
                if os.path.isdir(d):
                    with open(d + '/notes.txt', 'w') as f:
                        f.write('hello')
                    if (0, op['id']) in book:
                        book[(0, op['id'])]['notes'] = True
            continue
        rng = random.Random(op['s'])
        here = rdir(env, op['dir'])
        key = (op['dir'], op['id'])
        before = {d: lib.tree(rdir(env, d)) for d in (0, 1, None)}
        init = None
        if op['init']:
            init = lib.init_n_for(rng, chem, '')
            if op['np']:
                init = {k: np.float64(v) for k, v in init.items()}
        el_temp = np.float64(op['te']) if op['np'] else op['te']
        snap = gen.snapshot(chem)
        ns = len(P.solves)
        r = attempt(model.run, run_id=op['id'], init_el_temp=el_temp, init_n=init,
                    log_to=None if op['dir'] is None else here, verbose=op['verbose'], overwrite=op['over'],
                    compress_logs=op['comp'])
        after = {d: lib.tree(rdir(env, d)) for d in (0, 1, None)}
        # nothing under any other id may change
        for d in before:
            for tr, other in ((before, after), (after, before)):
                for k, v in tr[d].items():
                    top = k.split('/')[0]
                    if (d, top) == key or top.startswith('.'):
                        continue
                    require(other[d].get(k) == v, 'other-id-changed',
                            lambda: '%s of %s changed by logging %s' % (k, d, key))
        if r[0] == 'exc':
            if key in book and not op['over']:
                tags['refused'] += 1
            else:
                fault = len(P.solves) > ns and P.solves[-1].get('fault')
                require(fault or case['solver'].get('real') or len(P.solves) == ns,
                        'log-failed', lambda: 'logging %s raised %s' % (key, ename(r[1])))
                tags['failed'] += 1
            ch = [x for x in lib.tree_diff(before[op['dir']], after[op['dir']]) if not x[2:].startswith('.')]
            require(not ch, 'failed-run-changed-log', lambda: '%s: %s' % (key, ch[:4]))
            continue
        require(not (key in book and not op['over']), 'existing-id-not-refused', lambda: 'id %s logged twice' % (key,))
        require(model.success(), 'no-success', '')
        sv = P.solves[-1]
        want = lib.mem_results(model)
        # what the solver handed back is what the model reports
        sol = want['sol']
        names = [str(x) for x in chem.get_species_name()]
        require(np.allclose(sol[1][:, sol[0].index('t')], sv['t'], rtol=1e-12, atol=0), 'solution-times', '')
        for j, nm in enumerate(names):
            require(np.allclose(sol[1][:, sol[0].index(nm)], sv['y'][j], rtol=1e-12, atol=0), 'solution-values', nm)
        # the initial values used are those that were asked for
        given = init if init is not None else None
        y0 = dict(zip(names, (float(x) for x in sv['y0'][:-1])))
        if given is not None:
            require(lib.close(y0, lib.plain(given), 1e-12), 'initial-values-used', lambda: '%s / %s' % (y0, given))
        if not case['solver'].get('real') and rng.random() < .4:
            # a model of its own, in the same state, has the same results
            ref = lib.fresh_run(P, spec, snap, params, float(el_temp), lib.plain(given) if given is not None else None)
            if ref[0] == 'ok':
                bad = lib.same_mem(ref[1], want, 1e-6)
                require(not bad, 'results-of-another-run', lambda: '%s: %s' % (key, bad))
                tags['refs'] += 1
        want['params'] = lib.param_norm(params)
        want['init'] = {'init_el_temp': float(el_temp), 'init_n': lib.plain(given if given is not None else y0)}
        want.update(snap=snap, comp=op['comp'], files=None)
        if key in book:
            tags['overwritten'] += 1
            require('notes.txt' not in [k.split('/')[-1] for k in after[op['dir']] if k.split('/')[0] == op['id']],
                    'overwrite-not-whole', 'a file of the replaced results is still there')
        book[key] = want
        tags['logged'] += 1
        tags['compressed'] += op['comp']
        if rng.random() < .3:
            with quiet():
                check_read(P, case, env, key, want)
    P.emit('tags', dict(tags))
    return book


def check_read(P, case, env, key, want):
    from pygmo_fwork.results import ResultsParser
    from pygmo_fwork.config import Config
    d = rdir(env, key[0])
    # through the nominal directory, an explicit directory and the backend's default one
    ways = [(ResultsParser(nominal_results_dir=d), {})]
    if key[0] is None:
        ways.append((ResultsParser(), {}))
        ways.append((ResultsParser(nominal_results_dir=rdir(env, 0)), {'backend': 'pygmol'}))
    else:
        ways.append((ResultsParser(), {'results_dir': d}))
    ways = [P.ent.choice(ways)]
    for parser, where in ways:
        r = attempt(lib.read_results, parser, key[1], **where)
        require(r[0] == 'ok', 'unreadable', lambda: '%s: %s' % (key, ename(r[1])))
        diff = lib.compare_read(r[1], want, want['comp'])
        require(diff is None, 'read-back-%s' % (diff or [''])[0], lambda: '%s: %s' % (key, diff))
    fresh = case['_fresh']
    path = os.path.join(d, key[1], Config.default_log_name('chemistry_attributes', run_id=key[1]))
    r = attempt(fresh.load_chemistry_attributes, path)
    require(r[0] == 'ok', 'chemistry-state-unreadable', lambda: '%s: %s' % (key, ename(r[1])))
    bad = gen.snap_diff(gen.snapshot(fresh), want['snap'])
    require(not bad, 'chemistry-state', lambda: '%s: %s' % (key, bad))
    require(fresh.check_coherence(path), 'chemistry-coherence', str(key))


def reread(P, case, book, env):
    for key, want in sorted(book.items(), key=repr):
        P.op('r%s' % (key,))
        check_read(P, case, env, key, want)
    for d in (0, 1, None):
        ids = lib.visible(rdir(env, d))
        require(set(ids) == {k[1] for k in book if k[0] == d}, 'ids-on-disk', lambda: '%s: %s' % (d, ids))
