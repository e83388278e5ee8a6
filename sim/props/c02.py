"""C02: logging a run is all-or-nothing under crashes, disk errors and concurrency."""
import os
import random

from .. import gen, lib
from ..lib import attempt, require, ename
from ..proc import quiet
from ..harness import DEFAULT_FAULTS

ID = 'C02'
CONCURRENT = True
FAULTS = {k: v for k, v in DEFAULT_FAULTS.items() if k != 'solve'}
KIND_WEIGHT = {'rename': 4, 'mkdir': 2, 'openw': 2, 'write': 2, 'remove': 2, 'rmdir': 2}
IDS = ['run_1', 'run_2', 'r 3', 'x.y']


def FAULT_OK(pt):
    return pt[0].startswith('p')


def variants(tier):
    return 9


def make_case(rng, tier):
    spec = gen.chem_spec(rng, 2, 6)
    nproc = rng.choice([1, 1, 2, 2, 3])
    ids = rng.sample(IDS, 3)
    ops = []
    for i in range(rng.randint(nproc, nproc + 2)):
        ops.append({'i': i, 'p': i % nproc, 'id': ids[0] if rng.random() < .75 else ids[1], 'over': rng.random() < .5,
                    'comp': rng.random() < .3, 'te': 1. + .25 * i, 'direct': rng.random() < .2})
    if rng.random() < .4:
        over = rng.random() < .5
        for o in ops:
            o['over'] = over
    return {'chem': spec, 'pseed': rng.getrandbits(30), 'listseed': rng.getrandbits(20),
            'bufsize': rng.choice([64, 512, 8192]), 'clock_jumps': rng.random() < .3,
            'crash_all': rng.random() < .5, 'old': [x for x in ids if rng.random() < .5], 'reader': rng.random() < .4,
            'dis': rng.random() < .3, 'default_dir': rng.random() < .2,
            'solver': {'n': rng.choice([1, 2, 4, 6]), 'amp': .3}, 'ops': ops}


def rdir(env, case):
    return env.path('ws', 'results', 'pygmol') if case['default_dir'] else env.path('r0')


def new_model(case):
    from pygmo_fwork.global_model import GlobalModel
    spec = case['chem']
    chem = gen.build(spec)
    if case['dis']:
        r = random.Random(case['pseed'])
        lib.apply_chem_op(chem, {'k': 'dis_r', 'a': [r.choice(spec['reactions'])[0]]})
        lib.apply_chem_op(chem, {'k': 'arrh', 'a': [spec['reactions'][0][0], 1e-9]})
    params = gen.params(random.Random(case['pseed']), spec)
    m = attempt(GlobalModel, chem, params)
    if m[0] == 'exc':     # parameters that do not fit the disabled chemistry
        chem.reset()
        m = attempt(GlobalModel, chem, params)
    return m[1], chem, params


def do_run(model, env, case, o):
    kw = dict(overwrite=o['over'])
    if o.get('direct'):   # running and logging in two steps
        def f():
            model.run(init_el_temp=o['te'], log_results=False, verbose=False)
            n0 = model.generate_initial_n()
            model.log_results(o['id'], rdir(env, case), {'init_el_temp': o['te'], 'init_n': n0},
                              compress=o['comp'], **kw)
        return attempt(f)
    return attempt(model.run, run_id=o['id'], init_el_temp=o['te'], log_to=None if case['default_dir'] else
                   rdir(env, case), verbose=False, compress_logs=o['comp'], **kw)


def oracle(P, case, ops):
    """What each attempt would log, from a model of its own."""
    out = []
    model, chem, params = case['_model']
    for o in ops:
        model.run(init_el_temp=o['te'], log_results=False, verbose=False)
        want = lib.mem_results(model)
        names = [str(x) for x in chem.get_species_name()]
        y0 = dict(zip(names, (float(x) for x in P.solves[-1]['y0'][:-1])))
        want.update(params=lib.param_norm(params), init={'init_el_temp': o['te'], 'init_n': y0},
                    snap=gen.snapshot(chem), comp=o['comp'], n=o['i'])
        out.append(want)
    return out


def setup(P, case, env, olds):
    if not case['default_dir']:
        os.makedirs(rdir(env, case))
    else:
        from pygmo_fwork.config import Config
        Config().get_results_dir('pygmol')
    for o in olds:
        model = case['_model'][0]
        r = do_run(model, env, case, o)
        require(r[0] == 'ok', 'setup', lambda: ename(r[1]))


def body(P, case, ops, env):
    model = case['_model'][0]
    out = []
    for o in ops:
        P.op(o['i'])
        P.emit('begun', o['i'])
        r = do_run(model, env, case, o)
        out.append((o['i'], r[0], type(r[1]).__name__ if r[0] == 'exc' else '', str(r[1])[:200]))
        P.emit('ended', out[-1])
    P.op('end')
    return out


def matches(got, want):
    return lib.compare_read(got, want, want['comp']) is None and not gen.snap_diff(got['snap'], want['snap'])


def inspect_id(case, env, rid):
    """('missing',), ('ok', data) or ('bad', why): what a reader finds under an id."""
    from pygmo_fwork.results import ResultsParser
    from pygmo_fwork.config import Config
    from pygmo_fwork.exceptions import ResultsNotFoundError
    d = rdir(env, case)
    parser = ResultsParser(nominal_results_dir=d)
    gone = (ResultsNotFoundError, FileNotFoundError)
    got, missing, why = {}, [], []
    for k, f in (('sol', parser.fetch_solution), ('rates', parser.fetch_rates), ('wf', parser.fetch_wall_fluxes),
                 ('params', parser.fetch_model_params), ('init', parser.fetch_initial_params)):
        r = attempt(f, rid)
        if r[0] == 'ok':
            got[k] = lib.frame(r[1]) if k in ('sol', 'rates', 'wf') else lib.plain(r[1])
        elif isinstance(r[1], gone):
            missing.append(k)
        else:
            why.append('%s: %s' % (k, ename(r[1])))
    chem = case['_fresh']
    path = os.path.join(d, rid, Config.default_log_name('chemistry_attributes', run_id=rid))
    if os.path.isfile(path):
        r = attempt(chem.load_chemistry_attributes, path)
        if r[0] == 'ok':
            got['snap'] = gen.snapshot(chem)
        else:
            why.append('chemistry: %s' % ename(r[1]))
    else:
        missing.append('snap')
    if why:
        return 'bad', '; '.join(why)
    if len(missing) == 6:
        return 'missing', None
    if missing:
        return 'bad', 'no %s although the rest is there' % missing
    return 'ok', got


def watch(P, case, env, wants):
    """A reader running along: each single fetch is complete or not found."""
    from pygmo_fwork.results import ResultsParser
    from pygmo_fwork.exceptions import ResultsNotFoundError
    parser = ResultsParser(nominal_results_dir=rdir(env, case))
    seen = 0
    for i in range(6):
        P.op(i)
        for rid, ws in sorted(wants.items()):
            k = P.ent.choice(['sol', 'rates', 'wf', 'params'])
            f = {'sol': parser.fetch_solution, 'rates': parser.fetch_rates, 'wf': parser.fetch_wall_fluxes,
                 'params': parser.fetch_model_params}[k]
            r = attempt(f, rid)
            if r[0] == 'exc':
                require(isinstance(r[1], (ResultsNotFoundError, FileNotFoundError)), 'reader-sees-torn',
                        lambda: '%s of %s: %s' % (k, rid, ename(r[1])))
                continue
            seen += 1
            if k == 'params':
                ok = any(lib.close(lib.plain(r[1]), w['params']) for w in ws)
            else:
                fr = lib.frame(r[1])
                ok = any((lib.subset_frame if w['comp'] else lib.same_frame)(fr, w[k]) is None for w in ws)
            require(ok, 'reader-sees-partial', lambda: '%s of %s is none of the runs' % (k, rid))
    return seen


def run(env, case):
    case = dict(case, _fresh=gen.build(case['chem']), _model=new_model(case))   # processes get copies of these
    olds = [{'i': 100 + n, 'id': x, 'over': False, 'comp': False, 'te': 7. + n} for n, x in enumerate(case['old'])]
    ops = case['ops']
    w0 = env.world(faults={}, sched=None)
    w0.call('setup', lambda P: setup(P, case, env, olds))
    wants = w0.call('oracle', lambda P: dict(zip([o['i'] for o in olds + ops], oracle(P, case, olds + ops))))
    byid = {}
    for o in olds + ops:
        byid.setdefault(o['id'], []).append(wants[o['i']])
    before = lib.tree(rdir(env, case))

    w = env.world()
    procs = sorted({o['p'] for o in ops})
    bodies = [('p%d' % p, lambda P, p=p: body(P, case, [o for o in ops if o['p'] == p], env)) for p in procs]
    if case['reader']:
        bodies.append(('reader', lambda P: watch(P, case, env, byid)))
    outs = w.run(bodies)
    for n, o in outs.items():
        if not o.crashed:
            o.value()
            if n == 'reader':
                env.tags['reads_while_logging'] += o.value()
    begun = {x[2] for x in w.emitted('begun')}
    ended = {x[2][0]: x[2] for x in w.emitted('ended')}
    kinds = {}
    for key, kind, f in w.fired:
        p, op, _ = key.split('|')
        kinds.setdefault(op, []).append(f)
        if kind in ('write', 'openw', 'rename', '' if case['default_dir'] else 'mkdir') and f.startswith(('disk-', 'short', 'interrupt')) and \
                op.isdigit() and p != 'reader':     # a default directory that is there needs not be made
            e = ended.get(int(op))
            require(e is None or e[1] == 'exc', 'error-swallowed', lambda: '%s of %s: attempt %s reported success' % (
                f, kind, op))
            env.tags['error_reported'] += e is not None
    after = lib.tree(rdir(env, case))
    touched = {o['id'] for o in ops}
    for a, b in ((before, after), (after, before)):
        for k, v in a.items():
            top = k.split('/')[0]
            require(top in touched or top.startswith('.') or b.get(k) == v, 'other-id-changed',
                    lambda: '%s changed although only %s were logged' % (k, sorted(touched)))

    # outcomes
    state = {}
    w2 = env.world(faults={}, sched=None)
    found = w2.call('look', lambda P: {rid: inspect_id(case, env, rid) for rid in sorted(byid)})
    for rid in sorted(touched):
        mine = [o for o in ops if o['id'] == rid and o['i'] in begun]
        old = [wants[o['i']] for o in olds if o['id'] == rid]
        ok = [o for o in mine if o['i'] in ended and ended[o['i']][1] == 'ok']
        failed = [o for o in mine if o['i'] in ended and ended[o['i']][1] == 'exc']
        cut = [o for o in mine if o['i'] not in ended or 'interrupt' in kinds.get(str(o['i']), ())]
        for o in failed:
            e = ended[o['i']]
            if str(o['i']) in kinds:
                env.tags['failed_by_fault'] += 1
                continue
            taken = old or ok or cut or any(p['id'] == rid and p['i'] != o['i'] for p in mine)
            require(not o['over'] and taken, 'failed-without-fault', lambda: 'attempt %s: %s(%s)' % (o, e[2], e[3]))
            require(e[2] == 'GlobalModelLogError', 'not-told', lambda: 'refused by %s(%s)' % (e[2], e[3]))
            env.tags['refused'] += 1
        env.tags['logged'] += len(ok)
        st, got = found[rid]
        require(st != 'bad', 'partial-results', lambda: '%s: %s' % (rid, got))
        allowed = [wants[o['i']] for o in ok + cut]
        if not ok:
            allowed += old
        if st == 'missing':
            env.tags['found_missing'] += 1
            must = ok or old
            require(not must or any(o['over'] for o in cut), 'results-lost',
                    lambda: 'nothing under %s: outcomes %s' % (rid, [ended.get(o['i']) for o in mine]))
        else:
            if len(ok) and len(procs) == 1 and not cut:
                allowed = [wants[max(o['i'] for o in ok)]]
            hit = [x['n'] for x in allowed if matches(got, x)]
            allsets = [x['n'] for x in byid[rid] if matches(got, x)]
            require(hit, 'wrong-results' if allsets else 'mixed-results',
                    lambda: '%s holds %s, expected one of %s (outcomes %s)' % (
                        rid, allsets, [x['n'] for x in allowed], [ended.get(o['i']) for o in mine]))
            env.tags['found_old' if hit[0] >= 100 else 'found_new'] += 1
        state[rid] = st
        nov = [o for o in mine if not o['over']]
        if not old and len(nov) == len(mine):
            require(len(ok) <= 1, 'several-winners', lambda: '%s logged %d times without overwriting' % (rid, len(ok)))
            if mine and not cut and not any(str(o['i']) in kinds for o in mine):
                require(len(ok) == 1, 'no-winner', lambda: '%s: %s' % (rid, [ended.get(o['i']) for o in mine]))
                env.tags['one_winner'] += len(mine) > 1
        if old and len(nov) == len(mine) and mine:
            require(not ok, 'existing-id-not-refused', lambda: '%s' % rid)

    # once the fault is gone a failed attempt can be repeated
    redo = {}
    for o in ops:
        if o['i'] in begun and not (o['i'] in ended and ended[o['i']][1] == 'ok'):
            if o['over'] or state[o['id']] == 'missing':
                redo[o['id']] = o
    if redo:
        w3 = env.world(faults={}, sched=None)
        rs = w3.call('retry', lambda P: [x[1:] for x in body(P, case, list(redo.values()), env)])
        for o, r in zip(redo.values(), rs):
            require(r[0] == 'ok', 'retry-failed', lambda: 'repeating %s: %s(%s)' % (o, r[1], r[2]))
            env.tags['retried'] += 1
        found = w3.call('look2', lambda P: {rid: inspect_id(case, env, rid) for rid in sorted(redo)})
        for rid, o in redo.items():
            st, got = found[rid]
            require(st == 'ok' and matches(got, wants[o['i']]), 'retry-wrong', lambda: '%s: %s' % (rid, st))
