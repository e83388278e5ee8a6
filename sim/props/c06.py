"""C06: a Morris run survives crashes: finished trajectories count, unfinished never do."""
import pickle

from .. import lib, morris as mo
from ..lib import require, attempt, ename
from ..proc import quiet

ID = 'C06'
CONCURRENT = True
RUNS = ['mr', 'mr', 'run [1]', 'a*b', '2024-01-01 x']


def variants(tier):
    return 6


def make_case(rng, tier):
    c = mo.model_case(rng, 2, 4)
    phases, i, ids = [], 0, []
    pools = rng.random() < .6
    run = rng.choice(RUNS)
    for _ in range(rng.choice([2, 2, 3, 4])):
        procs = []
        for p in range(rng.choice([1, 1, 2])):
            o = {'i': i, 'full': rng.random() < .2, 'nocomp': rng.random() < .2, 'run': run}
            i += 1
            if pools and rng.random() < .65:
                o.update(k='batch', n=rng.choice([1, 2, 2, 3]), cores=rng.choice([1, 2, 3]))
            else:
                o.update(k='traj', id=rng.choice([None, 'x%d' % i, 'x%d' % i] + [rng.choice(ids or [None])] * 3), verb=0)
                if o['id'] in [q[0].get('id') for q in procs]:
                    o['id'] = 'y%d' % i
                if o['id']:
                    ids.append(o['id'])
            procs.append([o])
        if rng.random() < .3:
            procs.append([{'i': i, 'k': 'eval', 'run': run}])
            i += 1
        phases.append(procs)
    c.update(ops=phases, solver={'n': 4}, listseed=rng.randint(0, 3), cpus=3, kin=False, run=run,
             bufsize=rng.choice([256, 8192]), crash_all=pools, u=[rng.random() for _ in range(rng.choice([1, 2, 2]))], out=rng.random(),
             method=rng.choice(['max', 'mean']), last=rng.choice(['batch', 'traj']),
             bydir=[rng.random() < .4, rng.random() < .4])
    return c


def at_phase(pt):
    return pt[0].startswith('p')


def at_eval(pt):
    return pt[0].startswith('e') or pt[0].split('|')[0].endswith('e')


def not_worker(pt):
    return at_phase(pt) and '.w' not in pt[0]


def variant(rng, case, dry):
    return mo.variants_with(rng, case, dry, [mo.Table(mo.FAULTS_CRASH, at_phase), mo.Table(mo.FAULTS_CRASH, at_phase),
                                             mo.Table(mo.FAULTS_CRASH, at_phase), mo.Table(mo.FAULTS_BATCH, at_phase),
                                             mo.Table(mo.FAULTS_INT, not_worker),
                                             mo.Table({'openr': {'err': 1, 'int': 1, 'crash': 1}, 'listdir': {'err': 1}},
                                                      at_eval)])


def shrinks(case):
    for i, ph in enumerate(case['ops']):
        for j in range(len(ph)):
            if len(ph) > 1:
                yield dict(case, ops=case['ops'][:i] + [ph[:j] + ph[j + 1:]] + case['ops'][i + 1:])
    for f in ('full', 'nocomp'):
        yield dict(case, ops=[[[dict(o, **{f: False}) for o in ops] for ops in ph] for ph in case['ops']])
    yield dict(case, run='mr', ops=[[[dict(o, run='mr') for o in ops] for ops in ph] for ph in case['ops']])


def body(P, case, ops):
    mo.watch()
    for o in ops:
        P.op(o['i'])
        if o['k'] == 'eval':
            r = evaluate(P, case, o['times'], o['outputs'])
            P.emit('ev', {'i': o['i'], 'r': r})
            continue
        r = mo.act(P, case, o)
        P.emit('res', {'i': o['i'], 'ok': r[0] == 'ok', 'e': '' if r[0] == 'ok' else ename(r[1]),
                       'et': '' if r[0] == 'ok' else type(r[1]).__name__})


def evaluate(P, case, times, outputs):
    from pygmo_fwork.optichem.morris import MorrisMethod
    by = [{'logs_dir': case['logs']} if x else {'morris_run_id': case['run']} for x in case['bydir']]
    r = attempt(MorrisMethod.get_morris_stats, times=times, **by[0])
    if r[0] == 'exc':
        return ('exc', ename(r[1]), None)
    k = attempt(MorrisMethod.get_ranking, outputs, times, method=case['method'], **by[1])
    ms = {f: [x for x in getattr(r[1], f)] for f in ('mu', 'sigma', 'mu_rel', 'sigma_rel', 'mean_outputs')}
    return ('ok', ms, k if k[0] == 'ok' else ('exc', ename(k[1])))


class NS:
    def __init__(self, d):
        self.__dict__.update(d)


def run(env, case):
    if not mo.workable(case):
        env.tags['not_workable'] += 1
        return
    w = env.world(crash_all=case['crash_all'])
    case = dict(case, logs=mo.logs_dir(env, case['run']))
    chem = mo.chem_of(case, {})
    names = list(chem.get_species_name())
    t_end = float(case['params'].get('t_end'))
    times = [t_end * (.05 + .9 * u) for u in case['u']]
    outputs = sorted({names[int(case['out'] * len(names))], names[0]})
    env.ctx = (names, times, outputs)
    must, hashes, solves = {}, {}, {}
    n = 0
    for procs in case['ops'] + [[[dict(i=900, k=case['last'], n=2, cores=2, id=None, run=case['run'])]]]:
        final = procs[0][0]['i'] == 900
        n += 1
        tag = 'z' if final else 'p%d' % n
        before, badb = mo.finished(env, case['run'])
        pr = []
        for j, ops in enumerate(procs):
            ev = ops[0]['k'] == 'eval'
            pr.append((tag + ('e' if ev else 'abc'[j] if not final else ''),
                       [dict(o, times=times, outputs=outputs) for o in ops] if ev else ops))
        ph = mo.Phase(env, w, case, pr, body)
        env.tags['crashed'] += ph.crashed
        for p, s in ph.solves.items():
            solves.setdefault(p, []).extend(s)
        after, bad = mo.finished(env, case['run'])
        top = mo.logs_dir(env, case['run']) + '/'
        # what was finished before is intact
        for t in must:
            require(t in after and lib.tree(top + t) == hashes[t], 'finished-trajectory-harmed',
                    lambda: '%s: %s' % (t, bad.get(t, 'other files')))
        # what was reported finished is there
        named = set()
        for name, ops in pr:
            for o in ops:
                r = ph.res.get(o['i'])
                if o['k'] == 'eval':
                    continue
                if r is None:
                    require(ph.out[name].crashed, 'no-result', '')
                    continue
                if r['ok']:
                    if o.get('id'):
                        named.add(o['id'])
                        require(o['id'] not in before, 'finished-trajectory-replaced', lambda: o['id'])
                elif o.get('id') in before:
                    env.tags['existing_refused'] += 1
                else:
                    require(ph.faulty(name), 'fails-after-crash' if not ph.fired else 'failed-without-fault',
                            lambda: '%s: %s; unfinished before: %s' % (o, r['e'], badb))
                    env.tags['raised'] += 1
        for t in list(ph.ended) + sorted(named):
            require(t in after, 'finished-trajectory-missing', lambda: '%s: %s' % (t, bad.get(t)))
        ok_n = sum(o['n'] if o['k'] == 'batch' else 1 for name, ops in pr for o in ops if ph.res.get(o['i'], {}).get('ok'))
        new = set(after) - set(before)
        require(len(new) >= ok_n, 'finished-trajectories-missing', lambda: '%d of %d: %s' % (len(new), ok_n, bad))
        sure = set(must) | set(ph.ended) | named
        if not ph.crashed and not ph.fired:
            sure = set(after)
        for t in sorted(new):
            if t in sure:
                require(mo.find_solves(*after[t], solves, names), 'trajectory-not-of-its-runs', t)
        for t in sure:
            if t not in hashes:
                hashes[t] = lib.tree(top + t)
        must = sure
        env.tags['finished'] += len(new)
        env.tags['unfinished'] += len(bad)
        for _, t, b in ph.log:
            if t == 'ev':
                check(env, case, b['r'], set(before) & must, (set(after) - (set(before) & must)), after,
                      bool(ph.faulty(tag + 'e')), bad)
                env.tags['evaluated_meanwhile'] += 1
        # evaluation on its own: faithful, and nothing on disk changes
        t0 = results(env)
        ev = mo.Phase(env, w, case, [('e%d' % n, [dict(i=n, k='eval', times=times, outputs=outputs)])], body)
        require(results(env) == t0, 'evaluation-changed-files', lambda: lib.tree_diff(t0, results(env)))
        for _, t, b in ev.log:
            if t == 'ev':
                check(env, case, b['r'], must, set(after) - must, after, bool(ev.fired), bad)
                env.tags['evaluated'] += 1


def results(env):
    """Everything in the workspace but empty directories, which the configuration makes on demand."""
    t = lib.tree(env.path('ws'))
    return {k: v for k, v in t.items() if v != 'dir' or k.startswith('results/morris_sensitivity/')}


def check(env, case, r, must, may, after, faulty, bad):
    names, times, outputs = env.ctx
    if r[0] == 'exc':
        require(faulty or not must, 'evaluation-prevented', lambda: '%s; finished %s, unfinished %s' % (
            r[1], sorted(must), bad))
        return
    d = None
    for s in mo.subsets(must, may):
        if not s:
            continue
        d = mo.same_stats(NS(r[1]), [after[t] for t in s], times)
        if d is None:
            if r[2][0] == 'exc':
                require(faulty, 'ranking-fails', lambda: r[2][1])
                return
            if not may:
                d = mo.same_ranking(r[2][1], mo.ranking([after[t] for t in s], times, outputs, case['method']))
                require(d is None, 'ranking-of-other-trajectories', d)
                env.tags['ranked'] += 1
            return
    require(False, 'statistics-of-other-trajectories', lambda: '%s; finished %s, possibly %s, unfinished %s' % (
        d, sorted(must), sorted(may), bad))
