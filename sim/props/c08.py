"""C08: a Morris run only ever mixes coherent trajectories."""
import copy

from .. import gen, lib, morris as mo
from ..lib import require
from ..proc import quiet

ID = 'C08'
CONCURRENT = True


def variants(tier):
    return 4


def make_case(rng, tier):
    c = mo.model_case(rng, 2, 4, types=('species', 'reactions', 'reactions', 'return_coefficients'))
    spec = c['chem']
    phases, i = [], 0
    pools = rng.random() < .4
    mixed = rng.random() < .35           # different ones start at the same time
    for n in range(rng.choice([2, 3, 4, 5])):
        procs = []
        first = mixed and n == 0
        for p in range(rng.choice([2, 2, 3]) if first else rng.choice([1, 1, 1, 2, 3])):
            o = {'i': i}
            i += 1
            if first:
                o.update(k='traj', id='x%d' % i, verb=0)
            elif pools and rng.random() < .4:
                o.update(k='batch', n=rng.choice([1, 2, 3]), cores=rng.choice([1, 2]))
            else:
                o.update(k='traj', id=rng.choice([None, 'x%d' % i]), verb=0)
            x = rng.random()
            if x < .45 or first and p == 1:
                diff(rng, c, spec, o)
            elif x < .6:
                same(rng, c, spec, o)
            procs.append([o])
        phases.append(procs)
    if rng.random() < .3:
        c['mine'] = rng.choice([1, 2])       # results in a directory of the user's
    c.update(ops=phases, solver={'n': 3}, listseed=rng.randint(0, 3), cpus=3, kin=False, bufsize=rng.choice([256, 8192]),
             crash_all=pools)
    return c


def diff(rng, c, spec, o):
    """Makes the operation one that differs from the plain case."""
    k = rng.choice(['state', 'state', 'state', 'params', 'params', 'type'])
    if k == 'state':
        s = lib.chem_op(rng, spec)
        while s['k'] in ('protect', 'reset', 'reset_ah', 'ret'):
            s = lib.chem_op(rng, spec)
        o['state'] = [s]
    elif k == 'params':
        p = copy.deepcopy(c['params'])
        x = rng.choice(['scalar', 'power', 'feeds', 'time'])
        names = {'scalar': ['pressure', 'p', 'temp_gas', 'Tg', 'radius', 'r', 'R', 'length', 'z', 'Z'],
                 'power': ['power', 'P'], 'time': ['t_power', 't_P', 'time_P'], 'feeds': ['feeds']}[x]
        key = rng.choice([n for n in names if n in p] or ['t_end'])
        v = p[key]
        if isinstance(v, dict):
            if v:
                v[rng.choice(sorted(v))] *= rng.choice([1.0000001, 1.5])
            else:
                p['t_end'] *= 1.001
        elif isinstance(v, list):
            j = rng.randrange(len(v))
            if key in ('t_power', 't_P', 'time_P'):
                v[-1] *= rng.choice([1.5, 1.0000001])
            else:
                v[j] += rng.choice([1., 1e-3])
        else:
            p[key] = v * rng.choice([1.01, 1.0000001])
        o['params'] = p
    else:
        t = rng.choice([x for x in ('species', 'reactions') if x != c['type']])
        o['type'] = t


def same(rng, c, spec, o):
    """Other words for the same thing."""
    k = rng.choice(['backend', 'params', 'mp', 'undo', 'types', 'numpy'])
    if k == 'backend':
        o['backend'] = rng.choice(['pygmol', 'PyGMol', 'PYGMOL'])
    elif k == 'mp':
        o['mp'] = True
    elif k == 'params':
        p = copy.deepcopy(c['params'])
        for a, b in (('pressure', 'p'), ('power', 'P'), ('radius', 'r'), ('length', 'z'), ('t_power', 't_P'),
                     ('temp_gas', 'Tg')):
            if a in p and rng.random() < .5:
                p[b] = p.pop(a)
            elif b in p and rng.random() < .5:
                p[a] = p.pop(b)
        o['params'] = p
    elif k == 'numpy':
        o['np'] = True
    elif k == 'types':      # numbers of other types, tuples instead of lists
        p = copy.deepcopy(c['params'])
        for key in list(p):
            if isinstance(p[key], float) and p[key] == int(p[key]):
                p[key] = int(p[key])
            elif isinstance(p[key], int):
                p[key] = float(p[key])
        o['params'] = p
        o['tuples'] = True
    else:                   # changed and changed back
        r = rng.choice(spec['reactions'])
        if not any(s['k'] == 'arrh' and s['a'][0] == r[0] for s in c['state']):
            o['undo'] = r[0]


def at_phase(pt):
    return pt[0].startswith('p')


def variant(rng, case, dry):
    return mo.variants_with(rng, case, dry, [None, mo.Table(mo.FAULTS_CRASH, at_phase), mo.Table(mo.FAULTS_CRASH, at_phase),
                                             mo.Table(mo.FAULTS_BATCH, at_phase)])


def shrinks(case):
    for i, ph in enumerate(case['ops']):
        for j in range(len(ph)):
            if len(ph) > 1:
                yield dict(case, ops=case['ops'][:i] + [ph[:j] + ph[j + 1:]] + case['ops'][i + 1:])


def make(case, o):
    c = mo.chem_of(case, o)
    if o.get('undo') is not None:
        c.set_adhoc_reactions_attributes('arrh_a', o['undo'], 1e-9)
        keep = {k: dict(v) for k, v in c.adhoc_reactions_attributes.items()}
        c.reset_adhoc_reactions_attributes('arrh_a')
        for k, d in keep.items():
            for i, v in d.items():
                if int(i) != o['undo']:
                    c.set_adhoc_reactions_attributes(k, int(i), v)
    p = mo.params_of(case, o)
    if o.get('np'):
        import numpy as np
        p = {k: np.array(v, dtype=float) if isinstance(v, list) else
             {n: np.float64(x) for n, x in v.items()} if isinstance(v, dict) else np.float64(v)
             for k, v in dict(p).items()}
    if o.get('tuples'):
        p = {k: tuple(v) if isinstance(v, list) else v for k, v in p.items()}
    return c, p


def body(P, case, ops):
    mo.watch()
    for o in ops:
        P.op(o['i'])
        with quiet():
            c, p = make(case, o)
        mm = lib.attempt(mo.probe(), c, p, *([o['backend']] if o.get('backend') else []))
        r = mo.act(P, case, o, mm[1]) if mm[0] == 'ok' else mm
        P.emit('res', {'i': o['i'], 'ok': r[0] == 'ok', 'e': '' if r[0] == 'ok' else lib.ename(r[1]),
                       'et': '' if r[0] == 'ok' else type(r[1]).__name__})


def identity(case, o):
    """What has to agree within one Morris run, as plain values."""
    c, p = make(case, o)
    s = gen.snapshot(c)
    s.pop('protected')
    return lib.plain([s, sorted(lib.param_norm(dict(p)).items()), o.get('type', case['type'])])


def contest(env, ph, procs, ids, after):
    """Different trajectories at the same time as the first ones: those that finish are all alike."""
    won, lost = [], []
    for ops in procs:
        for o in ops:
            r = ph.res.get(o['i'])
            name = next((n for n in ph.out if n.endswith('abc'[procs.index(ops)])), '')
            there = any(t == o['id'] or t.endswith(o['id']) for t in after)
            if r is not None:
                require(there == r['ok'] or ph.faulty(name), 'outcome-not-on-disk', lambda: '%s: %s' % (o, r))
                require(r['ok'] or r['et'] == 'MorrisCoherenceError' or ph.faulty(name), 'incoherent-fails-otherwise',
                        lambda: '%s: %s' % (o, r['e']))
            if there:
                won.append(o)
            else:
                lost.append(o)
    require(all(ids[o['i']] == ids[won[0]['i']] for o in won), 'incoherent-accepted', lambda: 'at once: %s' % won)
    for o in lost:
        r = ph.res.get(o['i'])
        if won and ids[o['i']] == ids[won[0]['i']] and r is not None:
            name = next(n for n in ph.out if n.endswith('abc'[[p[0] for p in procs].index(o)]))
            require(ph.faulty(name), 'coherent-refused', lambda: '%s: %s' % (o, r['e']))
    require(won or ph.crashed or ph.fired, 'no-first-one', lambda: '%s' % list(ph.res.values()))
    env.tags['contested'] += 1
    env.tags['contested_won'] += bool(won)
    return ids[won[0]['i']] if won else None


def run(env, case):
    case = mo.place(env, case)
    w = env.world(crash_all=case['crash_all'])
    ids, good = {}, {}
    for ph in case['ops']:
        for ops in ph:
            for o in ops:
                good[o['i']] = mo.workable(dict(case, type=o.get('type', case['type']), params=o.get('params') or
                                                case['params']), o)
                ids[o['i']] = identity(case, o)
    if not good[case['ops'][0][0][0]['i']]:
        env.tags['not_workable'] += 1
        return
    ref, hashes, n, start = None, {}, 0, []    # ref: identity of the finished trajectories
    for procs in case['ops']:
        procs = [ops for ops in procs if good[ops[0]['i']]]
        several = False
        if ref is None:          # the first one to finish decides; an unfinished one may have left its mark
            alike = [ops for ops in procs if ids[ops[0]['i']] == ids[procs[0][0]['i']]]
            several = not start and len(alike) < len(procs) and \
                all(o['k'] == 'traj' and o.get('id') for ops in procs for o in ops)
            if not several:
                procs = alike
                if start and procs and any(x != ids[procs[0][0]['i']] for x in start):
                    procs = []
        if not procs:
            continue
        n += 1
        ph = mo.Phase(env, w, case, [('p%d%s' % (n, 'abc'[j]), ops) for j, ops in enumerate(procs)], body)
        after, bad = mo.finished(env)
        new = set(after) - set(hashes)
        for t, h in hashes.items():
            require(lib.tree(mo.logs_dir(env) + '/' + t) == h, 'finished-trajectory-changed', t)
        if several:
            ref = contest(env, ph, procs, ids, after)
            start = [ids[ops[0]['i']] for ops in procs]
            for t in after:
                hashes[t] = lib.tree(mo.logs_dir(env) + '/' + t)
            env.tags['crashed'] += ph.crashed
            continue
        lo = hi = 0
        for j, ops in enumerate(procs):
            name = 'p%d%s' % (n, 'abc'[j])
            for o in ops:
                r = ph.res.get(o['i'])
                coh = ref is None or ids[o['i']] == ref
                k = o['n'] if o['k'] == 'batch' else 1
                hi += k if coh else 0
                if r is None:
                    continue
                if coh:
                    lo += k if r['ok'] else 0
                    require(r['et'] != 'MorrisCoherenceError' or ph.faulty(name), 'coherent-refused',
                            lambda: '%s: %s' % (o, r['e']))
                    require(r['ok'] or ph.faulty(name), 'failed-without-fault', lambda: '%s: %s' % (o, r['e']))
                    env.tags['coherent'] += ref is not None and r['ok']
                else:
                    what = 'type' if 'type' in o else 'params' if 'params' in o else 'state' if 'state' in o else 'case'
                    require(not r['ok'], 'incoherent-accepted', lambda: '%s %s' % (what, o))
                    require(r['et'] == 'MorrisCoherenceError' or ph.faulty(name), 'incoherent-fails-otherwise',
                            lambda: '%s: %s' % (o, r['e']))
                    env.tags['refused_' + what] += 1
        require(lo <= len(new) <= hi, 'number-of-new-trajectories', lambda: '%d new, expected %d to %d; %s' % (
            len(new), lo, hi, bad))
        if ref is None:
            start = [ids[procs[0][0]['i']]]
            if after:
                ref = ids[procs[0][0]['i']]
        for t in after:
            if t not in hashes:
                hashes[t] = lib.tree(mo.logs_dir(env) + '/' + t)
        env.tags['crashed'] += ph.crashed
