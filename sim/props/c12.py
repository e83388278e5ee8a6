"""C12: disabling is all-or-nothing and keeps the largest consistent network."""
import copy
import random
import zlib
from collections import Counter

from .. import gen, lib
from ..lib import attempt, require, ename
from ..proc import quiet

ID = 'C12'
FAULTS = {}
LEAVES = ['plaschem/species.py', 'plaschem/reactions.py']
EXC = {'int': KeyboardInterrupt, 'mem': MemoryError, 'run': RuntimeError, 'val': ValueError}


def variants(tier):
    return 1


def variant(rng, case, dry):
    """The same history with faults inside some of the requests."""
    v = copy.deepcopy(case)
    for o in v['ops']:
        if o['k'].startswith('dis') and rng.random() < .6:
            o['leaf'] = [rng.random() if rng.random() < .7 else rng.choice([0., .5, .97]),
                         rng.choice(['int', 'int', 'mem', 'run', 'val'])]
    return v


def make_case(rng, tier):
    spec = gen.chem_spec(rng, 2, rng.choice([6, 14, 26]))
    spec = gen.maybe_neutral(rng, spec, 0.15)
    names = [a['name'] for _, a in spec['species']]
    ids = {a['name']: i for i, a in spec['species']}
    rids = [r[0] for r in spec['reactions']]
    if rng.random() < .3:
        spec['protected'] = [rng.choice([n for n in names if n != 'M'])]
    ops = []
    for i in range(rng.randint(2, 9)):
        x = rng.random()
        o = {'i': i, 's': rng.getrandbits(30)}
        if x < .62 or i == 0:
            sp = rng.sample(names, min(len(names), rng.choice([0, 1, 1, 1, 2])))
            if rng.random() < .9:
                sp = [n for n in sp if n != 'e']
            r = rng.sample(rids, min(len(rids), rng.choice([0, 1, 1, 2, 4]) if sp else rng.choice([1, 1, 2, 3])))
            o.update(k='dis', a=[sp, r, rng.choice(['name', 'id', 'rp'])])
            if rng.random() < .06:
                o['a'][rng.randrange(2)].append(rng.choice(['Zz', 99999]))
        elif x < .70:
            o.update(k='protect', a=[rng.choice([n for n in names if n != 'M'])])
        elif x < .77:
            o.update(k='reset', a=[])
        elif x < .84:
            o.update(k='copy', a=[rng.random() < .5])
        elif x < .88:
            o.update(k='dump', a=[])
        elif x < .92:
            o.update(k='load', a=[])
        else:
            while True:
                c = lib.chem_op(rng, spec)
                if c['k'] in ('stick', 'ret', 'arrh', 'reset_ah'):
                    break
            o.update(c)
        ops.append(o)
    if rng.random() < .35 and len(rids) > 1:       # as much enabled as before, but something else
        two = [[[], [r]] for r in rng.sample(rids, 2)] if rng.random() < .7 else [
            [[n], []] for n in rng.sample([n for n in names if n not in 'eM'], 2)] if len(names) > 3 else []
        for k, a in [('dis', x + ['name']) for x in two[:1]] + [('reset', [])] + [('dis', x + ['name']) for x in two[1:]]:
            ops.append({'k': k, 'a': a, 's': rng.getrandbits(29) * 2 + (k == 'dis'), 'i': len(ops)})
    return {'chem': spec, 'listseed': 0, 'ops': ops, 'look': rng.choice([.05, .2, .4, 1.]), 'eye': rng.randrange(1000)}


def run(env, case):
    w = env.world()
    w.call('p', lambda P: body(P, case, env))
    env.tags.update(w.emitted('tags')[-1][2])


def check_state(c, ref, what):
    s = gen.snapshot(c)
    require(set(s['enabled_sp']) == ref.sp, 'enabled-species', lambda: '%s: %s, expected %s' % (
        what, names(ref, s['enabled_sp']), names(ref, ref.sp)))
    require(set(s['enabled_r']) == ref.r, 'enabled-reactions', lambda: '%s: %s, expected %s' % (
        what, s['enabled_r'], sorted(ref.r)))
    require(set(s['disabled_sp']) == set(ref.byid) - ref.sp and set(s['disabled_r']) == set(ref.rx) - ref.r,
            'disabled-lists', lambda: what)
    require(set(s['protected']) == ref.protected(), 'protected-species', lambda: '%s: %s, expected %s' % (
        what, names(ref, s['protected']), names(ref, ref.protected())))
    return s


def reports(c, ref, spec, s, what, see):
    """All the data reported belong to exactly the enabled part of the network."""
    attrs = {i: a for i, a in spec['species']}
    gas = [i for i in s['enabled_sp'] if attrs[i]['name'] not in ('e', 'M')]
    ad = s['adhoc_sp']
    order = [i for i, _ in spec['species']]
    for f in ('charge', 'mass', 'h_form', 'lj_epsilon', 'lj_sigma', 'stick_coef', 'ret_coefs', 'name'):
        if see(f):
            got = getattr(c, 'get_species_' + f)()
            require([int(i) for i in got.index] == gas, 'reported-species', lambda: '%s: %s of %s, enabled are %s' % (
                what, f, list(got.index), gas))
    every = None
    for dis in see.which:
        for special in (False, True):
            for prot in (False, True):
                kw = dict(disabled=dis, special=special, protected=prot)
                want = [i for i in order if (dis or i in ref.sp) and (special or attrs[i]['name'] not in ('e', 'M')) and
                        (prot or i not in ref.protected())]
                for f in ('', '_name', '_charge', '_mass', '_h_form', '_lj_epsilon', '_lj_sigma', '_stick_coef'):
                    if not see(f, dis, special, prot):
                        continue
                    got = getattr(c, 'get_species' + f)(**kw)
                    require([int(i) for i in got.index] == want, 'reported-species', lambda: '%s: get_species%s(%s) of %s, '
                            'expected %s' % (what, f, kw, names(ref, got.index), names(ref, want)))
                    if f == '_name':
                        require(list(got) == [attrs[i]['name'] for i in want], 'reported-species', what)
                    elif f:
                        if every is None:
                            every = c.get_species(disabled=True, special=True)
                        for i in want:
                            v = getattr(every[i], 'get' + f)()
                            if f == '_stick_coef':
                                v = ad['stick_coef'].get(i, v)
                            require(alike(got[i], v), 'reported-values', lambda: '%s: get_species%s(%s) gives %s for %s, not %s' % (
                                what, f, kw, got[i], attrs[i]['name'], v))
                if see('id', dis, special, prot):
                    require([int(i) for i in c.get_species_id(**kw)] == want, 'reported-species', what)
                if see('num', dis, special, prot):
                    require(c.num_species(**kw) == len(want), 'reported-species', what)
                if see('ret', dis, special, prot):
                    d = c.get_species_ret_coefs(**kw)
                    require(set(int(i) for i in d.index) <= set(want), 'reported-species', what)
        rids = [r[0] for r in spec['reactions'] if dis or r[0] in ref.r]
        if see('reactions', dis):
            require([int(i) for i in c.get_reactions(disabled=dis).index] == rids, 'reported-reactions', what)
        if see('reactions id', dis):
            require([int(i) for i in c.get_reactions_id(disabled=dis)] == rids, 'reported-reactions', what)
        if see('reactions num', dis):
            require(dis or c.num_reactions() == len(rids), 'reported-reactions', what)
    if see('disabled'):
        require(set(c.get_disabled_species().index) == set(order) - ref.sp and
                set(c.get_disabled_reactions().index) == set(ref.rx) - ref.r, 'reported-disabled', what)
    for f in ('arrh_a', 'arrh_b', 'arrh_c', 'el_en_loss', 'elastic'):
        if see(f):
            got = getattr(c, 'get_reactions_' + f)()
            require([int(i) for i in got.index] == s['enabled_r'], 'reported-reactions', lambda: '%s: %s of %s' % (
                what, f, list(got.index)))
        for dis in see.which:
            if not see(f, dis):
                continue
            got = getattr(c, 'get_reactions_' + f)(disabled=dis)
            rids = [r[0] for r in spec['reactions'] if dis or r[0] in ref.r]
            require([int(i) for i in got.index] == rids, 'reported-reactions', lambda: '%s: %s(disabled=%s)' % (what, f, dis))
            rs = c.get_reactions(disabled=True)
            for r in rids:
                if f != 'arrh_a' or r not in s['adhoc_r'].get('arrh_a', ()):
                    require(alike(got[r], getattr(rs[r], 'get_' + f)()), 'reported-values', lambda: '%s: %s of R%s is %s' % (
                        what, f, r, got[r]))
    here = {attrs[i]['name'] for i in s['enabled_sp']}
    want = {}
    for i in gas:
        own = c.get_species(disabled=True)[i]
        stick = ad['stick_coef'].get(i, own.get_stick_coef())
        ret = ad['ret_coefs'].get(i, own.get_ret_coefs() or {})
        want[i] = {} if not stick else {k: float(v) for k, v in ret.items() if k in here and v}
        got = {k: v for k, v in (s['ret'].get(i) or {}).items() if v}
        require(got == want[i], 'return-coefficients', lambda: '%s: %s returns %s, expected %s' % (
            what, attrs[i]['name'], got, want[i]))
    for special in (False, True):
        if not see('return matrix', special):
            continue
        m = c.get_return_matrix(special=special)
        cols = s['enabled_sp'] if special else gas
        require([int(i) for i in m.index] == cols and [int(i) for i in m.columns] == cols, 'return-matrix-labels', what)
        for j in gas:
            for i in gas:
                require(abs(float(m.at[i, j]) - want[j].get(attrs[i]['name'], 0.)) < 1e-12, 'return-matrix', lambda: '%s: %s to %s' % (
                    what, attrs[j]['name'], attrs[i]['name']))
    rx = {r[0]: r for r in spec['reactions']}
    for meth in ('net', 'lhs', 'rhs'):
        count = {'net': lambda r, n: rx[r][2].count(n) - rx[r][1].count(n), 'lhs': lambda r, n: rx[r][1].count(n),
                 'rhs': lambda r, n: rx[r][2].count(n)}[meth]
        for dis in see.which:
            rids = [r[0] for r in spec['reactions'] if dis or r[0] in ref.r]
            for special in (False, True):
                if not see('stoichiomatrix', meth, dis, special):
                    continue
                m = c.get_stoichiomatrix(disabled=dis, special=special, method=meth)
                cols = [i for i in order if (special or attrs[i]['name'] not in ('e', 'M')) and (dis or i in ref.sp)]
                require([int(i) for i in m.index] == rids and [int(i) for i in m.columns] == cols, 'stoichiomatrix-labels',
                        lambda: '%s: disabled=%s' % (what, dis))
                require(all(int(m.at[r, i]) == count(r, attrs[i]['name']) for r in rids for i in cols), 'stoichiomatrix',
                        lambda: '%s: disabled=%s special=%s %s' % (what, dis, special, meth))
            for f, n in (('electron', 'e'), ('arbitrary', 'M')):
                if not see(f, meth, dis):
                    continue
                got = getattr(c, 'get_reactions_stoich_coefs_' + f)(disabled=dis, method=meth)
                require([int(i) for i in got.index] == rids and all(
                    int(got[r]) == (0 if spec.get('neutral') and n == 'e' else count(r, n)) for r in rids), 'stoichiometric-coefficients',
                    lambda: '%s: %s(disabled=%s, method=%s) %s' % (what, f, dis, meth, dict(got)))


def everything(*key):
    return True


everything.which = (False, True)


def sight(case):
    """What is looked at after each operation of a case: always the same, which differs between the cases."""
    def see(*key):
        return zlib.crc32(repr((case.get('eye', 0),) + key).encode()) % 1000 < 1000 * case.get('look', 0)
    see.which = (False,) if case.get('eye', 0) % 2 else (False, True)
    return see


def alike(a, b):
    if b is None or a is None:
        return (a is None or a != a) and (b is None or b != b)
    return a == b or (a != a and b != b)


def names(ref, ids):
    return sorted(ref.byid[i] for i in ids)


OTHER = ('species', 'stick', 'arrh_a', 'adhoc_sp', 'adhoc_r')


def body(P, case, env):
    spec = case['chem']
    tags = Counter()
    c = gen.build(spec)
    ref = gen.RefChem(spec)
    snap = check_state(c, ref, 'start')
    others = []          # chemistries copied from or left behind by a copy, with what they have to remain
    dumps = []
    for o in case['ops']:
        P.op(o['i'])
        what = '%s %s' % (o['k'], o['a'])
        if o['k'] == 'dis':
            sp, r, how = o['a']
            known = [n for n in sp if n in ref.names]
            unknown = len(known) < len(sp) or any(x not in ref.rx for x in r)
            arg = [(n if n not in ref.names or how == 'name' else ref.names[n] if how == 'id' else
                    c.get_rp(n)) for n in sp]
            new = None if unknown else ref.try_disable([ref.names[n] for n in known], r)
            leaf = None
            if o.get('leaf'):
                n = count(P, c, arg, r)
                leaf = lib.LeafFault(P, LEAVES, int(o['leaf'][0] * n), EXC[o['leaf'][1]]) if n else None

            def f():
                if leaf is None:
                    return c.disable(species=tuple(arg), reactions=tuple(r))
                with leaf:
                    return c.disable(species=tuple(arg), reactions=tuple(r))
            res = attempt(f)
            if res[0] == 'exc':
                d = gen.snap_diff(gen.snapshot(c), snap)
                require(not d, 'refused-but-changed', lambda: '%s raised %s, yet %s changed' % (what, ename(res[1]), d))
                if leaf is not None and leaf.fired:
                    tags['failed_inside'] += 1
                    # the same request again, undisturbed
                    res = attempt(c.disable, species=tuple(arg), reactions=tuple(r))
            if res[0] == 'exc':
                d = gen.snap_diff(gen.snapshot(c), snap)
                require(not d, 'refused-but-changed', lambda: '%s raised %s, yet %s changed' % (what, ename(res[1]), d))
                require(new is None, 'refused-although-possible', lambda: '%s raised %s' % (what, ename(res[1])))
                tags['refused'] += 1
            else:
                require(new is not None, 'not-refused', lambda: '%s went through' % what)
                tags['cascaded'] += len(ref.sp - new.sp) + len(ref.r - new.r) > len(known) + len(r)
                tags['disabled'] += 1
                ref = new
        elif o['k'] == 'protect':
            c.set_protected_species(o['a'][0])
            ref.explicit.add(ref.names[o['a'][0]])
        elif o['k'] == 'reset':
            c.reset()
            ref.reset()
            tags['reset'] += 1
        elif o['k'] == 'copy':
            d = c.copy()
            if o['a'][0]:
                c, d = d, c
            others.append((d, gen.snapshot(d)))
            ref = ref.clone()
            require(not gen.snap_diff(gen.snapshot(d), snap), 'copy-differs', lambda: what)
        elif o['k'] == 'dump':
            with quiet():
                p = env.path('d%d.yaml' % len(dumps))
                c.dump_chemistry_attributes(p)
                dumps.append((p, ref.clone(), gen.snapshot(c)))
        elif o['k'] == 'load':
            if dumps:
                p, old, osnap = random.Random(o['s']).choice(dumps)
                with quiet():
                    c.load_chemistry_attributes(p)
                ref, snap = old.clone(), osnap
        else:
            lib.apply_chem_op(c, o)
            snap = dict(snap, **{k: v for k, v in gen.snapshot(c).items() if k in OTHER})
        new = check_state(c, ref, what)
        with quiet():
            if o is case['ops'][-1]:
                reports(c, ref, spec, new, what, everything)
            elif o['s'] % 2 if case.get('look', 1) < 1 else o['i'] % 4 == 3:
                reports(c, ref, spec, new, what, sight(case))
        for k in OTHER:
            require(new[k] == snap[k], 'other-state-changed', lambda: '%s changed %s' % (what, k))
        snap = new
        for d, s in others:
            require(not gen.snap_diff(gen.snapshot(d), s), 'copies-entangled',
                    lambda: '%s changed another copy' % what)
    P.emit('tags', dict(tags))


def count(P, c, arg, r):
    with lib.quiet_keep_solver(P):
        d = copy.deepcopy(c)
        lf = lib.LeafFault(P, LEAVES)

        def f():
            with lf:
                d.disable(species=tuple(x if isinstance(x, (int, str)) else x.id for x in arg), reactions=tuple(r))
        attempt(f)
        return lf.count
