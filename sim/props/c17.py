"""C17: ad-hoc changes and copies of a chemistry are exact and contained."""
import copy
import multiprocessing
import os
import pickle
import random
from collections import Counter

import numpy as np

from .. import gen, lib
from ..lib import attempt, require, ename
from ..proc import quiet

ID = 'C17'
CONCURRENT = True
FAULTS = {}
SI = {'s-1': 1., 'm3.s-1': 1., 'cm3.s-1': 1e-6, 'm6.s-1': 1., 'cm6.s-1': 1e-12}
UNKNOWN = ['Zz', 99999, 'mass', None]


def variants(tier):
    return 1


def make_case(rng, tier):
    spec = gen.chem_spec(rng, 2, rng.choice([5, 9, 14]))
    spec = gen.maybe_neutral(rng, spec, .12)
    sp = [a['name'] for _, a in spec['species']]
    # what is done meets more often if it is mostly about the same few species and reactions
    sp = sp + rng.sample(sp, min(len(sp), 2)) * rng.choice([0, 3, 8])
    few = rng.sample(spec['reactions'], min(len(spec['reactions']), 2)) * rng.choice([0, 2, 6])
    full, spec = spec, dict(spec, reactions=spec['reactions'] + few)
    # each case has its own mixture of what is done, so that the rare meets the rare more often
    mix = {k: w * rng.choice([0., .3, 1., 1., 1., 4.]) for k, w in KINDS.items()}
    mix['stick'] += .01
    ops = []
    for i in range(rng.randint(4, 14)):
        o = change(rng, spec, sp, mix)
        if rng.random() < .40:
            k = weighted(rng, mix, ['copy', 'restart', 'send', 'meddle', 'dump', 'load', 'other'])
            o = {'k': k} if k else o
            if k == 'copy':
                o['which'] = rng.random() < .5
            elif k == 'send':
                o.update(n=rng.choice([1, 2, 3]), cores=rng.choice([1, 2]),
                         ops=[change(rng, spec, sp, mix) for _ in range(rng.randint(1, 3))])
        elif o['k'] == 'dis' and o['a'][0] and rng.random() < .4:     # and something about what is disabled then
            ops.append(dict(o, i=len(ops), s=rng.getrandbits(30), j=0.))
            gone = o['a'][0]
            for _ in range(rng.choice([1, 1, 2, 3])):
                o = change(rng, spec, sp if rng.random() < .1 else gone, dict(mix, protect=10., stick=5., ret=5.), gone)
                ops.append(dict(o, i=len(ops), s=rng.getrandbits(30), j=0.))
            o = {'k': rng.choice(['copy', 'restart', 'dump']), 'which': rng.random() < .5}
        ops.append(dict(o, i=len(ops), s=rng.getrandbits(30), j=rng.random()))
    return {'chem': full, 'listseed': 0, 'cpus': 2, 'ops': ops, 'bufsize': 8192}


KINDS = {'stick': 24, 'ret': 22, 'arrh': 20, 'reset_ah': 9, 'dis': 11, 'reset': 5, 'protect': 6, 'badattr': 3,
         'copy': 10, 'restart': 6, 'send': 6, 'meddle': 8, 'dump': 4, 'load': 4, 'other': 2}


def weighted(rng, mix, kinds):
    ws = [mix[k] for k in kinds]
    return rng.choices(kinds, ws)[0] if sum(ws) else None


def change(rng, spec, sp, mix, about=None):
    k = weighted(rng, mix, ['stick', 'ret', 'arrh', 'reset_ah', 'dis', 'reset', 'protect', 'badattr'])
    form = rng.choice(['name', 'id', 'rp', 'np'])
    if k == 'stick':
        return {'k': 'stick', 'a': [pick(rng, sp), number(rng, rng.choice([0., .1, .5, 1., rng.random(), rng.uniform(0, 1e-6)]))],
                'form': form}
    if k == 'ret':
        v = {t: number(rng, rng.choice([0., .5, 1, rng.random()]), False) for t in dict.fromkeys(rng.sample(sp, min(len(sp), rng.choice([0, 1, 1, 2, 3]))))}
        if about:
            v = {a['name']: [h, x] for a, (h, x) in zip(rng.sample([a for _, a in spec['species']], min(len(v) + 1, len(spec['species']))),
                                                        list(v.values()) + [['float', .25]]) if a['name'] not in about}
        if rng.random() < .1:
            v['Zz'] = .5
        if rng.random() < .06:
            v = rng.choice([None, [1], 'e'])
        return {'k': 'ret', 'a': [pick(rng, sp), v], 'form': form}
    if k == 'arrh':
        r = rng.choice(spec['reactions'])
        return {'k': 'arrh', 'a': [r[0] if rng.random() < .95 else 99999, number(rng, r[3]['arrh_a'] * rng.choice(
            [.5, 2., 10., .1, 0., rng.random()]))], 'form': rng.choice(['id', 'id', 'np'])}
    if k == 'reset_ah':
        return {'k': 'reset_ah', 'a': [rng.choice(['stick_coef', 'ret_coefs', 'arrh_a', 'stick_coef', 'ret_coefs', 'arrh_a', 'all', 'all', 'mass'])]}
    if k == 'dis':
        return {'k': 'dis', 'a': [rng.sample(sp, 1) if rng.random() < .5 else [],
                                  [rng.choice(spec['reactions'])[0]] if rng.random() < .6 else []]}
    if k == 'reset':
        return {'k': 'reset', 'a': []}
    if k == 'protect':
        return {'k': 'protect', 'a': [pick(rng, sp)], 'form': form}
    return {'k': 'badattr', 'a': [rng.choice(['mass', 'charge', 'arrh_b', 'Zz']), pick(rng, sp), rng.choice(spec['reactions'])[0]]}


def pick(rng, sp):
    return rng.choice(sp) if rng.random() < .93 else rng.choice(UNKNOWN)


def number(rng, v, odd=True):
    """[how it is given, value]"""
    how = rng.choice(['float', 'float', 'float', 'np', 'str', 'int'])
    if odd and rng.random() < .06:
        how = rng.choice(['list', 'junk', 'none'])
    return [how, float(int(v)) if how == 'int' else float(v)]


def given(x):
    how, v = x
    return {'float': v, 'np': np.float64(v), 'str': repr(v), 'int': int(v), 'list': [v], 'junk': 'a lot', 'none': None}[how]


def run(env, case):
    segs = [[]]
    for o in case['ops']:
        if o['k'] == 'restart':
            segs.append([])
        else:
            segs[-1].append(o)
    w = env.world()
    state = None
    for n, seg in enumerate(segs):
        state = w.call('p%d' % n, lambda P: body(P, case, env, seg, state, n))
        env.tags.update(w.emitted('tags')[-1][2])


class Ref:
    """Ad-hoc values over input data, on top of what is enabled."""

    def __init__(self, spec):
        self.net = gen.RefChem(spec)
        self.stick, self.ret, self.arrh = {}, {}, {}

    def clone(self):
        r = object.__new__(Ref)
        r.net = self.net.clone()
        r.stick, r.arrh = dict(self.stick), dict(self.arrh)
        r.ret = {k: dict(v) for k, v in self.ret.items()}
        return r


def base_of(spec):
    """The data of the input as a chemistry reports them which nobody has touched (read once), and the units."""
    c = gen.build(spec)
    return {'stick': {int(i): num(v) for i, v in c.get_species_stick_coef(special=True).items()},
            'ret': {int(s.id): {k: float(v) for k, v in (s.get_ret_coefs() or {}).items()} for s in c.get_species(special=True)},
            'arrh': {r[0]: float(r[3]['arrh_a']) for r in spec['reactions']},
            'si': {r[0]: SI[r[4]['arrh_a']] for r in spec['reactions']},
            'names': {i: a['name'] for i, a in spec['species']}}


def close(a, b):
    return a == b or (a is not None and b is not None and abs(a - b) <= 1e-12 * max(abs(a), abs(b)))


def expect(ref, base, what, c):
    """Compares everything a chemistry reports with the reference."""
    on = {base['names'][i] for i in ref.net.sp}
    require(set(int(i) for i in c.get_species_id(special=True)) == ref.net.sp, 'enabled-species', what)
    require(set(int(i) for i in c.get_reactions_id()) == ref.net.r, 'enabled-reactions', what)
    require(set(int(i) for i in c.get_protected_species().index) >= ref.net.explicit, 'protected-species', what)
    want_s = {i: ref.stick.get(i, v) for i, v in base['stick'].items()}
    want_r = {}
    for i in base['names']:
        v = ref.ret.get(i, base['ret'][i])
        want_r[i] = {} if want_s[i] == 0 else {k: x for k, x in v.items() if k in on}
    want_a = {i: ref.arrh.get(i, v) for i, v in base['arrh'].items()}
    for dis in (False, True):
        got = {int(i): num(v) for i, v in c.get_species_stick_coef(disabled=dis, special=True).items()}
        require(set(got) == (set(base['names']) if dis else ref.net.sp), 'sticking-index', what)
        for i in got:
            require(close(got[i], want_s[i]), 'sticking-coefficients', lambda: '%s: %s of %s is %r, expected %r' % (
                what, 'sticking coefficient', base['names'][i], got[i], want_s[i]))
        got = {int(i): {k: num(x) for k, x in (v or {}).items()} for i, v in
               c.get_species_ret_coefs(disabled=dis, special=True).items()}
        require(set(got) == (set(base['names']) if dis else ref.net.sp), 'return-index', what)
        for i in got:
            require(set(got[i]) == set(want_r[i]) and all(close(got[i][k], want_r[i][k]) for k in got[i]),
                    'return-coefficients', lambda: '%s: %s returns %s, expected %s' % (
                        what, base['names'][i], got[i], want_r[i]))
        for si in (True, False):
            got = {int(i): num(v) for i, v in c.get_reactions_arrh_a(disabled=dis, si_units=si).items()}
            require(set(got) == (set(base['arrh']) if dis else ref.net.r), 'arrh-index', what)
            for i in got:
                x = want_a[i] * (base['si'][i] if si else 1)
                require(close(got[i], x), 'arrhenius-factors', lambda: '%s: arrh_a of %d is %r, expected %r' % (
                    what, i, got[i], x))
    gas = [i for i in ref.net.sp if base['names'][i] not in ('e', 'M')]
    m = c.get_return_matrix()
    for j in gas:
        for i in gas:
            require(close(float(m.at[i, j]), want_r[j].get(base['names'][i], 0.)), 'return-matrix', lambda: '%s: %s to %s' % (
                what, base['names'][j], base['names'][i]))


def tables(ref, base, what, c):
    """The tables of attributes show the same values."""
    t = c.species_attributes(printout=False, pretty_print=False)
    require(set(int(i) for i in t.index) == set(base['names']), 'table-species', what)
    for i in base['names']:
        require(close(num(t.at[i, 'stick_coef']), ref.stick.get(i, base['stick'][i])), 'table-sticking', lambda: '%s: %s' % (what, i))
    t = c.reactions_attributes(printout=False, pretty_print=False)
    for i in base['arrh']:
        require(close(num(t.at[i, 'arrh_a']), ref.arrh.get(i, base['arrh'][i])), 'table-arrhenius', lambda: '%s: %s' % (what, i))


def num(v):
    require(not isinstance(v, (str, bytes)), 'number-as-text', repr(v))
    return None if v is None or v != v else float(v)


def apply_change(c, ref, o, what, tags):
    """Does one change to a chemistry and its reference; tells whether it has to be refused."""
    spid = {v: k for k, v in ref.net.byid.items()}

    def sp_arg(name):
        if name not in spid:
            return name
        f = o.get('form', 'name')
        return spid[name] if f == 'id' else c.get_rp(name) if f == 'rp' else name
    a, bad, passed = o['a'], False, None
    if o['k'] == 'stick':
        how, v = a[1]
        passed = given(a[1])
        r = attempt(c.set_adhoc_species_attributes, 'stick_coef', sp_arg(a[0]), passed)
        bad = a[0] not in spid or how in ('list', 'junk')
        if not bad:
            ref.stick[spid[a[0]]] = v
            if how == 'none':        # stands for no change
                del ref.stick[spid[a[0]]]
    elif o['k'] == 'ret':
        passed = {k: given(x) for k, x in a[1].items() if k != 'Zz'} if isinstance(a[1], dict) else a[1]
        if isinstance(a[1], dict) and 'Zz' in a[1]:
            passed['Zz'] = .5
        r = attempt(c.set_adhoc_species_attributes, 'ret_coefs', sp_arg(a[0]), passed)
        on = {ref.net.byid[i] for i in ref.net.sp}
        bad = a[0] not in spid or not isinstance(a[1], dict) or not set(a[1]) <= on
        if not bad:
            ref.ret[spid[a[0]]] = {k: x[1] for k, x in a[1].items()}
            passed.clear()
    elif o['k'] == 'arrh':
        how, v = a[1]
        r = attempt(c.set_adhoc_reactions_attributes, 'arrh_a', np.int64(a[0]) if o['form'] == 'np' else a[0], given(a[1]))
        bad = a[0] not in ref.net.rx or how in ('list', 'junk')
        if not bad:
            ref.arrh[a[0]] = v
            if how == 'none':
                del ref.arrh[a[0]]
    elif o['k'] == 'reset_ah':
        done = []
        r = ('ok', None)
        for f, ok in ((c.reset_adhoc_species_attributes, ('stick_coef', 'ret_coefs', 'all')),
                      (c.reset_adhoc_reactions_attributes, ('arrh_a', 'all'))):
            q = attempt(f, a[0])
            require((q[0] == 'ok') == (a[0] in ok), 'ad-hoc-reset-refusal', lambda: '%s: %s' % (what, q))
            done.append(q[0])
        for k, d in (('stick_coef', ref.stick), ('ret_coefs', ref.ret), ('arrh_a', ref.arrh)):
            if a[0] in (k, 'all'):
                d.clear()
    elif o['k'] == 'dis':
        ids = [spid[n] for n in a[0]]
        new = ref.net.try_disable(ids, a[1])
        r = attempt(c.disable, species=tuple(a[0]), reactions=tuple(a[1]))
        bad = new is None
        if not bad:
            ref.net = new
    elif o['k'] == 'reset':
        r = attempt(c.reset)
        ref.net.reset()
    elif o['k'] == 'protect':
        r = attempt(c.set_protected_species, sp_arg(a[0]))
        bad = a[0] not in spid
        if not bad:
            ref.net.explicit.add(spid[a[0]])
    else:
        r = attempt(c.set_adhoc_species_attributes, a[0], a[1], 1.)
        require(r[0] == 'exc', 'unknown-attribute-set', what)
        r = attempt(c.set_adhoc_reactions_attributes, a[0], a[2], 1.)
        bad = True
    if bad:
        require(r[0] == 'exc', 'not-refused', what)
        tags['refused'] += 1
    else:
        require(r[0] == 'ok', 'refused-although-possible', lambda: '%s raised %s' % (what, ename(r[1]) if r[0] == 'exc' else ''))
        tags[o['k']] += 1


def worker(c, ref, ops, base):
    """In a worker of a pool: the chemistry has come with its state, and takes its changes."""
    with quiet():
        expect(ref, base, 'sent to a worker', c)
        tags = Counter()
        for o in ops:
            apply_change(c, ref, o, 'in a worker: %s %s' % (o['k'], o['a']), tags)
            expect(ref, base, 'in a worker: %s %s' % (o['k'], o['a']), c)
    return c, ref


READ = ('get_species', 'get_species_name', 'get_species_charge', 'get_species_mass', 'get_species_h_form', 'get_species_lj_epsilon',
        'get_species_lj_sigma', 'get_species_stick_coef', 'get_species_ret_coefs', 'get_species_id', 'get_species_mask',
        'get_protected_species', 'get_special_species', 'get_disabled_species', 'get_disabled_reactions', 'get_reactions',
        'get_reactions_arrh_a', 'get_reactions_arrh_b', 'get_reactions_arrh_c', 'get_reactions_el_en_loss',
        'get_reactions_ges_heat_contrib', 'get_reactions_elastic', 'get_reactions_id', 'get_reactions_mask', 'get_return_matrix',
        'get_stoichiomatrix', 'get_reactions_stoich_coefs_electron', 'get_reactions_stoich_coefs_arbitrary')
PLAIN = ('get_protected_species', 'get_special_species', 'get_disabled_species', 'get_disabled_reactions')


def read(rng, c):
    """Everything a chemistry hands out, one way or another."""
    out = []
    for f in READ:
        kw = {}
        if f not in PLAIN:
            kw['disabled'] = rng.random() < .5
        if f == 'get_species_mask':
            kw.update(special=rng.random() < .5, protected=rng.random() < .7)
        if f in ('get_stoichiomatrix', 'get_return_matrix'):
            kw['special'] = rng.random() < .5
        if f == 'get_stoichiomatrix' or f.startswith('get_reactions_stoich'):
            kw['method'] = rng.choice(['net', 'lhs', 'rhs', 'both'])
        out.append((f, kw, attempt(getattr(c, f), **kw)))
    return out


def plain(x):
    if x[0] == 'exc':
        return type(x[1]).__name__
    x = x[1]
    if hasattr(x, 'columns'):
        return list(x.index), list(x.columns), x.values.tolist()
    if hasattr(x, 'index') and hasattr(x, 'values'):
        return [(i, copy.deepcopy(v) if isinstance(v, dict) else getattr(v, 'id', v)) for i, v in x.items()]
    return list(x)


def meddle(seed, c):
    """Changes what the chemistry has handed out, which it must not notice."""
    got = read(random.Random(seed), c)
    was = [repr(plain(x)) for _, _, x in got]
    for f, kw, x in got:
        if x[0] == 'exc':
            continue
        x = x[1]
        if f == 'get_species_ret_coefs':
            for v in x:
                if v is not None:
                    v['e'] = 7.
        if isinstance(x, np.ndarray):
            if x.flags.writeable and len(x):
                x[:] = ~x if x.dtype == bool else x[0]
        elif hasattr(x, 'columns'):
            x.iloc[:, :] = 0
        elif len(x):
            x.iloc[:] = x.iloc[0]
            x.drop(x.index, inplace=True)
    for (f, kw, _), a, (_, _, b) in zip(got, was, read(random.Random(seed), c)):
        require(a == repr(plain(b)), 'handed-out-not-a-copy', lambda: '%s %s: %s / %s' % (f, kw, a, repr(plain(b))))


def body(P, case, env, ops, state, n):
    spec = case['chem']
    tags = Counter()
    with quiet():
        base = base_of(spec)
    if state is None:
        chems = [(gen.build(spec), Ref(spec))]
        dumps = []
    else:
        chems, dumps = pickle.loads(state)
        tags['restarted'] += 1
    for c, ref in chems:
        expect(ref, base, 'start', c)
    for o in ops:
        P.op(o['i'])
        rng = random.Random(o['s'])
        j = int(o['j'] * len(chems))
        c, ref = chems[j]
        what = '%s %s' % (o['k'], o.get('a', ''))
        before = [(d, gen.snapshot(d)) for k, (d, _) in enumerate(chems) if k != j]
        if o['k'] == 'copy':
            d, q = c.copy(), ref.clone()
            require(gen.snapshot(d) == gen.snapshot(c), 'copy-differs', lambda: str(gen.snap_diff(gen.snapshot(c), gen.snapshot(d))))
            if o['which']:
                chems[j] = d, q
                d, q = c, ref
            if len(chems) < 4:
                chems.append((d, q))
            tags['copied'] += 1
        elif o['k'] == 'other':      # an independent chemistry of the same data
            if len(chems) < 4:
                chems.append((gen.build(spec), Ref(spec)))
        elif o['k'] == 'send':
            pool = multiprocessing.Pool(o['cores'])
            rs = [pool.apply_async(worker, (c, ref, o['ops'], base)) for _ in range(o['n'])]
            pool.close()
            pool.join()
            back = [r.get() for r in rs]
            for d, q in back:
                expect(q, base, what + ' and back', d)
            if len(chems) < 4:
                chems.append(back[-1])
            tags['sent'] += len(back)
        elif o['k'] == 'meddle':
            meddle(o['s'], c)
            tags['meddled'] += 1
        elif o['k'] == 'dump':
            with quiet():
                p = env.path('d%d_%d.yaml' % (n, len(dumps)))
                c.dump_chemistry_attributes(p)
                dumps.append((p, ref.clone()))
                require(c.check_coherence(p), 'incoherent-after-dump', what)
        elif o['k'] == 'load':
            if dumps:
                p, old = rng.choice(dumps)
                with quiet():
                    c.load_chemistry_attributes(p)
                chems[j] = c, old.clone()
                tags['loaded'] += 1
        else:
            apply_change(c, ref, o, what, tags)
        for d, snap in before:
            require(gen.snapshot(d) == snap, 'other-chemistry-changed', lambda: '%s changed %s of another chemistry' % (
                what, gen.snap_diff(snap, gen.snapshot(d))))
        for k, (d, q) in enumerate(chems):
            if k == j or d is not c and rng.random() < .15:
                expect(q, base, '%s%s' % (what, '' if k == j else ' of another chemistry'), d)
        if rng.random() < .15:
            tables(*(chems[j][1], base, what, chems[j][0]))
    P.emit('tags', dict(tags))
    return pickle.dumps((chems, dumps))
