"""C14: chemistry input files never silently lose or alter the chemistry."""
import pickle
import random
from collections import Counter

from .. import gen
from ..lib import attempt, require, ename
from ..proc import quiet, _real

ID = 'C14'
FAULTS = {'write': {'crash': 2, 'torn': 4, 'short': 2, 'err': 2, 'sticky': 1, 'int': 1},
          'openw': {'crash': 2, 'err': 2, 'int': 1}, 'openr': {'err': 2, 'crash': 1, 'int': 1},
          'rename': {'crash': 2, 'err': 1}, 'mkdir': {'crash': 1, 'err': 1}}
KIND_WEIGHT = {'write': 3, 'openw': 1, 'openr': 1}
RENAME = {'Ar**': 'Ar(4p,J=1)', 'O2*': 'O2(a1Dg,v=0)', 'N2*': 'N2(A3S(u+),v=1,J=2)', 'Ar*': 'Ar(4s[3/2]2)', 'O*': 'O(1D)'}


def FAULT_OK(pt):
    return pt[0].startswith('p')


def variants(tier):
    return 3


def dress(rng, spec):
    """More kinds of attributes and names, as the input files of the database have them."""
    ren = {a: b for a, b in RENAME.items() if rng.random() < .4}
    for _, a in spec['species']:
        if a['name'] in ren:
            a['name'] = ren[a['name']]
            a['state'] = a['name'][a['name'].index('('):]
        if 'ret_coefs' in a:
            a['ret_coefs'] = {ren.get(k, k): v for k, v in a['ret_coefs'].items()}
        if rng.random() < .1:
            a['latex'] = r'\mathrm{%s}' % a['name']
        if rng.random() < .15:
            for k in ('mass', 'h_form', 'stick_coef'):
                if k in a:
                    a[k] = str(a[k])
        if rng.random() < .1:
            a['comments'] = rng.choice(["it's \"so\" & <so>", 'ref 1; ref 2', 'N\u2082 \u00b5-wave', ']]>', '42'])
    for r in spec['reactions']:
        r[1], r[2] = [ren.get(s, s) for s in r[1]], [ren.get(s, s) for s in r[2]]
        a = r[3]
        if rng.random() < .1:
            a['elastic'] = rng.choice([False, 'false', 'True', 'FALSE'])
        if rng.random() < .1:
            a['special_number'] = rng.randint(-1, 40)
        if rng.random() < .1:
            a['qdb_ds_id'] = rng.randint(1, 999)
        if rng.random() < .1:
            a['latex'] = r'\ce{A ->[e < 3] B} & more'
        if rng.random() < .1:
            a['arrh_a'] = repr(a['arrh_a'])
        if rng.random() < .05:
            a.pop('arrh_b', None)
    return spec


def make_case(rng, tier):
    specs = [dress(rng, gen.chem_spec(rng, 2, 10)) for _ in range(2)]
    ops = []
    for i in range(rng.randint(4, 12)):
        x = rng.random()
        o = {'i': i, 's': rng.getrandbits(30)}
        p = rng.choice('aabbc') if i > 1 else 'a'
        if i == 0 or x < .15:
            o.update(k='fill', n=rng.choice([0, 0, 1]), dis=rng.random() < .25, adhoc=rng.random() < .2, attrs=rng.choice([0, 0, 0, 0, 1, 2]))
        elif i == 1 or x < .47:
            o.update(k='dump', p=p, ow=rng.random() < .6)
        elif x < .70:
            o.update(k='parse', p=p)
        elif x < .78:
            o.update(k='sort')
        elif x < .83:
            o.update(k='assign')
        elif x < .90:
            o.update(k='from_xml', p=p)
        elif x < .96:
            o.update(k='restart')
        else:
            o.update(k='truncate', p=p, u=rng.random())
        ops.append(o)
    ops.append({'i': 97, 's': 1, 'k': 'dump', 'p': rng.choice('abc'), 'ow': True})
    ops.append({'i': 98, 's': 1, 'k': 'parse', 'p': ops[-1]['p']})
    return {'specs': specs, 'listseed': 0, 'bufsize': rng.choice([64, 512, 8192]), 'ops': ops}


def run(env, case):
    w = env.world(crash_all=True)
    ops, n, seen, book = case['ops'], 0, 0, {}
    while True:
        out = w.run([('p%d' % n, lambda P: body(P, case, env, ops, book))])['p%d' % n]
        new = [(t, pickle.loads(b)) for _, t, b in w.log[seen:]]
        seen = len(w.log)
        done = None
        for t, b in new:
            if t == 'book':
                book = b
            elif t == 'tags':
                env.tags.update(b)
            elif t == 'at':
                done = b
        if not out.crashed:
            done = out.value()
        else:
            env.tags['crashed'] += 1
        if done is None:
            return
        ops = [o for o in ops if o['i'] > done]
        n += 1


# ---------------------------------------------------------------------------------------------- what a user sees
SP = ('name', 'stateless', 'state', 'mass', 'charge', 'h_form', 'lj_epsilon', 'lj_sigma', 'hpem_name', 'qdb_id',
      'stick_coef', 'ret_coefs', 'comments', 'latex')
RX = ('arrh_a', 'arrh_b', 'arrh_c', 'elastic', 'el_en_loss', 'gas_heat_contrib', 'special_number', 'qdb_r_id',
      'qdb_ds_id', 'doi', 'comments', 'latex')


def val(f, *a, **kw):
    r = attempt(f, *a, **kw)
    if r[0] == 'exc':
        return '!' + type(r[1]).__name__
    v = r[1]
    return dict(v) if isinstance(v, dict) else v if v is None or isinstance(v, (str, bool)) else float(v)


def see_sp(sp):
    d = {k: val(getattr(sp, 'get_' + k)) for k in SP}
    d['units'] = {k: val(sp.get_unit, k) for k in ('mass', 'charge', 'h_form', 'lj_epsilon', 'lj_sigma')}
    return d


def see_r(r):
    d = {k: val(getattr(r, 'get_' + k)) for k in RX}
    d['arrh_a_si'] = val(r.get_arrh_a, si_units=True)
    d['arrh_a_own'] = val(r.get_arrh_a, si_units=False)
    for k in ('arrh_a', 'arrh_c'):
        d['unit ' + k] = val(r.get_unit, k)
    d['lhs'], d['rhs'] = [s.get_name() for s in r.get_reactants()], [s.get_name() for s in r.get_products()]
    return d


def see(species, reactions):
    return legible({'sp': [(int(s.id), see_sp(s)) for s in species], 'r': [(int(r.id), see_r(r)) for r in reactions]})


def view_diff(a, b):
    for k in ('sp', 'r'):
        if [x[0] for x in a[k]] != [x[0] for x in b[k]]:
            return '%s ids %s / %s' % (k, [x[0] for x in a[k]], [x[0] for x in b[k]])
        for (i, x), (_, y) in zip(a[k], b[k]):
            for f in x:
                if x[f] != y[f]:
                    return '%s %d %s: %r / %r' % (k, i, f, x[f], y[f])
    return None


def legible(view, anyway=False):
    """How a reaction is typeset depends on telling its species apart by their ids."""
    if numbered(view) and not anyway:
        return view
    return {'sp': view['sp'], 'r': [(i, {k: v for k, v in x.items() if k != 'latex'}) for i, x in view['r']]}


def numbered(view):
    return all(len({x[0] for x in v}) == len(v) for v in view.values())


def by_attributes(b, spec, ids):
    """A builder filled element by element, with or without ids."""
    for i, a in spec['species']:
        b.add_rp_from_attributes(*([i] if ids else []), rp_attributes=dict(a))
    for i, lhs, rhs, a, u in spec['reactions']:
        b.add_reaction_from_attributes(list(lhs), list(rhs), *([i] if ids else []), r_attributes=dict(a), r_units=dict(u))


def unnumbered(spec, ids):
    c = gen.build({k: v for k, v in spec.items() if k != 'protected'})
    v = see(c.get_species(special=True, disabled=True), c.get_reactions(disabled=True))
    return v if ids else legible({k: [(999, x) for _, x in v[k]] for k in v})


def content(view):
    """The view without ids and order."""
    return {k: sorted((repr(sorted(x.items(), key=str)) for _, x in view[k])) for k in view}


def body(P, case, env, ops, book):
    from plaschem.xml_inputs import XmlBuilder, XmlParser
    from plaschem.exceptions import XmlError
    tags = Counter()
    book = dict(book)          # path -> list of possible contents: [view, whole chemistry] or None for invalid
    b, inb = XmlBuilder(), None            # builder, what a file of it has to hold

    def parse(path):
        sp, r = XmlParser().get_species_and_reactions(path)
        return see(sp, r)
    for o in ops:
        P.emit('at', o['i'])
        P.op(o['i'])
        path = env.path('%s.xml' % o['p']) if 'p' in o else None
        rng = random.Random(o['s'])
        if o['k'] == 'restart':
            P.emit('tags', dict(tags))
            return o['i']
        if o['k'] == 'fill':
            with quiet():
                c = gen.build(case['specs'][o['n']])
                if o['adhoc']:
                    for i in list(c.get_reactions_id())[:2]:
                        c.set_adhoc_reactions_attributes('arrh_a', int(i), 1.5e-9)
                if o['dis']:
                    attempt(c.disable, species=(int(rng.choice(list(c.get_species_id()))),))
                whole = not len(c.get_disabled_species()) and not len(c.get_disabled_reactions())
                inb = [see(c.get_species(special=True), c.get_reactions()), True]
                names = {x['name'] for _, x in inb[0]['sp']}     # what is disabled cannot be returned either
                for _, x in inb[0]['sp']:
                    if isinstance(x['ret_coefs'], dict):
                        x['ret_coefs'] = {k: v for k, v in x['ret_coefs'].items() if k in names}
                b.reset_chemistry()
            if o['attrs']:
                by_attributes(b, case['specs'][o['n']], o['attrs'] == 2)
                tags['by_attributes'] += 1
                whole, inb[0] = True, unnumbered(case['specs'][o['n']], o['attrs'] == 2)
            else:
                b.add_chemistry_from_instance(c)
            tags['partial'] += not whole
        elif o['k'] in ('sort', 'assign') and inb:
            if o['k'] == 'sort':
                b.sort_elements()
            else:
                b.assign_ids()
            with quiet():
                sp, r = XmlParser.get_species_and_reactions_from_xml_elements(b.species, b.reactions)
                now = see(sp, r)
            old = inb[0]
            if o['k'] == 'sort' and not numbered(old):
                require(content(old) == content(legible(now, True)), 'sorting-changed-chemistry', 'no ids')
                require(numbered(now), 'sorting-gave-no-ids', lambda: '%s' % [[x[0] for x in v] for v in now.values()])
            elif o['k'] == 'sort':
                d = view_diff({k: sorted(v, key=lambda x: x[0]) for k, v in old.items()},
                              {k: sorted(v, key=lambda x: x[0]) for k, v in now.items()})
                require(not d, 'sorting-changed-chemistry', lambda: d)
            else:
                n = iter(range(1, 10 ** 6))
                want = {'sp': [({'e': 0, 'M': 999}.get(x['name']) if x['name'] in ('e', 'M') else next(n), x)
                               for _, x in old['sp']], 'r': [(i + 1, x) for i, (_, x) in enumerate(old['r'])]}
                d = view_diff(want, now)
                require(not d, 'assigning-ids-changed-chemistry', lambda: d)
            inb = [now, inb[1]]
            tags[o['k']] += 1
        elif o['k'] == 'dump' and inb:
            dump(P, b, path, o['ow'], inb, book, tags, XmlError)
        elif o['k'] == 'truncate':
            with quiet():
                try:
                    with _real['open'](path, 'rb') as f:
                        s = f.read()
                except FileNotFoundError:
                    continue
                with _real['open'](path, 'wb') as f:
                    f.write(s[:int(len(s) * o['u'])])
            book[path] = book.get(path, []) + [None]
            P.emit('book', book)
            tags['truncated'] += 1
        elif o['k'] == 'from_xml':
            cand = book.get(path, [None])
            nb = XmlBuilder()
            r = attempt(nb.add_chemistry_from_xml, path)
            if r[0] == 'exc':
                require(None in cand or isinstance(r[1], (OSError, KeyboardInterrupt)), 'own-file-refused',
                        lambda: '%s: %s' % (path, ename(r[1])))
                continue
            with quiet():
                sp, rx = XmlParser.get_species_and_reactions_from_xml_elements(nb.species, nb.reactions)
            got = see(sp, rx)
            inb, b = match(got, cand, path), nb
            tags['rebuilt'] += 1
        elif o['k'] == 'parse':
            cand = book.get(path, [None])
            r = attempt(parse, path)
            if r[0] == 'exc':
                require(None in cand or isinstance(r[1], (OSError, KeyboardInterrupt)), 'own-file-refused',
                        lambda: '%s: %s' % (path, ename(r[1])))
                tags['refused'] += 1
                continue
            got = match(r[1], cand, path)
            tags['parsed'] += 1
            if numbered(got[0]):
                whole_chemistry(path, got, tags)
    P.emit('tags', dict(tags))
    return None


def match(got, cand, path):
    ok = [x for x in cand if x is not None and not view_diff(x[0], got)]
    if not ok:
        require(any(cand), 'invalid-file-parsed', path)
        require(False, 'parsed-another-chemistry', lambda: view_diff([x for x in cand if x][-1][0], got))
    return ok[0]


def dump(P, b, path, ow, inb, book, tags, XmlError):
    with quiet():
        try:
            with _real['open'](path, 'rb') as f:
                before = f.read()
        except FileNotFoundError:
            before = None
    old = book.get(path, [None])
    book[path] = old + [inb, None]
    P.emit('book', book)
    r = attempt(b.dump_xml, path, overwrite=ow)
    with quiet():
        try:
            with _real['open'](path, 'rb') as f:
                after = f.read()
        except FileNotFoundError:
            after = None
    if before is not None and not ow:
        require(r[0] == 'exc' and isinstance(r[1], XmlError), 'existing-file-not-refused', lambda: str(r))
        require(before == after, 'existing-file-changed', path)
        book[path] = old
        tags['existing'] += 1
    elif r[0] == 'exc':
        require(isinstance(r[1], (OSError, KeyboardInterrupt)), 'dump-failed', lambda: ename(r[1]))
        tags['dump_failed'] += 1
        if before == after:
            book[path] = old
    else:
        book[path] = [inb]
        tags['dumped'] += 1
    P.emit('book', book)


def whole_chemistry(path, want, tags):
    """The same through the Chemistry class."""
    from plaschem.chemistry import Chemistry
    r = attempt(Chemistry, xml_path=path)
    if r[0] == 'exc':
        require(isinstance(r[1], (OSError, KeyboardInterrupt)), 'chemistry-of-own-file-refused', lambda: ename(r[1]))
        return
    c = r[1]
    got = see(c.get_species(special=True), c.get_reactions())
    d = view_diff(want[0], got)
    require(not d, 'chemistry-differs', lambda: d)
    m, name = c.get_return_matrix(), dict(want[0]['sp'])
    for i in m.columns:
        for j in m.index:
            w = (name[int(i)]['ret_coefs'] or {}).get(name[int(j)]['name'], 0.) if name[int(i)]['stick_coef'] else 0.
            require(float(m.at[j, i]) == float(w), 'return-matrix-differs', lambda: '%s %s: %r / %r' % (i, j, m.at[j, i], w))
    tags['chemistries'] += 1
