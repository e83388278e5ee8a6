"""C13: chemistry attribute files restore exact state or change nothing."""
import os
import random
from collections import Counter

from .. import gen, lib
from ..lib import attempt, require, ename
from ..proc import quiet, _real
from ..kernel import Crashed

ID = 'C13'
FAULTS = {'write': {'crash': 2, 'torn': 4, 'short': 2, 'err': 2, 'sticky': 1, 'int': 1},
          'openw': {'crash': 2, 'err': 2, 'int': 1}, 'openr': {'err': 2, 'crash': 1, 'int': 1},
          'rename': {'crash': 2, 'err': 1}, 'mkdir': {'crash': 1, 'err': 1}}
KIND_WEIGHT = {'write': 3, 'openw': 1, 'openr': 1}


def FAULT_OK(pt):
    return pt[0].startswith('p')


def variants(tier):
    return 3


MALFORMED = ['junk', 'empty', 'list', 'scalar', 'drop_key', 'drop_id', 'foreign_id', 'wrong_type', 'tabs', 'binary',
             'bad_adhoc', 'bad_attr', 'null_lists', 'inconsistent', 'twice', 'twice']


def make_case(rng, tier):
    spec = gen.chem_spec(rng, 2, 10)
    spec = gen.maybe_neutral(rng, spec, 0.12)
    ops = []
    paths = ['a', 'b', 'c']
    for i in range(rng.randint(5, 14)):
        x = rng.random()
        o = {'i': i, 's': rng.getrandbits(30)}
        if x < .34:
            o.update(lib.chem_op(rng, spec), chem=True)
        elif x < .56 or i == 0:
            o.update(k='dump', p=rng.choice(paths))
        elif x < .80:
            o.update(k='load', p=rng.choice(paths), leaf=rng.random() if rng.random() < .15 else None)
        elif x < .87:
            o.update(k=rng.choice(['restart', 'restart', 'rebuild']),
                     how=rng.choice(['same', 'same', 'same', 'other_net', 'moved', 'movedir', 'edited']))
        elif x < .90:
            o.update(k='again')
        elif x < .94:
            o.update(k='truncate', p=rng.choice(paths), u=rng.random())
        else:
            o.update(k='damage', p=rng.choice(paths), how=rng.choice(MALFORMED))
        ops.append(o)
    ops.append({'i': 98, 's': rng.getrandbits(30), 'k': 'load', 'p': ops[0].get('p', 'a'), 'leaf': None})
    return {'chem': spec, 'other': gen.chem_spec(rng, 2, 8), 'listseed': 0, 'bufsize': rng.choice([64, 512, 8192]),
            'xml': rng.random() < .5, 'pathtype': rng.random() < .2, 'ops': ops}


def run(env, case):
    w = env.world(crash_all=True)
    segs, cur, src = [], [], 'same'
    for o in case['ops']:
        if o['k'] == 'restart':
            segs.append((src, cur))
            src, cur = o['how'], []
        else:
            cur.append(o)
    segs.append((src, cur))
    os.makedirs(env.path('sub'))
    if case['xml']:
        w.call('setup', lambda P: write_xml(P, case, env))
    book = {}
    for n, (src, seg) in enumerate(segs):
        seen = len(w.log)
        while seg is not None:
            out = w.run([('p%d' % n, lambda P: body(P, case, env, src, seg, book, env))])['p%d' % n]
            new = [(t, b) for _, t, b in w.log[seen:]]
            seen = len(w.log)
            import pickle
            for t, b in new:
                if t == 'book':
                    book = pickle.loads(b)
                elif t == 'tags':
                    env.tags.update(pickle.loads(b))
            if not out.crashed:
                out.value()
                break
            env.tags['crashed'] += 1
            # go on in a new process with what comes after the place of the crash
            done = [pickle.loads(b) for t, b in new if t == 'at'][-1]
            seg = [o for o in seg if o['i'] > done]
            n += 100


def write_xml(P, case, env):
    from plaschem.xml_inputs import XmlBuilder
    for name, key in (('chem.xml', 'chem'), ('other.xml', 'other')):
        b = XmlBuilder()
        b.add_chemistry_from_instance(gen.build(case[key]))
        b.dump_xml(env.path(name))
    with _real['open'](env.path('chem.xml')) as f:
        s = f.read()
    with _real['open'](env.path('moved.xml'), 'w') as f:
        f.write(s)
    with _real['open'](env.path('sub', 'live.xml'), 'w') as f:
        f.write(s)
    k = s.rindex('</reactions>')
    with _real['open'](env.path('edited.xml'), 'w') as f:
        f.write(s[:k] + '<!-- touched -->' + s[k:])


def source(case, env, src):
    """(chemistry, name of what it was built from)"""
    from plaschem.chemistry import Chemistry
    if not case['xml']:
        if src == 'other_net':
            return gen.build(case['other']), 'other'
        return gen.build(case['chem']), 'chem'
    live = env.path('live.xml')
    name = {'same': 'chem.xml', 'other_net': 'other.xml', 'edited': 'edited.xml'}.get(src)
    with quiet():
        if src == 'moved':
            live = env.path('moved.xml')
        elif src == 'movedir':
            live = env.path('sub', 'live.xml')
        else:
            with _real['open'](env.path(name)) as f:
                s = f.read()
            with _real['open'](live, 'w') as f:
                f.write(s)
    if case['pathtype']:
        import pathlib
        live = pathlib.Path(live)
    if case['other' if src == 'other_net' else 'chem'].get('neutral'):
        from pygmo_fwork.pygmol.neutral_model import NeutralChemistry as Chemistry
    with quiet():
        c = Chemistry(xml_path=live)
    return c, src if src != 'same' else 'chem'


def comparable(case, a, b):
    """Whether files of source a must (True), must not (False) or may (None) load into chemistry b."""
    if a == b:
        return True
    if not case['xml']:
        ids = [(sorted(x[0] for x in case[k]['species']), sorted(x[0] for x in case[k]['reactions']))
               for k in ('chem', 'other')]
        return None if ids[0] == ids[1] else False
    return False


def body(P, case, env, src, ops, book, _):
    tags = Counter()
    c, me = source(case, env, src)
    spec = case['other'] if me in ('other', 'other_net') else case['chem']
    ref = gen.RefChem(spec)
    book = dict(book)       # path -> list of possible contents: (source, snapshot, ref) or None for invalid

    def save():
        P.emit('book', book)
    for o in ops:
        P.emit('at', o['i'])
        P.op(o['i'])
        path = env.path('%s.yaml' % o['p']) if 'p' in o else None
        if o.get('chem'):
            r = lib.apply_chem_op(c, o)
            if r[0] == 'ok':
                follow(ref, o)
        elif o['k'] == 'dump':
            state = (me, gen.snapshot(c), ref.clone())
            old = book.get(path, [None])
            book[path] = old + [state, None]      # while it is being written: anything of these
            save()
            r = attempt(c.dump_chemistry_attributes, path)
            if r[0] == 'ok':
                book[path] = [state]
                with quiet():
                    coh = attempt(c.check_coherence, path)
                require(coh == ('ok', True), 'coherence-after-dump', lambda: 'a file just dumped: %s' % (coh,))
                require(state[1] == gen.snapshot(c), 'dump-changed-state', '')
                tags['dumped'] += 1
            else:
                require(P_faulty(r[1]), 'dump-failed', lambda: ename(r[1]))
                tags['dump_failed'] += 1
            save()
        elif o['k'] in ('truncate', 'damage'):
            with quiet():
                if os.path.isfile(path):
                    with _real['open'](path, 'rb') as f:
                        b = f.read()
                    if o['k'] == 'truncate':
                        n = int(len(b) * o['u'])
                        with _real['open'](path, 'wb') as f:
                            f.write(b[:n])
                        book[path] = book.get(path, []) + [None]
                        tags['truncated'] += 1
                    elif len(book[path]) == 1 and book[path][0] is not None:
                        n = damage(b, o['how'], random.Random(o['s']))
                        if n is not None:
                            with _real['open'](path, 'wb') as f:
                                f.write(n)
                            book[path] = [None]
                            tags['damaged'] += 1
            save()
        elif o['k'] == 'rebuild':        # another chemistry in the same process
            c, me = source(case, env, o['how'])
            spec = case['other'] if me in ('other', 'other_net') else case['chem']
            ref = gen.RefChem(spec)
            tags['rebuilt'] += 1
        elif o['k'] == 'again':
            again(c, random.Random(o['s']), env.path('z.yaml'))
            tags['set_again'] += 1
        elif o['k'] == 'load':
            check_load(P, case, c, me, ref, o, path, book, tags)
            if tags.pop('_loaded', None):
                ref = tags_ref.pop().clone()
    P.emit('tags', dict(tags))


tags_ref = []


def again(c, rng, path):
    """The same ad-hoc data set once more, in another order."""
    sp = [(k, i, v.at[i]) for k, v in c.adhoc_species_attributes.items() for i in v.index]
    r = [(k, i, v.at[i]) for k, v in c.adhoc_reactions_attributes.items() for i in v.index]
    dis = set(c.get_species(disabled=True, special=True).index) - set(c.get_species(special=True).index)
    if dis and sp:
        return
    if rng.random() < .8:
        for i in rng.sample(list(c.get_reactions().index), min(2, len(c.get_reactions()))):
            c.set_adhoc_reactions_attributes('arrh_a', int(i), 10. ** -rng.randint(8, 14))
        r = [(k, i, v.at[i]) for k, v in c.adhoc_reactions_attributes.items() for i in v.index]
    rng.shuffle(sp)
    rng.shuffle(r)
    with quiet():
        c.dump_chemistry_attributes(path)
    before = gen.snapshot(c)
    c.reset_adhoc_species_attributes('all')
    c.reset_adhoc_reactions_attributes('all')
    for x in sp:
        c.set_adhoc_species_attributes(*x)
    for x in r:
        c.set_adhoc_reactions_attributes(*x)
    require(not gen.snap_diff(before, gen.snapshot(c)), 'reset-ad-hoc-data-differ', '')
    with quiet():
        require(c.check_coherence(path), 'not-coherent-with-own-state', 'ad-hoc data set again in another order')


def P_faulty(e):
    return isinstance(e, (OSError, KeyboardInterrupt))


def follow(ref, o):
    a = o['a']
    if o['k'] == 'dis_sp':
        n = ref.try_disable([x if isinstance(x, int) else ref.names[x] for x in a], [])
    elif o['k'] == 'dis_r':
        n = ref.try_disable([], a)
    elif o['k'] == 'reset':
        ref.reset()
        return
    elif o['k'] == 'protect':
        ref.explicit.add(ref.names[a[0]])
        return
    else:
        return
    if n is not None:
        ref.__dict__.update(n.__dict__)


def check_load(P, case, c, me, ref, o, path, book, tags):
    before = gen.snapshot(c)
    cand = book.get(path, [None])
    # coherence first
    with quiet():
        coh = attempt(c.check_coherence, path)
    same = [x for x in cand if x is not None and x[0] == me and not gen.snap_diff(x[1], before)]
    if coh[0] == 'ok' and coh[1] is True:
        require(same, 'coherent-with-another-state', lambda: path)
        tags['coherent'] += 1
    elif len(cand) == 1 and same and same[0][2].explicit == ref.explicit and same[0][2].adhoc == ref.adhoc:
        require(False, 'not-coherent-with-own-state', lambda: '%s' % (coh,))
    require(not gen.snap_diff(gen.snapshot(c), before), 'coherence-check-changed-state', '')

    leaf = None
    if o.get('leaf') is not None:
        n = count(P, c, path)
        if n:
            leaf = lib.LeafFault(P, LEAVES, int(o['leaf'] * n), KeyboardInterrupt)

    def f():
        if leaf is None:
            return c.load_chemistry_attributes(path)
        with leaf:
            return c.load_chemistry_attributes(path)
    r = attempt(f)
    after = gen.snapshot(c)
    if r[0] == 'exc':
        d = gen.snap_diff(after, before)
        require(not d, 'failed-load-changed-state', lambda: '%s changed by %s' % (d, ename(r[1])))
        tags['refused'] += 1
        if isinstance(r[1], (OSError, KeyboardInterrupt)) or (leaf is not None and leaf.fired):
            return
        if len(cand) == 1 and cand[0] is not None:
            require(comparable(case, cand[0][0], me) is not True, 'valid-file-refused',
                    lambda: '%s: %s' % (path, ename(r[1])))
        return
    ok = [x for x in cand if x is not None and comparable(case, x[0], me) is not False and
          not gen.snap_diff(x[1], after)]
    if not ok:
        valid = [x for x in cand if x is not None]
        if not valid:
            require(False, 'invalid-file-loaded', lambda: path)
        if all(comparable(case, x[0], me) is False for x in valid):
            require(False, 'mismatching-file-loaded', lambda: '%s of %s into %s' % (path, valid[0][0], me))
        if any(comparable(case, x[0], me) is None for x in valid):
            return
        require(False, 'restored-wrong-state', lambda: '%s' % gen.snap_diff(valid[-1][1], after))
    tags['restored'] += 1
    tags['_loaded'] = 1
    tags_ref.append(ok[0][2])


LEAVES = ['plaschem/species.py', 'plaschem/reactions.py']


def count(P, c, path):
    import copy
    with lib.quiet_keep_solver(P):
        d = copy.deepcopy(c)
        lf = lib.LeafFault(P, LEAVES)

        def f():
            with lf:
                d.load_chemistry_attributes(path)
        attempt(f)
        return lf.count


def damage(b, how, rng):
    """Content that is not a possible attribute file of the chemistry, or None if it cannot be made here."""
    import yaml
    if how == 'junk':
        return b'{{{ not yaml: ['
    if how == 'empty':
        return b''
    if how == 'list':
        return b'- 1\n- 2\n'
    if how == 'scalar':
        return b'hello\n'
    if how == 'tabs':
        return b.replace(b'  ', b'\t', 3)
    if how == 'binary':
        return bytes(rng.randrange(128, 256) for _ in range(40)) + b
    a = yaml.load(b.decode(), Loader=yaml.FullLoader)
    if how == 'drop_key':
        k = rng.choice(['species_ids', 'reactions_ids', 'adhoc_species_attributes', 'adhoc_reactions_attributes',
                        'xml_path', 'xml_hash', 's.enabled', 's.disabled', 's.protected', 'r.enabled', 'r.disabled'])
        if '.' in k:
            a[{'s': 'species_ids', 'r': 'reactions_ids'}[k[0]]].pop(k[2:])
        else:
            a.pop(k)
    elif how == 'drop_id':
        x = a[rng.choice(['species_ids', 'reactions_ids'])]
        k = 'enabled' if x['enabled'] else 'disabled'
        x[k] = x[k][1:]
    elif how == 'foreign_id':
        x = a[rng.choice(['species_ids', 'reactions_ids'])]
        x[rng.choice(['enabled', 'disabled'])].append(77777)
    elif how == 'wrong_type':
        k = rng.choice(['species_ids', 'reactions_ids', 'adhoc_species_attributes'])
        a[k] = 5
    elif how == 'bad_adhoc':
        a['adhoc_species_attributes'].append(['stick_coef', 77777, .5])
    elif how == 'bad_attr':
        if not a['reactions_ids']['enabled']:
            return None
        a['adhoc_reactions_attributes'].append(['arrh_a', a['reactions_ids']['enabled'][0], rng.choice([[1., 2.], {'a': 1}, True])])
    elif how == 'twice':             # one id named more than once
        x = a[rng.choice(['species_ids', 'reactions_ids'])]
        ks = [k for k in ('enabled', 'disabled') if x[k]]
        i = rng.choice(x[rng.choice(ks)])
        x[rng.choice(['enabled', 'disabled'])].append(i)
    elif how == 'null_lists':
        a['reactions_ids']['enabled'] = None
    elif how == 'inconsistent':      # a species disabled although its reactions are not
        x = a['species_ids']
        if not x['enabled']:
            return None
        x['disabled'] = x['disabled'] + [x['enabled'][-1]]
        x['enabled'] = x['enabled'][:-1]
    return yaml.dump(a).encode()
