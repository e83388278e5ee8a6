"""Random chemistries, model parameters and snapshots of their state (public interface of the code under test only)."""
import random

# name: (stateless, state, mass, charge, ground state neutral pieces returned from a wall)
SPECIES = {
    'e': (None, None, 5.4858e-4, -1), 'M': (None, None, None, 0),
    'Ar': (None, None, 39.948, 0), 'Ar*': ('Ar', '*', 39.948, 0), 'Ar**': ('Ar', '**', 39.948, 0),
    'Ar+': (None, None, 39.948, 1), 'Ar2+': (None, None, 79.896, 1), 'Ar2*': ('Ar2', '*', 79.896, 0),
    'O2': (None, None, 31.998, 0), 'O': (None, None, 15.999, 0), 'O3': (None, None, 47.997, 0),
    'O+': (None, None, 15.999, 1), 'O2+': (None, None, 31.998, 1), 'O-': (None, None, 15.999, -1),
    'O2-': (None, None, 31.998, -1), 'O*': ('O', '*', 15.999, 0), 'O2*': ('O2', '*', 31.998, 0),
    'O3-': (None, None, 47.997, -1), 'O4+': (None, None, 63.996, 1),
    'N2': (None, None, 28.014, 0), 'N': (None, None, 14.007, 0), 'N2+': (None, None, 28.014, 1),
    'N+': (None, None, 14.007, 1), 'N2*': ('N2', '*', 28.014, 0), 'NO': (None, None, 30.006, 0),
    'NO+': (None, None, 30.006, 1), 'N2O': (None, None, 44.013, 0),
}
GROUND = {'Ar*': {'Ar': 1.}, 'Ar**': {'Ar': 1.}, 'Ar+': {'Ar': 1.}, 'Ar2+': {'Ar': 2.}, 'Ar2*': {'Ar': 2.},
          'O': {'O2': .5}, 'O3': {'O2': 1., 'O': 1.}, 'O+': {'O': 1.}, 'O2+': {'O2': 1.}, 'O*': {'O': 1.},
          'O2*': {'O2': 1.}, 'O4+': {'O2': 2.}, 'N': {'N2': .5}, 'N2+': {'N2': 1.}, 'N+': {'N': 1.},
          'N2*': {'N2': 1.}, 'NO': {'NO': 1.}, 'NO+': {'NO': 1.}, 'N2O': {'N2': 1., 'O': 1.}}
POOL = [
    'e + Ar -> e + Ar', 'e + Ar -> e + e + Ar+', 'e + Ar -> e + Ar*', 'e + Ar* -> e + e + Ar+', 'e + Ar* -> e + Ar',
    'e + Ar -> e + Ar**', 'e + Ar** -> e + Ar*', 'e + Ar** -> e + e + Ar+', 'Ar* + Ar* -> e + Ar + Ar+',
    'Ar** -> Ar*', 'Ar** -> Ar', 'Ar+ + Ar + Ar -> Ar2+ + Ar', 'Ar+ + Ar + M -> Ar2+ + M', 'e + Ar2+ -> Ar* + Ar',
    'e + Ar2+ -> Ar** + Ar', 'Ar* + Ar + M -> Ar2* + M', 'Ar2* -> Ar + Ar', 'e + Ar+ + M -> Ar + M',
    'e + O2 -> e + O2', 'e + O2 -> e + e + O2+', 'e + O2 -> e + O + O', 'e + O2 -> O + O-', 'e + O -> e + e + O+',
    'e + O2 -> e + O2*', 'e + O2* -> e + e + O2+', 'e + O2* -> O + O-', 'e + O -> e + O*', 'O* -> O', 'O* + O2 -> O + O2*',
    'O- + O2+ -> O + O2', 'O- + O+ -> O + O', 'O- + O -> e + O2', 'O- + M -> e + O + M', 'O2- + O2+ -> O2 + O2',
    'e + O2 + M -> O2- + M', 'O + O2 + M -> O3 + M', 'O + O3 -> O2 + O2', 'O- + O2 -> e + O3', 'O + O + M -> O2 + M',
    'e + O3 -> O- + O2', 'O3 + O- -> O3- + O', 'O3- + O2+ -> O3 + O2', 'O+ + O2 -> O + O2+', 'O2+ + O2 + M -> O4+ + M',
    'e + O4+ -> O2 + O2', 'e + O2+ -> O + O', 'Ar+ + O2 -> Ar + O2+', 'Ar* + O2 -> Ar + O + O', 'Ar+ + O -> Ar + O+',
    'Ar+ + O- -> Ar + O', 'Ar2+ + O2 -> Ar + Ar + O2+', 'e + N2 -> e + N2', 'e + N2 -> e + e + N2+',
    'e + N2 -> e + N + N', 'e + N -> e + e + N+', 'e + N2 -> e + N2*', 'N2* -> N2', 'N2* + M -> N2 + M',
    'e + N2+ -> N + N', 'N + N + M -> N2 + M', 'N + O2 -> NO + O', 'N + O3 -> NO + O2', 'e + NO -> e + e + NO+',
    'N2+ + O -> NO+ + N', 'e + NO+ -> N + O', 'N+ + N2 -> N + N2+', 'N2+ + O2 -> N2 + O2+', 'NO + N -> N2 + O',
    'N2* + O- -> e + N2O', 'N2O + O* -> NO + NO', 'e + N2O -> N2 + O-', 'N2+ + Ar -> N2 + Ar+', 'Ar* + N2 -> Ar + N2*',
]
RX = [tuple(tuple(side.split(' + ')) for side in r.split(' -> ')) for r in POOL]


def _r(x, nd=4):
    return float('%.*g' % (nd, x))


def chem_spec(rng, nmin=5, nmax=16, families=None):
    """A JSON description of a chemistry: species with all their attributes, reactions with their kinetic data."""
    fams = families or rng.choice([['Ar'], ['O'], ['Ar', 'O'], ['O', 'N'], ['Ar', 'O', 'N'], ['N'], ['Ar', 'N']])
    tag = {'Ar': 'Ar', 'O': 'O', 'N': 'N'}
    q = _r if rng.random() < .75 else lambda x, nd=0: x     # numbers with all their digits

    def fam_ok(rx):
        for s in rx[0] + rx[1]:
            if s in ('e', 'M'):
                continue
            for el in ('Ar', 'O', 'N'):
                if el in s.replace('Ar', '' if el != 'Ar' else 'Ar') and tag[el] not in fams:
                    return False
        return True
    pool = [i for i, rx in enumerate(RX) if fam_ok(rx)]
    n = min(len(pool), rng.randint(nmin, nmax))
    base = {'Ar': ['e + Ar -> e + e + Ar+'], 'O': ['e + O2 -> e + e + O2+'], 'N': ['e + N2 -> e + e + N2+']}
    chosen = [POOL.index(base[f][0]) for f in fams]
    # prefer reactions touching what is already there, so that networks hang together in different ways
    while len(chosen) < n:
        have = {s for i in chosen for side in RX[i] for s in side}
        cand = [i for i in pool if i not in chosen]
        near = [i for i in cand if len(set(RX[i][0] + RX[i][1]) - have) <= 1]
        chosen.append(rng.choice(near or cand))
    rng.shuffle(chosen)
    names = sorted({s for i in chosen for side in RX[i] for s in side} | {'e'})
    rng.shuffle(names)
    ids = rng.sample(range(1, 3 * len(names) + 3), len(names))
    species, feeds = [], [{'Ar': 'Ar', 'O': 'O2', 'N': 'N2'}[f] for f in fams]
    for nm, i in zip(names, ids):
        stateless, state, mass, charge = SPECIES[nm]
        if nm == 'e':
            i = 0
        if nm == 'M':
            i = 999
        a = {'name': nm}
        if mass is not None:
            a['mass'] = mass
        if stateless:
            a['stateless'], a['state'] = stateless, state
        a['charge'] = charge
        if nm not in ('e', 'M'):
            a['h_form'] = q(rng.uniform(0, 5))
            a['lj_epsilon'] = q(rng.uniform(30, 200))
            a['lj_sigma'] = q(rng.uniform(2.5, 4))
            ret = {k: v for k, v in GROUND.get(nm, {}).items() if k in names and k != nm}
            if charge < 0:
                a['stick_coef'], a['ret_coefs'] = 0., {}
            elif nm in feeds:
                if rng.random() < .3:
                    a['stick_coef'], a['ret_coefs'] = 0., {}
                elif rng.random() < .3:   # a feed gas turning into something else at the wall
                    alt = [s for s in names if s not in ('e', 'M', nm) and SPECIES[s][3] == 0]
                    if alt:
                        a['stick_coef'] = _r(rng.uniform(.001, .2))
                        a['ret_coefs'] = {rng.choice(alt): _r(rng.uniform(.2, 1), 3), nm: _r(rng.uniform(.1, .5), 3)}
                # otherwise left to the defaults
            else:
                a['stick_coef'] = 1. if charge > 0 else _r(rng.choice([0., .001, .05, .3, 1.]))
                if rng.random() < .3 and ret:   # part of it comes back as another species
                    alt = [s for s in names if s not in ('e', 'M', nm) and SPECIES[s][3] == 0]
                    if alt:
                        f = _r(rng.uniform(.2, .8), 2)
                        ret = {k: _r(v * f, 4) for k, v in ret.items()}
                        k = rng.choice(alt)
                        ret[k] = _r(ret.get(k, 0) + 1 - f, 4)
                a['ret_coefs'] = ret
            if rng.random() < .3:
                a['hpem_name'] = nm.upper()
            if rng.random() < .2:
                a['qdb_id'] = rng.randint(1, 900)
            if rng.random() < .15:
                a['comments'] = rng.choice(['measured & checked', 'a < b', 'made "up"', 'see ref. 3'])
        species.append([i, a])
    reactions = []
    rids = rng.sample(range(1, 3 * len(chosen) + 3), len(chosen))
    for i, rid in zip(chosen, rids):
        lhs, rhs = RX[i]
        nb = len(lhs)
        a = {}
        u = {}
        if nb == 1:
            a['arrh_a'], u['arrh_a'] = q(10 ** rng.uniform(4, 8)), 's-1'
        elif nb == 2:
            cm = rng.random() < .6
            a['arrh_a'], u['arrh_a'] = q(10 ** rng.uniform(-10, -7) * (1 if cm else 1e-6)), 'cm3.s-1' if cm else 'm3.s-1'
        else:
            cm = rng.random() < .6
            a['arrh_a'], u['arrh_a'] = q(10 ** rng.uniform(-32, -28) * (1 if cm else 1e-12)), 'cm6.s-1' if cm else 'm6.s-1'
        if rng.random() < .8:
            a['arrh_b'] = q(rng.uniform(-1, 1), 3)
        if rng.random() < .8:
            el = 'e' in lhs
            a['arrh_c'], u['arrh_c'] = (q(rng.uniform(0, 20)), 'eV') if el else (q(rng.uniform(0, 800)), 'K')
        if 'e' in lhs and tuple(sorted(lhs)) == tuple(sorted(rhs)):
            a['elastic'] = True
        elif 'e' in lhs:
            a['el_en_loss'] = q(rng.uniform(0, 20))
        if rng.random() < .3:
            a['gas_heat_contrib'] = q(rng.uniform(0, 2))
        if rng.random() < .2:
            a['comments'] = rng.choice(['estimated', 'x > y', 'ref [12] & others'])
        if rng.random() < .15:
            a['doi'] = '10.1088/0963-0252/%d' % rng.randint(1, 99)
        if rng.random() < .1:
            a['qdb_r_id'] = rng.randint(1, 10 ** 5)
        reactions.append([rid, list(lhs), list(rhs), a, u])
    return {'feeds': feeds, 'species': species, 'reactions': reactions,
            'order': rng.random() < .5}


def neutral(spec):
    """The part of a chemistry without charged species, or None."""
    charged = {a['name'] for _, a in spec['species'] if a['charge'] or a['name'] == 'e'}
    rx = [r for r in spec['reactions'] if not charged & set(r[1] + r[2])]
    used = {s for r in rx for s in r[1] + r[2]}
    if not used - {'M'}:
        return None
    sp = []
    for i, a in spec['species']:
        if a['name'] in used:
            a = dict(a)
            if a.get('ret_coefs'):
                a['ret_coefs'] = {k: v for k, v in a['ret_coefs'].items() if k in used}
            sp.append([i, a])
    return dict(spec, neutral=True, species=sp, reactions=rx, feeds=[f for f in spec['feeds'] if f in used],
                protected=[x for x in spec.get('protected', ()) if x in used])


def maybe_neutral(rng, spec, p):
    return (neutral(spec) if rng.random() < p else None) or spec


def build(spec, xml_path=None):
    from plaschem.species import RP
    from plaschem.reactions import Reaction
    from plaschem.chemistry import Chemistry
    if spec.get('neutral'):
        from pygmo_fwork.pygmol.neutral_model import NeutralChemistry as Chemistry
    rps = {}
    for i, a in spec['species']:
        rps[a['name']] = RP(i, attributes=dict(a))
    rx = [Reaction(rid, [rps[s] for s in lhs], [rps[s] for s in rhs], attributes=dict(a), units=dict(u))
          for rid, lhs, rhs, a, u in spec['reactions']]
    c = Chemistry(species=list(rps.values()), reactions=rx, xml_path=xml_path)
    for p in spec.get('protected', ()):
        c.set_protected_species(p)
    return c


def params(rng, spec, alt=True):
    n = rng.randint(2, 5)
    q = _r if rng.random() < .7 else lambda x, nd=0: x     # numbers with all their digits
    t_end = rng.choice([1e-3, 1e-2, 0.1, 1])
    t = sorted([0.] + [q(t_end * rng.uniform(0.01, 1)) for _ in range(n - 2)]) + [t_end * 1.2]
    feeds = {}
    for f in spec['feeds']:
        if rng.random() < .85:
            feeds[f] = rng.choice([1., 10, 50, 100., 12.5, .004, q(rng.uniform(.1, 30))])
    p = {'radius': q(rng.uniform(.01, .2), 3), 'length': q(rng.uniform(.02, .3), 3), 'pressure': rng.choice([10, 100., 1000., 1e5, q(rng.uniform(5, 500))]),
         'power': [rng.choice([50., 100, 0, 500., 1000., q(rng.uniform(10, 900))]) for _ in range(n)], 't_power': t,
         'temp_gas': rng.choice([300., 400, 600., q(rng.uniform(300, 900))]), 'feeds': feeds, 't_end': t_end}
    if alt and rng.random() < .4:
        for k, alts in (('radius', ('r', 'R')), ('length', ('z', 'Z')), ('pressure', ('p',)), ('power', ('P',)),
                        ('t_power', ('t_P', 'time_P')), ('temp_gas', ('Tg', 'gas_temp'))):
            if rng.random() < .4:
                p[rng.choice(alts)] = p.pop(k)
    return p


def formula(name):
    from plaschem.species import RP
    st, state, mass, charge = SPECIES[name]
    a = {'name': name, 'mass': mass, 'charge': charge}
    if st:
        a['stateless'], a['state'] = st, state
    return RP(1, attributes=a).get_atoms()


def param_view(p):
    """What a model keeps of the parameters, under nominal keys (an independent restatement of the key table)."""
    m = {'radius': ('r', 'R'), 'length': ('z', 'Z'), 'pressure': ('p',), 'power': ('P',),
         't_power': ('t_P', 'time_P', 'time_power'), 'temp_gas': ('Tg', 'T_g', 'gas_temp'), 'feeds': ('feed_flows',),
         't_end': ('time_end', 'end_time')}
    out = {}
    for k, alts in m.items():
        for a in (k,) + alts:
            if a in p:
                v = p[a]
                out[k] = [float(x) for x in v] if k in ('power', 't_power') else \
                    {s: float(x) for s, x in v.items()} if k == 'feeds' else float(v)
    return out


# ---------------------------------------------------------------------------------------------- state snapshots
def _num(x):
    if x is None:
        return None
    if isinstance(x, dict):
        return {str(k): float(v) for k, v in x.items()}
    return None if x != x else float(x)      # pandas takes one for the other


def snapshot(c):
    """Everything observable about the state of a chemistry, as plain values."""
    dis_sp = sorted(int(i) for i in c.get_disabled_species().index)
    dis_r = sorted(int(i) for i in c.get_disabled_reactions().index)
    s = {
        'species': [(int(i), n) for i, n in c.get_species_name(disabled=True, special=True).items()],
        'enabled_sp': [int(i) for i in c.get_species_id(special=True)],
        'disabled_sp': dis_sp,
        'enabled_r': [int(i) for i in c.get_reactions_id()],
        'disabled_r': dis_r,
        'protected': sorted(int(i) for i in c.get_protected_species().index),
        'stick': {int(i): _num(v) for i, v in c.get_species_stick_coef(disabled=True).items()},
        'ret': {int(i): _num(v) for i, v in c.get_species_ret_coefs().items()},
        'arrh_a': {int(i): _num(v) for i, v in c.get_reactions_arrh_a(disabled=True).items()},
        'adhoc_sp': {k: {int(i): _num(v) for i, v in ser.items()} for k, ser in c.adhoc_species_attributes.items()},
        'adhoc_r': {k: {int(i): _num(v) for i, v in ser.items()} for k, ser in c.adhoc_reactions_attributes.items()},
        'kin': {int(i): (_num(b), _num(cc)) for i, b, cc in zip(
            c.get_reactions_id(), c.get_reactions_arrh_b(), c.get_reactions_arrh_c())},
        'nums': (int(c.num_species()), int(c.num_reactions())),
    }
    return s


def snap_diff(a, b):
    return [k for k in a if a[k] != b.get(k)]


# ---------------------------------------------------------------------------------------------- reference model
class RefChem:
    """A small executable model of disabling: the largest consistent part of the network that lacks what was asked
    for, or a refusal."""

    def __init__(self, spec):
        self.names = {a['name']: i for i, a in spec['species']}
        self.byid = {i: a['name'] for i, a in spec['species']}
        self.charge = {i: (a['charge'] if a['name'] not in ('M',) else 0) for i, a in spec['species']}
        self.rx = {rid: ({self.names[s] for s in lhs} | {self.names[s] for s in rhs})
                   for rid, lhs, rhs, _, _ in spec['reactions']}
        self.ion = {i for i, a in spec['species'] if a['charge'] > 0}
        self.sp = set(self.byid)
        self.r = set(self.rx)
        self.neutral = spec.get('neutral')
        self.explicit = {self.names[p] for p in spec.get('protected', ())}
        if not self.neutral:
            self.explicit.add(self.names['e'])
        if len(self.ion) == 1:
            self.explicit |= self.ion
        self.adhoc = set()

    def clone(self):
        c = object.__new__(RefChem)
        c.__dict__.update(self.__dict__)
        c.sp, c.r, c.explicit, c.adhoc = set(self.sp), set(self.r), set(self.explicit), set(self.adhoc)
        return c

    def protected(self):
        return self.explicit | self.adhoc

    def try_disable(self, species, reactions):
        """The new state, or None if the request has to be refused."""
        sp = self.sp - set(species)
        r = self.r - set(reactions)
        while True:
            r2 = {x for x in r if self.rx[x] <= sp}
            used = set()
            for x in r2:
                used |= self.rx[x]
            # species not taking part in any reaction leave; nothing left that was there before stays by itself
            sp2 = sp & used if (set(species) & self.sp or set(reactions) & self.r) else sp
            if r2 == r and sp2 == sp:
                break
            r, sp = r2, sp2
        removed = self.sp - sp
        if removed & self.protected():
            return None
        if not sp & self.ion and not self.neutral:
            return None
        n = self.clone()
        n.sp, n.r = sp, r
        left = sp & self.ion
        if len(left) == 1 and (removed or r != self.r):
            n.adhoc = n.adhoc | left
        return n

    def reset(self):
        self.sp, self.r, self.adhoc = set(self.byid), set(self.rx), set()


def hub(spec):
    """(species, those going along with it) for the unprotected species that takes most others along."""
    ref = RefChem(spec)
    keep = {ref.names[f] for f in spec['feeds']} | {i for n, i in ref.names.items() if n in ('e', 'M')}
    best = None, []
    for i in sorted(ref.sp - keep - ref.protected()):
        n = ref.try_disable([i], [])
        gone = ref.sp - n.sp if n else set()
        if n and not gone & keep and len(gone) - 1 > len(best[1]):
            best = ref.byid[i], sorted(ref.byid[j] for j in gone - {i})
    return best


def build_state(spec, snap):
    """A new chemistry put into the state of a snapshot on the shortest way (no history)."""
    c = build(spec)
    for k, d in snap['adhoc_sp'].items():
        for i, v in d.items():
            c.set_adhoc_species_attributes(k, i, v)
    for k, d in snap['adhoc_r'].items():
        for i, v in d.items():
            c.set_adhoc_reactions_attributes(k, i, v)
    if snap['disabled_sp'] or snap['disabled_r']:
        c.disable(species=tuple(snap['disabled_sp']), reactions=tuple(snap['disabled_r']))
    return c
