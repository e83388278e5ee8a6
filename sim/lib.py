"""Shared parts of the property modules: guarded calls, captures of results, reading back, comparing."""
import hashlib
import os

import numpy as np

from . import proc as pm
from .proc import Violation, Unsupported, quiet


def attempt(fn, *a, **kw):
    """('ok', value) or ('exc', exception) of code under test, interrupts and memory errors included."""
    try:
        return 'ok', fn(*a, **kw)
    except (Violation, Unsupported, SystemExit, GeneratorExit):
        raise
    except BaseException as e:
        e.__traceback__ = None
        e.__context__ = e.__cause__ = None
        return 'exc', e


def ename(e):
    return '%s(%s)' % (type(e).__name__, str(e)[:160])


def require(cond, sig, msg='', data=None):
    if not cond:
        raise Violation(sig, msg() if callable(msg) else msg, data)


def tree(path, skip=()):
    """relative path -> content hash (directories: 'dir') of everything below path; names in `skip` are left out at the
    top level."""
    out = {}
    with quiet():
        for base, dirs, files in os.walk(path):
            rel = os.path.relpath(base, path)
            if rel == '.':
                dirs[:] = [d for d in dirs if d not in skip]
                files = [f for f in files if f not in skip]
            dirs.sort()
            for d in dirs:
                out[os.path.normpath(os.path.join(rel, d))] = 'dir'
            for f in sorted(files):
                with pm._real['open'](os.path.join(base, f), 'rb') as s:
                    out[os.path.normpath(os.path.join(rel, f))] = hashlib.md5(s.read()).hexdigest()
    return out


def tree_diff(a, b):
    return ['%s %s' % ('-' if k not in b else '+' if k not in a else '~', k)
            for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


def visible(path):
    with quiet():
        try:
            return sorted(n for n in pm._real['listdir'](path) if not n.startswith('.'))
        except FileNotFoundError:
            return []


# ---------------------------------------------------------------------------------------------- frames
def frame(df):
    """A frame as plain values: (columns, array)."""
    return [c if isinstance(c, str) else int(c) for c in df.columns], np.array(df.values, dtype=float)


def same_frame(a, b, rtol=0.):
    """None or what differs."""
    if [str(c) for c in a[0]] != [str(c) for c in b[0]]:
        return 'columns %s / %s' % (a[0], b[0])
    if a[1].shape != b[1].shape:
        return 'shape %s / %s' % (a[1].shape, b[1].shape)
    if not np.allclose(a[1], b[1], rtol=rtol, atol=0, equal_nan=True):
        bad = [str(a[0][j]) for j in range(a[1].shape[1])
               if not np.allclose(a[1][:, j], b[1][:, j], rtol=rtol, atol=0, equal_nan=True)]
        return 'values of %s' % bad[:5]
    return None


def subset_frame(small, full, rtol=0.):
    """None or why `small` is not made of rows of `full`, in order, first and last included."""
    if [str(c) for c in small[0]] != [str(c) for c in full[0]]:
        return 'columns %s / %s' % (small[0], full[0])
    j = 0
    if len(small[1]) == 0:
        return 'no rows'
    for i, row in enumerate(small[1]):
        while j < len(full[1]) and not np.allclose(row, full[1][j], rtol=rtol, atol=0, equal_nan=True):
            if i == 0:
                return 'first row is not kept'
            j += 1
        if j == len(full[1]):
            return 'row %d is not a row of the full one' % i
        j += 1
    if j != len(full[1]):
        return 'last row is not kept'
    return None


def plain(x):
    """Nested plain values with numbers as floats, for comparisons."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return [plain(v) for v in x.tolist()]
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    try:
        return float(x)
    except (TypeError, ValueError):
        return repr(x)


def close(a, b, rtol=0.):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k], rtol) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= rtol * max(abs(a), abs(b)) or (a != a and b != b)
    return a == b


# ---------------------------------------------------------------------------------------------- runs
def mem_results(model):
    """What a successfully run model says about its results."""
    return {'sol': frame(model.get_solution()), 'rates': frame(model.get_rates()),
            'wf': frame(model.get_wall_fluxes())}


def read_results(parser, run_id, **where):
    return {'sol': frame(parser.fetch_solution(run_id, **where)), 'rates': frame(parser.fetch_rates(run_id, **where)),
            'wf': frame(parser.fetch_wall_fluxes(run_id, **where)),
            'params': plain(parser.fetch_model_params(run_id, **where)),
            'init': plain(parser.fetch_initial_params(run_id, **where))}


def param_norm(p):
    from . import gen
    return plain(gen.param_view(p))


def compare_read(got, want, compressed):
    """None or (part, what) that differs between results read back and the expected ones."""
    for k in ('sol', 'rates', 'wf'):
        d = subset_frame(got[k], want[k]) if compressed else same_frame(got[k], want[k])
        if d:
            return k, d
    if not close(got['params'], want['params']):
        return 'params', '%s / %s' % (got['params'], want['params'])
    if not close(got['init'], want['init']):
        return 'init', '%s / %s' % (got['init'], want['init'])
    return None


def same_mem(a, b, rtol=0.):
    for k in ('sol', 'rates', 'wf'):
        d = same_frame(a[k], b[k], rtol)
        if d:
            return k, d
    return None


# ---------------------------------------------------------------------------------------------- chemistry operations
def chem_op(rng, spec):
    """A random change of the state of a chemistry, as JSON."""
    sp = [a['name'] for i, a in spec['species'] if a['name'] not in ('e', 'M')]
    ids = {a['name']: i for i, a in spec['species']}
    k = rng.choice(['dis_sp', 'dis_sp', 'dis_r', 'dis_r', 'stick', 'ret', 'arrh', 'arrh', 'reset', 'reset_ah',
                    'protect'])
    if k == 'dis_sp':
        n = rng.choice([1, 1, 1, 2])
        return {'k': k, 'a': [(s if rng.random() < .5 else ids[s]) for s in rng.sample(sp, min(n, len(sp)))]}
    if k == 'dis_r':
        n = min(len(spec['reactions']), rng.choice([1, 1, 2, 3]))
        return {'k': k, 'a': [r[0] for r in rng.sample(spec['reactions'], n)]}
    if k == 'stick':
        return {'k': k, 'a': [rng.choice(sp), rng.choice([0., .1, .5, 1., round(rng.random(), 4)])]}
    if k == 'ret':
        s = rng.choice(sp)
        tgt = rng.sample(sp, min(len(sp), rng.choice([1, 1, 2])))
        return {'k': k, 'a': [s, {t: round(rng.uniform(.1, 1), 3) for t in tgt}]}
    if k == 'arrh':
        r = rng.choice(spec['reactions'])
        return {'k': k, 'a': [r[0], r[3]['arrh_a'] * rng.choice([.5, 2., 10., .1, 0.])]}
    if k == 'reset_ah':
        return {'k': k, 'a': [rng.choice(['stick_coef', 'ret_coefs', 'arrh_a', 'all'])]}
    if k == 'protect':
        return {'k': k, 'a': [rng.choice(sp)]}
    return {'k': 'reset', 'a': []}


def apply_chem_op(c, op):
    """Returns ('ok', None) or ('exc', e)."""
    k, a = op['k'], op['a']
    if k == 'dis_sp':
        return attempt(c.disable, species=tuple(a))
    if k == 'dis_r':
        return attempt(c.disable, reactions=tuple(a))
    if k == 'dis_both':
        return attempt(c.disable, species=tuple(a[0]), reactions=tuple(a[1]))
    if k == 'stick':
        return attempt(c.set_adhoc_species_attributes, 'stick_coef', a[0], a[1])
    if k == 'ret':
        return attempt(c.set_adhoc_species_attributes, 'ret_coefs', a[0], dict(a[1]))
    if k == 'arrh':
        return attempt(c.set_adhoc_reactions_attributes, 'arrh_a', a[0], a[1])
    if k == 'reset':
        return attempt(c.reset)
    if k == 'protect':
        return attempt(c.set_protected_species, a[0])
    if k == 'reset_ah':
        def f():
            if a[0] in ('stick_coef', 'ret_coefs', 'all'):
                c.reset_adhoc_species_attributes(a[0])
            if a[0] in ('arrh_a', 'all'):
                c.reset_adhoc_reactions_attributes(a[0])
        return attempt(f)
    raise ValueError(k)


def init_n_for(rng, model_chem, mode):
    """Initial densities for the enabled species (plain floats)."""
    names = list(model_chem.get_species_name())
    charges = list(model_chem.get_species_charge())
    out = {}
    for n, q in zip(names, charges):
        out[n] = float('%.4g' % (10 ** rng.uniform(14, 20))) * (1 if q >= 0 else 1e-6)
    if mode == 'bad_missing' and len(out) > 1:
        out.pop(rng.choice(sorted(out)))
    elif mode == 'bad_extra':
        out['Xx'] = 1e15
    elif mode == 'bad_charge':
        for n, q in zip(names, charges):
            if q > 0:
                out[n] = 0.
    elif not mode and len(out) > 1 and rng.random() < .2:      # a species that is not there to begin with
        pos = [n for n, q in zip(names, charges) if q > 0]
        z = rng.choice(names)
        if pos != [z]:
            out[z] = 0.
    return out


# ---------------------------------------------------------------------------------------------- faults inside computations
class LeafFault:
    """Raises `exc` at the n-th entry into a function defined in one of the given source files (n=None: only counts).
    A deterministic stand-in for an interrupt or a failing allocation arriving inside a computation."""

    def __init__(self, P, files, n=None, exc=KeyboardInterrupt):
        import os as _os
        root = _os.environ.get('PLASCHEM_REPO', '/repo')
        self.files = tuple(_os.path.join(root, f) for f in files)
        self.P, self.n, self.exc = P, n, exc
        self.count, self.fired = 0, False
        self.ok = {}

    def _prof(self, frame, event, arg):
        if event != 'call':
            return
        c = frame.f_code
        hit = self.ok.get(c)
        if hit is None:
            hit = self.ok[c] = c.co_filename in self.files and not c.co_name.startswith('<')
        if hit:
            self.count += 1
            if self.n is not None and self.count > self.n and not self.fired:
                self.fired = True
                import sys as _sys
                _sys.setprofile(None)
                raise self.exc('injected inside a computation')

    def __enter__(self):
        import sys as _sys
        _sys.setprofile(self._prof)
        return self

    def __exit__(self, *a):
        import sys as _sys
        _sys.setprofile(None)
        if self.fired:
            self.P.emit('fault', 'inside-computation-%s' % self.exc.__name__)


GETTERS = ('get_solution', 'get_solution_final', 'get_rates', 'get_rates_final', 'get_wall_fluxes',
           'get_wall_fluxes_final')


class Direct:
    """A backend model used without the wrapper around it, as one has to with neutral chemistries."""

    def __init__(self, chemistry, model_parameters):
        from pygmo_fwork.pygmol.model import Model
        from pygmo_fwork.pygmol.neutral_model import NeutralModel, NeutralChemistry
        cls = NeutralModel if isinstance(chemistry, NeutralChemistry) else Model
        self.model = cls(chemistry, model_parameters)

    def reload_model_parameters(self, model_parameters):
        self.__init__(self.model.chemistry, model_parameters)

    def run(self, init_el_temp, init_n, log_results=False, verbose=False):
        self.model.run(init_el_temp=init_el_temp, init_n=init_n)

    def __getattr__(self, name):
        if name.startswith('get_'):
            return getattr(self.model, name)
        raise AttributeError(name)


def model_class(spec):
    from pygmo_fwork.global_model import GlobalModel
    return Direct if spec.get('direct') or spec.get('neutral') else GlobalModel


def fresh_run(P, spec, snap, params, te, init):
    """Outcome, results and problem of a run of a new model of a new chemistry in the same state."""
    from . import gen
    with quiet_keep_solver(P):
        try:
            chem = gen.build_state(spec, snap)
        except Exception as e:
            return 'nostate', e, None
        bad = [k for k in gen.snap_diff(gen.snapshot(chem), snap) if k not in ('protected',)]
        if bad:
            return 'nostate', bad, None
        r = attempt(model_class(spec), chem, params)
        if r[0] == 'exc':
            return 'exc', r[1], None
        m = r[1]
        ns = len(P.solves)
        r = attempt(m.run, init_el_temp=te, init_n=init, log_results=False, verbose=False)
        if r[0] == 'exc':
            return 'exc', r[1], None
        return 'ok', mem_results(m), P.solves[ns]


class quiet_keep_solver:
    """No scheduling points, no faults; the solver stub still answers and records."""

    def __init__(self, P):
        self.P = P

    def __enter__(self):
        self.save, self.P.inside = self.P.inside, True

    def __exit__(self, *a):
        self.P.inside = self.save
