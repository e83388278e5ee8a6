"""C18: analysing results changes nothing and depends on nothing but what is analysed.

Every analysis is first done alone, with objects of its own, in a process of its own. Then processes with a history do
the same analyses in any order, again and again, with objects used before, after interrupted and failed ones, while
results are replaced by others; the answers have to be the same, and everything passed in has to stay as it was."""
import contextlib
import copy
import io
import os
import random
import re
import shutil

import numpy as np

from .. import gen, lib, morris as mo
from ..harness import pick_faults, rand_sched
from ..lib import attempt, ename, require
from ..proc import quiet, _real
from .c16 import val

ID = 'C18'
TIMEOUT = 300
CONCURRENT = True
FAULTS = {'openr': {'err': 3, 'int': 1}, 'listdir': {'err': 1, 'int': 1}, 'mkdir': {'err': 1}}
CODE = ('pygmo_fwork/results.py', 'pygmo_fwork/optichem/graph.py', 'pygmo_fwork/optichem/errors.py',
        'pygmo_fwork/optichem/morris.py', 'plaschem/chemistry.py', 'plaschem/classification.py', 'plaschem/latex.py',
        'plaschem/pretty_print.py')
WEIGHTINGS = ['DRG', 'DRG1', 'DRG2', 'DRGEP']
SEARCHES = ['shortest_path', 'max_bottleneck', 'max_product', 'max_flow']
KINDS = ['fetch', 'fetch', 'frames', 'compare', 'vol', 'surf', 'prod', 'cons', 'graph', 'graph', 'diff', 'diff', 'conv',
         'compress', 'stats', 'rank', 'traj', 'live', 'class', 'class', 'table']
MR = 'mor'


def FAULT_OK(pt):
    return pt[0].startswith('h')


def variants(tier):
    return 3


def make_case(rng, tier):
    c = mo.model_case(rng, 2, 7, types=('species', 'reactions'))
    spec = c['chem']
    sp = [a['name'] for _, a in spec['species'] if a['name'] not in ('e', 'M')]
    ids = [i for i, a in spec['species'] if a['name'] not in ('e', 'M')]
    for f in spec['feeds']:
        c['state'].append({'k': 'protect', 'a': [f]})
    for _ in range(rng.choice([0, 0, 1, 2])):       # returns from the wall which no reaction knows of
        a = rng.choice(sp)
        c['state'] += [{'k': 'stick', 'a': [a, .5]}, {'k': 'ret', 'a': [a, {b: .5 for b in rng.sample(sp, min(len(sp), 2))}]}]
    focus = rng.choice([None, None, None, 'graph', 'diff', 'stats', 'class'])
    te = float(c['params']['t_end'])
    runs = []
    for i in range(rng.choice([1, 2, 2, 3])):
        runs.append({'id': rng.choice(['a', 'a', 'b 1', 'c.2']), 'dir': rng.choice([None, 0, 1]), 'over': i,
                     'te': rng.choice([1., 2.5]), 'state': [lib.chem_op(rng, spec) for _ in range(rng.choice([0, 0, 1, 2]))],
                     'comp': rng.random() < .2, 'scale': rng.choice([1, 1, 2])})
    seen = set()
    runs = [r for r in runs if (r['id'], r['dir']) not in seen and not seen.add((r['id'], r['dir']))]
    trajs = rng.choice([0, 0, 0, 1, 2])
    pool = []
    timeses = [sorted({te * rng.choice([0., .02, .1, .3, .5, 1.]) * rng.choice([.7, 1]) for _ in range(rng.choice([1, 2, 3, 4]))})
               for _ in range(2)]
    if rng.random() < .2:       # in no order
        rng.shuffle(timeses[rng.random() < .3])
    for i in range(rng.randint(2, 7)):
        k = rng.choice([x for x in KINDS if trajs or x not in ('stats', 'rank', 'traj')] + [focus] * (6 if focus and (trajs or focus != 'stats') else 0))
        times = timeses[rng.random() < .3]
        o = {'k': k, 'run': rng.randrange(len(runs)), 'other': rng.randrange(len(runs)), 'times': times,
             'sp': rng.choice(sp + ids + ['e'] * (k in ('vol', 'prod')) + ['Zz'] * (rng.random() < .1)),
             'row': rng.choice([0, -1, 'frame']), 'ann': rng.random() < .4, 'w': rng.choice(WEIGHTINGS),
             'surface': rng.random() < .7, 'search': rng.choice(SEARCHES), 'outs': rng.sample(sp, min(len(sp), rng.choice([1, 2]))),
             'what': rng.choice(['solution', 'rates', 'wall_fluxes', 'model_params', 'initial_params']),
             'live': rng.choice(['get_solution', 'get_rates', 'get_wall_fluxes', 'get_solution_final', 'get_rates_final',
                                 'diagnose electron_temperature', 'diagnose mean_speeds', 'diagnose dy_dt',
                                 'diagnose wall_fluxes', 'diagnose volumetric_source_rates', 'diagnose el_en_losses']),
             'rel': rng.random() < .5, 'n': rng.choice([None, 1, 3]), 'eps': rng.choice([.1, .5]), 'win': rng.choice([.1, .5, 1.]),
             'thr': rng.choice([.05, .5, 0.]), 'step': rng.choice([.001, .2]), 'rms': rng.random() < .5,
             'meth': rng.choice(['max', 'mean']), 't': rng.random() < .5, 'tr': rng.randrange(max(1, trajs))}
        if pool and rng.random() < .6:        # like another, but for a few things: so they meet in what they use
            like = rng.choice(pool)
            o = dict(like, **{f: o[f] for f in rng.sample(sorted(o), rng.choice([1, 3, 8])) if f not in ('k', 'run') or rng.random() < .3})
            if rng.random() < .35:             # as many times, only one of them another one
                ts = list(like['times'])
                j = rng.choice([rng.randrange(len(ts)), len(ts) // 2])
                lo, hi = ts[j - 1] if j else 0., ts[j + 1] if j + 1 < len(ts) else te
                ts[j] = lo + (hi - lo) * rng.choice([.25, .4, .5, .8])
                o = dict(like, times=ts)
            if o['k'] == 'graph':
                o.update({f: v for f, v in (('w', rng.choice(WEIGHTINGS)), ('surface', not like['surface']),
                                            ('search', rng.choice(SEARCHES))) if rng.random() < .5})
            if o['k'] == 'class':
                o.update(rel=rng.random() < .4, t=rng.random() < .5)
            if o['k'] in ('surf',) and o['sp'] == 'e':
                o['sp'] = like['sp'] if like['sp'] != 'e' else sp[0]
        pool.append(o)
    ops = []
    for i in range(rng.randint(4, 12)):
        x = rng.random()
        o = {'i': i, 'p': rng.random() < .3, 'q': rng.randrange(len(pool))}
        if x < .12:
            o['k'] = 'int'
            o['at'] = rng.random()
            o['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
        elif x < .22:
            o['k'] = 'replace'
        else:
            o['k'] = 'do'
            o['reuse'] = rng.random() < .8
            o['again'] = rng.random() < .5      # weights of a graph distributed before are used again
            o['meddle'] = rng.random() < .3
        ops.append(o)
    two = rng.random() < .25
    for o in ops:
        o['p'] = 'h1' if o['p'] and two else 'h0'
        if two and o['k'] == 'replace':
            o['k'] = 'do'
            o.update(reuse=True, meddle=False)
    c.update(runs=runs, pool=pool, alter=rng.random() < .3, ops=ops, trajs=trajs, cpus=2, record_solves=False, nontrivial=True, listseed=rng.getrandbits(20),
             bufsize=rng.choice([512, 8192]), solver={'n': rng.choice([2, 3, 5, 12]), 'amp': rng.choice([.05, .3])})
    return c


def variant(rng, case, dry):
    v = copy.deepcopy(case)
    v['faults'] = pick_faults(rng, __import__(__name__, fromlist=['x']), dry['points']) if rng.random() < .7 else {}
    if any(o['p'] == 'h1' for o in case['ops']):
        v['sched'] = rand_sched(rng)
    return v


def shrinks(case):
    for i, o in enumerate(case['pool']):
        if len(o['times']) > 1 or len(o['outs']) > 1:
            v = copy.deepcopy(case)
            v['pool'][i]['times'], v['pool'][i]['outs'] = o['times'][:1], o['outs'][:1]
            yield v
    for i, r in enumerate(case['runs']):
        if r['state']:
            v = copy.deepcopy(case)
            v['runs'][i]['state'] = []
            yield v
    if case['trajs'] and not any(o['k'] in ('stats', 'rank') for o in case['pool']):
        v = copy.deepcopy(case)
        v['trajs'] = 0
        yield v


# ------------------------------------------------------------------------------------------------ the results there are
def rdir(env, d):
    return env.path('ws', 'results', 'pygmol') if d is None else env.path('r%d' % d)


def model_for(case, r):
    from pygmo_fwork.global_model import GlobalModel
    c = gen.build(case['chem'])
    for s in list(case['state']) + list(r['state']):
        lib.apply_chem_op(c, s)
    p = copy.deepcopy(case['params'])
    for k in ('power', 'P'):
        if k in p:
            p[k] = [x * r['scale'] for x in p[k]]
    return GlobalModel(c, p)


def log_all(P, case, env):
    """Logs all runs, in two versions each; says which of them there are."""
    made = []
    with quiet_solver(P):
        for i, r in enumerate(case['runs']):
            for ver in (0, 1):
                rr = dict(r) if ver == 0 else dict(r, scale=r['scale'] * 3, te=r['te'] * 1.5, state=r['state'][:-1])
                where = env.path('v%d' % ver, 'None' if r['dir'] is None else str(r['dir']))
                os.makedirs(where, exist_ok=True)
                a = attempt(lambda: model_for(case, rr).run(run_id=r['id'], log_to=where, init_el_temp=rr['te'], verbose=False,
                                                            compress_logs=r['comp']))
                if a[0] == 'ok':
                    made.append((i, ver))
                    if ver == 0 and case['alter']:
                        altered(os.path.join(where, r['id']), os.path.join(env.path('v1', os.path.basename(where)), r['id']))
                        made.append((i, 1))
                        break
        if case['trajs']:
            from pygmo_fwork.optichem.morris import MorrisMethod
            mm = MorrisMethod(mo.chem_of(case, {}), mo.params_of(case, {}))
            for j in range(case['trajs']):
                r = attempt(mm.run_trajectory, MR, case['type'], traj_id='t%d' % j, verbosity=0, random_seed=j + 1, **mo.kwargs(case, {}))
                if r[0] == 'ok':
                    made.append(('t', j))
            with quiet():
                shutil.copytree(trajs_dir(env), env.path('v0', 'mor'))
                altered(trajs_dir(env), env.path('v1', 'mor'))
            made += [('mor', 0), ('mor', 1)]
    P.emit('made', made)


def trajs_dir(env):
    return env.path('ws', 'results', 'morris_sensitivity', MR, 'logs')


def altered(src, dst):
    """Results of the same size, with other numbers in the tables."""
    with quiet():
        shutil.copytree(src, dst)
        for root, _, files in os.walk(dst):
            for f in files:
                if f.endswith('.csv'):
                    with _real['open'](os.path.join(root, f)) as x:
                        head, *rows = x.read().split('\n')
                    for n, row in enumerate(rows):
                        cells = row.split(',')
                        rows[n] = ','.join(cells[:2] + [re.sub(r'(?<=\.)\d+', lambda m: m[0].translate(DIGITS), v) for v in cells[2:]])
                    with _real['open'](os.path.join(root, f), 'w') as x:
                        x.write('\n'.join([head] + rows))


DIGITS = str.maketrans('12345678', '23456781')


class quiet_solver(lib.quiet_keep_solver):
    pass


def install(env, case, i, ver):
    """Puts a version of a run in its place, as another process replacing the results does."""
    if i == 'mor':
        with quiet():
            shutil.rmtree(trajs_dir(env))
            shutil.copytree(env.path('v%d' % ver, 'mor'), trajs_dir(env))
        return
    r = case['runs'][i]
    src = os.path.join(env.path('v%d' % ver, 'None' if r['dir'] is None else str(r['dir'])), r['id'])
    dst = os.path.join(rdir(env, r['dir']), r['id'])
    with quiet():
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        for f in sorted(os.listdir(src)):
            with _real['open'](os.path.join(src, f), 'rb') as s, _real['open'](os.path.join(dst, f), 'wb') as t:
                t.write(s.read())
            os.utime(os.path.join(dst, f), ns=(10 ** 18 + ver, 10 ** 18 + ver))      # results copied with their times


# ------------------------------------------------------------------------------------------------ analyses
class Objects:
    """What analyses are done with: new for each, or kept."""

    def __init__(self, env, case, vers):
        self.env, self.case, self.vers, self.kept = env, case, dict(vers), {}

    def get(self, key, make, reuse):
        if reuse and key in self.kept:
            return self.kept[key]
        x = make()
        self.kept[key] = x
        return x

    def of_run(self, kind, i, make, reuse):
        return self.get((kind, i, self.vers.get(i)), make, reuse)

    def parser(self, d, reuse):
        from pygmo_fwork.results import ResultsParser
        return self.get(('parser', d), lambda: ResultsParser() if d is None else ResultsParser(nominal_results_dir=rdir(self.env, d)),
                        reuse)

    def frame(self, i, what, reuse):
        r = self.case['runs'][i]
        return self.of_run(what, i, lambda: getattr(self.parser(r['dir'], reuse), 'fetch_' + what)(r['id']), reuse)

    def params(self, i, reuse):
        return self.frame(i, 'model_params', reuse)

    def chem(self, i, reuse):
        """The chemistry as it was in the run; if kept, one for all the runs."""
        r = self.case['runs'][i]
        c = self.get('chem', lambda: gen.build(self.case['chem']), reuse)
        from pygmo_fwork.config import Config
        path = os.path.join(rdir(self.env, r['dir']), r['id'], Config.default_log_name('chemistry_attributes', run_id=r['id']))
        if not (reuse and self.kept.get('chem of') == (i, self.vers.get(i))):
            self.kept['chem of'] = None
            c.load_chemistry_attributes(path)
            self.kept['chem of'] = (i, self.vers.get(i))
        return c

    def frames(self, i, what, times, reuse):
        from pygmo_fwork.results import ResultsParser
        df = self.frame(i, what, reuse)
        return self.of_run((what, tuple(times)), i, lambda: ResultsParser.get_results_frames(df, times), reuse)

    def row(self, i, what, o, reuse):
        def make():
            if o['row'] == 'frame':
                x = self.frames(i, what, o['times'][:1], reuse).iloc[0]
            else:
                x = self.frame(i, what, reuse).iloc[o['row']]
            return x if o['t'] else x.drop('t')
        return self.of_run(('row', what, o['row'], o['times'][0], o['t']), i, make, reuse)

    def graph(self, i, o, reuse):
        from pygmo_fwork.optichem.graph import ChemistryGraph
        ch = self.chem(i, reuse)
        return self.of_run(('graph', tuple(o['times'])), i, lambda: ChemistryGraph(
            ch, self.params(i, reuse), self.frames(i, 'rates', o['times'], reuse),
            self.frames(i, 'wall_fluxes', o['times'], reuse)), reuse)

    def live(self, i, reuse):
        r = self.case['runs'][i]

        def make():
            m = model_for(self.case, r)
            m.run(log_results=False, init_el_temp=r['te'], verbose=False)
            return m
        return self.get(('live', i), make, reuse)

    def inputs(self):
        """Everything that was or will be passed into analyses."""
        out = {}
        for k, x in self.kept.items():
            if hasattr(x, 'iloc') or isinstance(x, dict):
                out[repr(k)] = val(x)
            elif k == 'chem':
                out['chem'] = gen.snapshot(x)
            elif k[0] == 'live':
                out[repr(k)] = [gen.snapshot(x.model.chemistry), lib.plain(dict(x.model.model_params)), val(x.model.sol_secondary),
                                x.model.sol_primary.tolist()]
            elif k[0] == 'parser':
                out[repr(k)] = x.nominal_results_dir
        return out


def analyse(ob, case, o, reuse, again=False):
    """The object an analysis returns."""
    from pygmo_fwork.results import ResultsParser as RP
    from pygmo_fwork.global_model import GlobalModel
    i, k = o['run'], o['k']
    r = case['runs'][i]
    if k == 'fetch':
        return getattr(ob.parser(r['dir'], reuse), 'fetch_' + o['what'])(r['id'])
    if k == 'frames':
        return RP.get_results_frames(ob.frame(i, o['what'] if o['what'] in ('rates', 'wall_fluxes') else 'solution', reuse), o['times'])
    if k == 'compare':
        two = [case['runs'][i], case['runs'][o['other']]]
        names = [x['id'] if x['dir'] == r['dir'] else (x['id'], rdir(ob.env, x['dir'])) for x in two]
        return ob.parser(r['dir'], reuse).compare(names, relative_to_first=o['rel'], printout=False)
    if k == 'vol':
        return RP.get_volumetric_rates(o['sp'], ob.chem(i, reuse), ob.row(i, 'rates', o, reuse), annotate=o['ann'])
    if k == 'surf':
        return RP.get_surface_rates(o['sp'], ob.chem(i, reuse), ob.params(i, reuse), ob.row(i, 'wall_fluxes', o, reuse), annotate=o['ann'])
    if k in ('prod', 'cons'):
        f = RP.print_production_processes if k == 'prod' else RP.print_consumption_processes
        s = io.StringIO()
        with contextlib.redirect_stdout(s):
            f(o['sp'], ob.chem(i, reuse), ob.params(i, reuse), ob.row(i, 'rates', o, reuse), ob.row(i, 'wall_fluxes', o, reuse), n=o['n'],
              unit='cm-3/s' if o['ann'] else 'm-3/s')
        return s.getvalue()
    if k == 'graph':
        g = ob.graph(i, o, reuse)
        how = o['w'], o['surface']
        if not (again and ob.kept.get(('weights', id(g))) == how):
            ob.kept.pop(('weights', id(g)), None)
            g.distribute_weights(o['w'], surface=o['surface'])
            if again:
                ob.kept['weights', id(g)] = how
        # the weights themselves are an answer as well
        return [g.get_ranking(o['outs'], o['search']),
                [[list(e) + [y.get_edge_attributes(*e)['weight']] for e in sorted(y.get_edges())] for y in g.graphs]]
    if k == 'diff':
        from pygmo_fwork.optichem.errors import SolutionsDiff
        a, b = ob.frame(i, 'solution', reuse), ob.frame(o['other'], 'solution', reuse)
        d = ob.get(('diff', i if o['t'] else ''), lambda: SolutionsDiff(a), reuse)
        if d.sol_full is not a:
            d.reset(a)
        return (d.get_error_rms if o['rms'] else d.get_error_max)(b, o.get('oute', o['outs'] + ['Te']), o['times'])
    if k == 'conv':
        return GlobalModel.check_convergency(ob.frame(i, 'solution', reuse), ob.params(i, reuse), eps=o['eps'], timewindow=o['win'])
    if k == 'compress':
        return RP.compress_solution(ob.frame(i, 'solution', reuse), diff_threshold=o['thr'], min_timestep=o['step'])
    if k == 'live':
        m = ob.live(i, reuse)
        if o['live'].startswith('diagnose'):
            q = o['live'].split()[1]
            if q == 'dy_dt':
                q = 'dn_dt'
            return m.model.diagnose(q, totals=o['ann'])
        return getattr(m, o['live'])()
    if k == 'class':
        return classes(ob, i, o, reuse)
    if k == 'table':
        return tables(ob.chem(i, reuse), o)
    from pygmo_fwork.optichem.morris import MorrisMethod
    if k == 'traj':
        return list(MorrisMethod.evaluate_trajectory(os.path.join(trajs_dir(ob.env), 't%d' % o['tr']), o['times']))
    if k == 'stats':
        return list(MorrisMethod.get_morris_stats(MR, times=o['times']))
    return MorrisMethod.get_ranking(o['outs'], o['times'], MR, method=o['meth'])


def classes(ob, i, o, reuse):
    """Reactions by type and category, as they are printed; sorted, in an order of species, or as they are."""
    from plaschem.classification import ReactionClassifier
    ch = ob.chem(i, reuse)
    how = 'sorted' if o['rel'] else 'species' if o['t'] else 'given'
    args = ch.get_species(special=True), ch.get_reactions()
    cl = ob.get('classifier', lambda: ReactionClassifier(*args), reuse)
    now = (i, ob.vers.get(i))
    if ob.kept.get('classifier of') != now or how == 'given' or cl.reactions == []:
        ob.kept['classifier of'] = None
        cl.set_new_chemistry(*args)
    ob.kept['classifier of'] = now
    if how != 'given':
        cl.sort_species()
    if how == 'sorted':
        cl.sort_reactions()
    d = cl.get_classified_reactions()
    out = [[t, c, [[r.id, cl.get_aligned_reaction_string(r)] for r in d[t][c]]] for t in d for c in d[t]]
    if how == 'species':        # then it depends on what was done before in which order the reactions are
        out = sorted([t, c, sorted(x)] for t, c, x in out)
    return out + [[sp.id for sp in cl.species]]


def tables(ch, o):
    from plaschem.latex import ReactionsTable
    from plaschem.pretty_print import PrettyPrint
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        x = o['n']
        if x is None:
            print(ReactionsTable(ch))
        elif x == 1:
            PrettyPrint(ch).print(ch.get_stoichiomatrix(disabled=o['ann']) if o['rel'] else ch.get_return_matrix(disabled=o['ann']))
        elif o['rms']:
            ch.species_attributes(disabled=o['ann'], pretty_print=o['surface'], sort=o['rel'], units=o['t'])
        else:
            ch.reactions_attributes(disabled=o['ann'], pretty_print=o['surface'], sort=o['rel'], units=o['t'], classify=o['thr'] > .1)
    return s.getvalue()


def meddle(x):
    """The caller uses what it was given as its own."""
    if isinstance(x, (list, tuple)):
        for y in x:
            meddle(y)
    try:
        if hasattr(x, 'columns'):
            x.iloc[:, :] = 7.
            x.drop(columns=list(x.columns)[:1], inplace=True)
        elif hasattr(x, 'iloc'):
            x.iloc[:] = 7.
        elif isinstance(x, dict):
            x.clear()
    except (ValueError, TypeError):
        pass


def do(ob, case, o, reuse, again=False):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return attempt(analyse, ob, case, o, reuse, again)


def answer(r):
    return ['ok', val(r[1])] if r[0] == 'ok' else ['exc', type(r[1]).__name__]


def alone(P, case, env, vers, o):
    r = do(Objects(env, case, vers), case, o, False)
    P.emit('ref', answer(r) + ([str(r[1])[:150], missing(env, case, vers, o)] if r[0] == 'exc' else []))


def missing(env, case, vers, a):
    """Species an analysis is about which are not in the network of its run."""
    with quiet():
        c = Objects(env, case, vers).chem(a['run'], False)
    there = set(c.get_species_name(special=True)) | set(int(i) for i in c.get_species_id(special=True))
    r, f = (np.array(Objects(env, case, vers).frame(a['run'], x, False)) for x in ('rates', 'wall_fluxes'))
    if a['k'] == 'graph' and not ((r >= 0).all() and np.isfinite(f).all()):
        return ['made up results with less than no electrons']
    about = a['outs'] if a['k'] in ('graph', 'diff', 'rank') else [a['sp']]
    if a['k'] == 'diff':
        there &= set(Objects(env, case, vers).frame(a['other'], 'solution', False).columns)
    return [x for x in about if x not in there]


def history(P, case, env, ops, vers):
    ob = Objects(env, case, vers)
    for o in ops:
        P.op(o['i'])
        a = case['pool'][o['q']]
        if o['k'] == 'replace':
            i = a['run'] if a['k'] not in ('stats', 'rank', 'traj') else 'mor'
            if (i, 1 - ob.vers.get(i, 0)) in case['_made'] and i in ob.vers:
                ob.vers[i] = 1 - ob.vers[i]
                install(env, case, i, ob.vers[i])
            continue
        if usable(case, a):
            continue
        before = ob.inputs()
        a = dict(copy.deepcopy(a), oute=a['outs'] + ['Te'])
        asked = copy.deepcopy(a)
        had = set(before)
        if o['k'] == 'int':
            exc = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[o['exc']]
            with lib.LeafFault(P, CODE) as f:      # how many places there are
                do(ob, case, a, True)
            with lib.LeafFault(P, CODE, int(o['at'] * f.count), exc):
                r = do(ob, case, a, True)
            cut = True
        else:
            r = do(ob, case, a, o['reuse'], o.get('again'))
            cut = False
        after = ob.inputs()
        if o['k'] == 'do' and not o['reuse']:
            had = set()       # kept objects were replaced by new ones
        P.emit('ans', {'i': o['i'], 'q': o['q'], 'a': answer(r), 'cut': cut, 'vers': dict(ob.vers)})
        require(a == asked, 'input-changed', lambda: 'arguments %s changed to %s' % (asked, a))
        for k in sorted(had & set(after)):
            if k == 'chem' and before[k] != after[k] and (cut or r[0] == 'exc' or a['k'] in ('vol', 'surf', 'prod', 'cons', 'graph', 'class', 'table')):
                continue      # states of other runs were loaded into it; it is judged by the answers
            require(before[k] == after[k], 'input-changed', lambda: '%s changed by %s' % (k, a))
        if o.get('meddle') and r[0] == 'ok':
            meddle(r[1])
            end = ob.inputs()
            for k in sorted(end):
                require(end[k] == after.get(k), 'answer-shared', lambda: '%s changed with what %s returned' % (k, a))


def usable(case, a):
    """None, or why an analysis cannot be done."""
    need = [a['run']] + ([a['other']] if a['k'] in ('compare', 'diff') else [])
    if a['k'] == 'traj':
        return None if ('t', a['tr']) in case['_made'] else 'no trajectory'
    if a['k'] in ('stats', 'rank'):
        return None if [m for m in case['_made'] if m[0] == 't'] else 'no trajectories'
    for i in need:
        if (i, 0) not in case['_made']:
            return 'no run'
    return None


def run(env, case):
    for d in ('r0', 'r1', 'ws/results/pygmol'):
        os.makedirs(env.path(d))
    w = env.world(faults={}, sched=None)
    w.call('mk', lambda P: log_all(P, case, env))
    made = [tuple(x) for x in w.emitted('made')[-1][2]]
    case = dict(case, _made=made)
    vers = {i: 0 for i in range(len(case['runs'])) if (i, 0) in made}
    refs = {}

    def refs_for(v):
        for i, ver in v.items():
            install(env, case, i, ver)
        for q, a in enumerate(case['pool']):
            if usable(case, a):
                env.tags['not_usable'] += 1
                continue
            key = (q,) + ver_key(v, a)
            if key in refs:
                continue
            w = env.world(faults={}, sched=None)
            w.call('ref', lambda P: alone(P, case, env, v, a))
            ref = w.emitted('ref')[-1][2]
            refs[key] = ref[:2]
            env.tags['refs'] += 1
            if ref[0] == 'exc':
                env.tags['ref_%s_%s' % (a['k'], ref[1])] += 1
                require(fitting(a, ref), 'analysis-fails', lambda: '%s: %s' % (a, ref))
    if ('mor', 0) in made:
        vers['mor'] = 0
    turned = {'mor' if a['k'] in ('stats', 'rank', 'traj') else a['run'] for a in
              (case['pool'][o['q']] for o in case['ops'] if o['k'] == 'replace')}
    both = [vers]
    for i in sorted(turned, key=str):
        if (i, 1) in made and i in vers:
            both += [dict(v, **{}) | {i: 1} for v in both]
    for v in both[:8]:
        refs_for(v)
    for i, ver in vers.items():
        install(env, case, i, ver)
    before = lib.tree(env.scratch)
    w = env.world()
    procs = sorted({o['p'] for o in case['ops']})
    outs = w.run([(p, lambda P, p=p: history(P, case, env, [o for o in case['ops'] if o['p'] == p], vers)) for p in procs])
    for o in outs.values():
        if not o.crashed:
            o.value()
    hit = {(f[0].split('|')[0], f[0].split('|')[1]) for f in w.fired}
    for name, t, x in [(e[0], e[1], e[2]) for e in w.emitted('ans')]:
        a = case['pool'][x['q']]
        want = refs.get((x['q'],) + ver_key(x['vers'], a))
        if want is None:
            env.tags['no_ref'] += 1
            continue
        got = x['a']
        if x['cut'] or (name, str(x['i'])) in hit:
            env.tags['cut'] += 1
            if got[0] == 'exc':
                env.tags['cut_' + got[1]] += 1
                continue
        require(got[0] == want[0], 'fails-with-history' if got[0] == 'exc' else 'fails-alone', lambda: '%s: %s / alone %s' % (
            a, str(got)[:300], str(want)[:300]))
        require(got == want, 'answer-depends-on-history', lambda: '%s: %s / alone %s' % (a, str(got)[:400], str(want)[:400]))
        env.tags['same_' + a['k']] += 1
    for i, ver in vers.items():
        install(env, case, i, ver)
    ch = [x for x in lib.tree_diff(before, lib.tree(env.scratch))]
    ch = [x for x in ch if not (x[0] == '+' and os.path.isdir(env.path(x[2:])) and not os.listdir(env.path(x[2:])))]
    require(not ch, 'files-changed', lambda: str(ch[:5]))


def ver_key(v, a):
    if a['k'] in ('stats', 'rank', 'traj'):
        return (v.get('mor'),)
    if a['k'] == 'live':
        return ()
    return (v.get(a['run']),) + ((v.get(a['other']),) if a['k'] in ('compare', 'diff') else ())


def fitting(a, ref):
    """An analysis of results which are there may fail for these reasons only."""
    if ref[3]:
        return ref[1] != 'AttributeError'
    if 'non-negative edge weights' in ref[2]:       # weights above one have no product to be maximised
        return a['search'] == 'max_product' and a['w'] in ('DRG1', 'DRG2')
    return False
