"""C15: workspace directories appear correctly under concurrent first use."""
import os
import random
import yaml

from .. import gen, lib
from ..lib import attempt, require, ename
from ..proc import quiet, _real

ID = 'C15'
CONCURRENT = True
FAULTS = {'mkdir': {'err': 3, 'crash': 2, 'int': 1}, 'openr': {'err': 1, 'crash': 1}, 'listdir': {'err': 1, 'crash': 1},
          'openw': {'err': 1, 'crash': 1}, 'write': {'err': 1, 'crash': 1}, 'rename': {'err': 1, 'crash': 1}}
KIND_WEIGHT = {'mkdir': 5}
PLACES = {'pygmol': 'results/pygmol', 'pygkin': 'results/pygkin', 'PyGMol': 'results/pygmol',
          'morris': 'results/morris_sensitivity', 'reduction': 'results/reduction', 'stage': 'globalkin_stage',
          'parser': 'results/pygmol', 'run': 'results/pygmol', 'missing': 'results/pygmol'}
DIRS = ['results', 'results/pygmol', 'results/pygkin', 'results/morris_sensitivity', 'results/reduction',
        'globalkin_stage']

WORKSPACES = [' ws ', 'ws a', 'new/and/deeper', '~', '$HOME', 'a#b: c', 'pl\u00e1sma', 'WS', 'ws.d', '%(x)s', 'ws/..ws',
              '{0}', 'results', 'results/results', '0', 'null', "it's"]


def FAULT_OK(pt):
    return pt[0].startswith('p')


def variants(tier):
    return 12


def make_case(rng, tier):
    nproc = rng.choice([1, 2, 2, 3, 3, 4])
    ops = []
    for i in range(rng.randint(nproc, nproc * 3)):
        ops.append({'i': i, 'p': i % nproc, 'k': rng.choice(
            ['pygmol', 'pygkin', 'PyGMol', 'morris', 'morris', 'reduction', 'reduction', 'stage', 'parser', 'run',
             'missing', 'bad', 'pygmol'])})
    if rng.random() < .4:        # all the same
        k = rng.choice(['pygmol', 'morris', 'reduction', 'stage', 'run'])
        for o in ops:
            if rng.random() < .8:
                o['k'] = k
    pre = []
    if rng.random() < .5:
        pre = [d for d in DIRS if rng.random() < .35]
    return {'chem': gen.chem_spec(rng, 2, 4), 'pseed': rng.getrandbits(30), 'nows': rng.random() < .5, 'pre': pre,
            'ws': 'ws' if rng.random() < .6 else rng.choice(WORKSPACES), 'files': rng.random() < .6, 'block': rng.choice(DIRS) if rng.random() < .12 else None,
            'bin': rng.random() < .85, 'bufsize': 8192, 'listseed': rng.getrandbits(20),
            'crash_all': rng.random() < .4, 'solver': {'n': 2, 'amp': .3}, 'ops': ops}


def prepare(env, case):
    """The workspace as it was before: parts of the tree, with content."""
    ws = env.path(case['ws'])
    if case['ws'] != 'ws':
        os.makedirs(ws)
    if case['nows'] and not case['pre'] and not case['block']:
        os.rmdir(ws)
    for d in case['pre']:
        if case['block'] and (d + '/').startswith(case['block'] + '/'):
            continue
        os.makedirs(os.path.join(ws, d), exist_ok=True)
        if case['files']:
            os.makedirs(os.path.join(ws, d, 'older'), exist_ok=True)
            for n in ('older/solution.csv', 'note.txt'):
                with _real['open'](os.path.join(ws, d, n), 'w') as f:
                    f.write('kept %s\n' % d)
    if case['block']:           # a file where a directory belongs
        p = os.path.join(ws, case['block'])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p):
            with _real['open'](p, 'w') as f:
                f.write('in the way')
    with _real['open'](env.path('globalkin'), 'w') as f:
        f.write('#!')
    with _real['open'](env.path('config.yaml'), 'w') as f:
        yaml.dump({'workspace': ws, 'globalkin_bin': env.path('globalkin' if case['bin'] else 'nothing')}, f)


def default(o):
    """Whether the query goes to the workspace of the home directory's configuration."""
    return o['k'] in ('parser', 'run', 'missing') or o['k'] in ('morris', 'reduction') and o['i'] % 2


def root(case, o):
    return 'ws' if default(o) else case['ws']


def query(P, env, case, o):
    from pygmo_fwork.config import Config
    k = o['k']
    if k in ('parser', 'run', 'missing'):     # through the users of the default directories
        from pygmo_fwork.results import ResultsParser
        if k == 'parser':
            return attempt(lambda: ResultsParser().nominal_results_dir)
        if k == 'missing':
            return attempt(lambda: ResultsParser('pygmol').fetch_solution('no such run'))
        return attempt(case['_model'].run, run_id='run%d' % o['i'], init_el_temp=1. + o['i'], verbose=False)
    if default(o):
        cfg = Config()
    else:
        cfg = attempt(Config, env.path('config.yaml'))
        if cfg[0] == 'exc':
            return cfg
        cfg = cfg[1]

    def f():
        if k in ('pygmol', 'pygkin', 'PyGMol', 'bad'):
            return cfg.get_results_dir('nonsense' if k == 'bad' else k)
        if k == 'morris':
            return cfg.get_morris_results_dir()
        if k == 'reduction':
            return cfg.get_reduction_results_dir()
        return cfg.get_globalkin_stage_dir()
    return attempt(f)


def blocked(case, o):
    return case['block'] and root(case, o) == case['ws'] and (PLACES[o['k']] + '/').startswith(case['block'] + '/')


def body(P, env, case, ops):
    for o in ops:
        ws = env.path(root(case, o))
        P.op(o['i'])
        P.emit('begun', o['i'])
        r = query(P, env, case, o)
        k = o['k']
        P.emit('ended', (o['i'], r[0], ename(r[1]) if r[0] == 'exc' else ''))
        if r[0] == 'exc':
            continue
        require(k != 'bad', 'bad-backend-accepted', lambda: str(r[1]))
        require(not blocked(case, o), 'blocked-query-succeeded', lambda: '%s: %s' % (k, r[1]))
        with quiet():
            if k in ('run', 'missing'):
                require(os.path.isdir(os.path.join(ws, PLACES[k])), 'no-directory', k)
                continue
            require(os.path.realpath(str(r[1])) == os.path.realpath(os.path.join(ws, PLACES[k])), 'wrong-place',
                    lambda: '%s: %s' % (k, r[1]))
            require(os.path.isdir(r[1]), 'no-directory', lambda: '%s: %s does not exist' % (k, r[1]))


def judge(env, case, w, ops, tags):
    kinds = {}
    for key, kind, f in w.fired:
        kinds.setdefault(key.split('|')[1], []).append(f)
    for _, t, x in w.emitted('ended'):
        o = [o for o in ops if o['i'] == x[0]][0]
        if x[1] == 'ok':
            tags['got'] += 1
            continue
        if str(o['i']) in kinds:
            tags['failed_by_fault'] += 1
        elif o['k'] == 'bad':
            require('GlobalModelAttributeError' in x[2], 'wrong-refusal', x[2])
            tags['bad'] += 1
        elif blocked(case, o):
            tags['blocked'] += 1
        elif o['k'] == 'stage' and not case['bin']:
            require('ConfigError' in x[2], 'wrong-refusal', x[2])
            tags['no_binary'] += 1
        elif o['k'] == 'missing':
            require('ResultsNotFoundError' in x[2], 'wrong-refusal', x[2])
        else:
            require(False, 'query-failed', lambda: '%s: %s' % (o, x[2]))


def run(env, case):
    from pygmo_fwork.global_model import GlobalModel
    prepare(env, case)
    chem = gen.build(case['chem'])
    case = dict(case, _model=GlobalModel(chem, gen.params(random.Random(case['pseed']), case['chem'])))
    before = lib.tree(env.scratch)
    w = env.world()
    procs = sorted({o['p'] for o in case['ops']})
    outs = w.run([('p%d' % p, lambda P, p=p: body(P, env, case, [o for o in case['ops'] if o['p'] == p]))
                  for p in procs])
    for o in outs.values():
        if not o.crashed:
            o.value()
    judge(env, case, w, case['ops'], env.tags)
    check_tree(env, before, case, w)
    # what failed or was cut off does not keep the next from succeeding
    begun = {x[2] for x in w.emitted('begun')}
    done = {x[2][0] for x in w.emitted('ended') if x[2][1] == 'ok'}
    redo = [dict(o, i=o['i'] + 100) for o in case['ops'] if o['i'] not in done] or \
        [dict(case['ops'][0], i=100)]
    w2 = env.world(faults={}, sched=None)
    w2.call('again', lambda P: body(P, env, case, redo))
    judge(env, case, w2, redo, env.tags)
    check_tree(env, before, case, w2)
    env.tags['retried'] += len(redo)


def check_tree(env, before, case, w):
    after = lib.tree(env.scratch)
    for k, v in before.items():
        require(after.get(k) == v, 'existing-disturbed', lambda: '%s' % k)
    runs = {'ws/results/pygmol/run%d' % (o['i'] + d) for o in case['ops'] if o['k'] == 'run' for d in (0, 100)}
    for k in after:
        if k in before or k in {x + '/' + d for d in DIRS for x in ('ws', case['ws'])} or \
                k == 'ws' or (case['ws'] + '/').startswith(k + '/'):
            continue
        top = '/'.join(k.split('/')[:4])
        if top in runs or k.startswith('ws/results/pygmol/.'):
            continue
        require(False, 'undocumented-place', k)
