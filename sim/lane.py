"""One lane: a real process that loads the code under test once and forks a driver per case.
usage: lane.py <json>  (json: property, seed, lane, tier, seconds, max_cases, base, replay)"""
import json
import os
import sys
import warnings

sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
warnings.simplefilter('ignore')


def fresh_sources(root):
    """Compile the code under test from its sources, whatever byte code lies around."""
    from importlib.machinery import FileFinder, SourceFileLoader

    class Loader(SourceFileLoader):
        def get_code(self, fullname):
            path = self.get_filename(fullname)
            return self.source_to_code(self.get_data(path), path)

    hook = FileFinder.path_hook((Loader, ['.py']))

    def only_root(path):
        if path != root and not path.startswith(root + '/'):
            raise ImportError
        return hook(path)
    sys.path_hooks.insert(0, only_root)
    sys.path_importer_cache.clear()


def cache_formulas():
    """pyvalem parses every species formula anew, which takes most of the time of building a chemistry."""
    import copy
    import pyvalem.formula as pf
    real, seen = pf.Formula.__init__, {}

    def init(self, formula, *a, **kw):
        key = (formula, a, tuple(kw.items()))
        if key not in seen:
            real(self, formula, *a, **kw)
            seen[key] = copy.deepcopy(self.__dict__)
        else:
            self.__dict__.update(copy.deepcopy(seen[key]))
    pf.Formula.__init__ = init


def warm_up():
    """Lazy imports and caches of the libraries, before the first fork."""
    import io
    import random
    import pandas as pd
    from sim import gen
    spec = gen.chem_spec(random.Random(1), 5, 6, ['Ar'])
    gen.snapshot(gen.build(spec))
    for nm in gen.SPECIES:
        if nm not in ('e', 'M'):
            gen.formula(nm)
    b = io.StringIO()
    pd.DataFrame({'a': [1., 2.]}).to_csv(b)
    b.seek(0)
    pd.read_csv(b, index_col=0)


def main():
    args = json.loads(sys.argv[1])
    base = args['base']
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)

    def emit(o):
        out.write(json.dumps(o, default=repr) + '\n')
        out.flush()

    from sim import proc, simpool
    proc.install()
    simpool.install()
    import importlib
    fresh_sources(os.environ['PLASCHEM_REPO'])
    cache_formulas()
    prop = importlib.import_module('sim.props.' + args['property'].lower())
    from sim import solver, harness
    import pkgutil
    for pkg in ('plaschem', 'pygmo_fwork'):
        m = importlib.import_module(pkg)
        for info in pkgutil.walk_packages(m.__path__, pkg + '.'):
            if 'documentation' not in info.name and not info.ispkg:
                importlib.import_module(info.name)
    import concurrent.futures, csv, io, multiprocessing.pool, queue, shutil, threading, uuid, yaml   # noqa
    solver.install()
    warm_up()
    if hasattr(prop, 'warm') and not args.get('helper'):
        prop.warm(base)
    if args.get('helper'):
        for line in sys.stdin:
            q = json.loads(line)
            emit(harness.observe(prop, q['case'], base, q['id']))
        return
    if args.get('replay'):
        case = args['case']
        res = harness.execute(prop, case, base)
        emit({'replayed': {k: res[k] for k in ('status', 'sig', 'msg', 'trace')}, 'hash': harness.trace_hash(res)})
        return
    harness.lane(prop, args, base, emit)


main()
