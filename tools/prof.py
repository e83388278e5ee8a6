"""Profile cases of a property inside one simulated process: tools/prof.py C01 [n]  (development aid)"""
import cProfile, json, os, pstats, random, shutil, sys, time, warnings
warnings.simplefilter('ignore')
sys.path[:0] = ['/verif', os.environ.get('PLASCHEM_REPO', '/repo')]
base = '/dev/shm/vpprof/00'
shutil.rmtree(base, ignore_errors=True)
os.makedirs(base + '/home')
open(base + '/home/.pygmofwork', 'w').write('workspace: %s/c/ws\n' % base)
os.environ['HOME'] = base + '/home'
from sim import proc, simpool
proc.install(); simpool.install()
import importlib
sys.argv0 = sys.argv
import types
lane_src = open('/verif/sim/lane.py').read().replace('\nmain()', '')
L = types.ModuleType('lane'); L.__file__ = '/verif/sim/lane.py'; exec(lane_src, L.__dict__); L.cache_formulas()
prop = importlib.import_module('sim.props.' + sys.argv[1].lower())
import pkgutil
for pkg in ('plaschem', 'pygmo_fwork'):
    m = importlib.import_module(pkg)
    for info in pkgutil.walk_packages(m.__path__, pkg + '.'):
        if 'documentation' not in info.name and not info.ispkg:
            importlib.import_module(info.name)
from sim import solver, harness
solver.install()
L.warm_up()
orig = proc.run_body
def run_body(sock, cfg, fn):
    def f(P):
        pr = cProfile.Profile()
        try:
            return pr.runcall(fn, P)
        finally:
            with proc.quiet():
                pr.dump_stats('%s/p%d' % (base, proc._real['getpid']()))
    orig(sock, cfg, f)
if '--noprof' not in sys.argv:
    proc.run_body = run_body
n = int(sys.argv[2]) if len(sys.argv) > 2 else 5
t0 = time.time()
for i in range(n):
    case = prop.make_case(random.Random(i), 'quick'); case['seed'] = str(i)
    t = time.time(); r = harness.execute(prop, case, base)
    print(i, r['status'], r['sig'], r['msg'][-300:], '%.2fs' % (time.time() - t), r['tags'], sum(s['steps'] for s in r['stats']))
print('total', time.time() - t0)
fs = [base + '/' + f for f in os.listdir(base) if f.startswith('p')]
if fs:
    st = pstats.Stats(*fs); st.sort_stats('cumtime').print_stats(45)
shutil.rmtree('/dev/shm/vpprof')
