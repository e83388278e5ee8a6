"""C11: the reduction history on disk is a truthful record at every moment."""
from .. import morris as mo, reduction as rd
from ..check_reduction import check, shrinks  # noqa
from .c10 import SOLVES, INTS, in_run

ID = 'C11'
CONCURRENT = True
CRASH = {'write': {'crash': 3, 'torn': 4}, 'openw': {'crash': 3}, 'mkdir': {'crash': 2}, 'rename': {'crash': 3},
         'remove': {'crash': 2}, 'openr': {'crash': 1}, 'solve': {'crash': 2}}
DISK = {'write': {'err': 2, 'short': 3, 'sticky': 2}, 'openw': {'err': 3, 'sticky': 2}, 'mkdir': {'err': 2},
        'rename': {'err': 3}, 'remove': {'err': 1}, 'openr': {'err': 1}}


def variants(tier):
    return 5


def make_case(rng, tier):
    c = rd.case_of(rng, 3, 8)
    i, phases = 0, []
    for _ in range(rng.choice([1, 1, 2])):
        procs = []
        for _ in range(rng.choice([1, 1, 2])):
            ses = []
            for _ in range(rng.choice([1, 1, 2])):
                s = rd.session(rng, c, i)
                s['id'] = rng.choice(['rr', 'rr', 'r2'])
                if s['id'] == 'r2' and rng.random() < .5:
                    s['used'] = rng.choice(['hidden', 'subdir', 'subdir', 'file', 'odd', 'meta'])
                ses.append(s)
                i += 1
            procs.append(ses)
        phases.append(procs)
    c.update(ops=phases, share=rng.random() < .7, nontrivial=True, reader=rng.random() < .4)
    return c


def variant(rng, case, dry):
    return mo.variants_with(rng, case, dry, [None, mo.Table(CRASH), mo.Table(CRASH), mo.Table(DISK, in_run),
                                             mo.Table(DISK, in_run), mo.Table(SOLVES), mo.Table(INTS, in_run)])


def run(env, case):
    check(env, case, chem=False, disk=True)
