"""C10: a reduction always leaves the chemistry in the last accepted state."""
from .. import lib, morris as mo, reduction as rd
from ..check_reduction import check, shrinks  # noqa

ID = 'C10'
SOLVES = {'solve': {'sol_fail': 3, 'sol_value': 2, 'sol_int': 3, 'sol_mem': 1, 'sol_exc': 2}}
DISK = {'write': {'err': 2, 'short': 2, 'sticky': 2}, 'openw': {'err': 2, 'sticky': 1}, 'mkdir': {'err': 2},
        'rename': {'err': 2}, 'remove': {'err': 1}, 'openr': {'err': 1}}
INTS = {'write': {'int': 2}, 'openw': {'int': 2}, 'mkdir': {'int': 1}, 'rename': {'int': 1}, 'solve': {'sol_int': 3}}


def variants(tier):
    return 4


def make_case(rng, tier):
    deep = rng.random() < .12        # many removals, so that several runs in a row are over the limit, several times
    c = rd.case_of(rng, *((9, 15) if deep else ()))
    s = rd.session(rng, c, 0)
    if deep:
        s.update(mode=rng.choice(['static', 'dynamic']), streak=2, max=rng.choice([2., 5., 10., 20., 50.]))
    c['ops'] = [[[s]]]
    if rng.random() < .3:
        s = rd.session(rng, c, 1)
        s['id'] = 'r2'
        c['ops'][0][0].append(s)
    c.update(share=rng.random() < .7, nontrivial=True)
    return c


def in_run(pt):
    """Points while a model run is logged (restoring the chemistry reads the log of an earlier run)."""
    return not (pt[1] == 'openr' and 'chemistry_attributes' in str(pt[2]))


def variant(rng, case, dry):
    v = mo.variants_with(rng, case, dry, [mo.Table(SOLVES, None, {'solve': 1})] * 3 + [mo.Table(DISK, in_run)] * 2 +
                         [mo.Table(INTS, in_run)], sched=False)
    if rng.random() < .3:
        v['faults'].update(mo.variants_with(rng, case, dry, [mo.Table(SOLVES)], sched=False)['faults'])
    return v


def run(env, case):
    check(env, case, chem=True, disk=False)
