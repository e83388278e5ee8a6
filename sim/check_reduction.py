"""Checks of simulated reductions against the reference (C10: the chemistry, C11: the record on disk)."""
import os
import pickle

from . import gen, lib, morris as mo, reduction as rd, solver
from .lib import require


def shrinks(case):
    for i, ph in enumerate(case['ops']):
        for j in range(len(ph)):
            if len(ph) > 1:
                yield dict(case, ops=case['ops'][:i] + [ph[:j] + ph[j + 1:]] + case['ops'][i + 1:])
            for k in range(len(ph[j])):
                if len(ph[j]) > 1:
                    yield dict(case, ops=case['ops'][:i] + [ph[:j] + [ph[j][:k] + ph[j][k + 1:]] + ph[j + 1:]] +
                               case['ops'][i + 1:])
    if case.get('reader'):
        yield dict(case, reader=False)
    if any(s.get('used') for ph in case['ops'] for q in ph for s in q):
        yield dict(case, ops=[[[dict(s, used=None) for s in q] for q in ph] for ph in case['ops']])


def check(env, case, chem, disk):
    if not mo.workable(case):
        env.tags['not_workable'] += 1
        return
    w = env.world()
    os.makedirs(env.path('own'))
    done = {}      # run directory -> expectation left by earlier phases
    for n, procs in enumerate(case['ops']):
        sess = {s['i']: s for q in procs for s in q}
        for s in sess.values():
            if s['pre']:
                d = os.path.join(rd.parent(env.path, s), s['id'])
                if not os.path.exists(d):
                    os.makedirs(d)
            elif s.get('used'):       # by something else than a reduction known here
                d = os.path.join(rd.parent(env.path, s), s['id'])
                if not os.path.exists(d):
                    occupy(d, s['used'])
                    done[d] = True
                    env.tags['used_by_other'] += 1
        bodies, names = [], {}
        for j, q in enumerate(procs):
            nm = 'p%d%s' % (n, 'abc'[j])
            bodies.append((nm, lambda P, q=q: rd.body(P, case, q, env.path)))
            for s in q:
                names[s['i']] = nm
        if case.get('reader'):
            fs = sorted({os.path.join(rd.parent(env.path, s), s['id'], 'reduction_history.csv') for s in sess.values()})
            bodies.append(('rdr', lambda P: rd.poll(P, case, fs, 12)))
        seen, nf = len(w.log), len(w.fired)
        trees = {}
        for s in sess.values():
            d = os.path.join(rd.parent(env.path, s), s['id'])
            if os.path.isdir(d):
                trees[d] = lib.tree(d)
        out = w.run(bodies)
        for nm, _ in bodies:
            if not out[nm].crashed:
                out[nm].value()
        log = [(nm, t, pickle.loads(b)) for nm, t, b in w.log[seen:]]
        fired = w.fired[nf:]
        runs = {}
        for i, s in sess.items():
            d = os.path.join(rd.parent(env.path, s), s['id'])
            mine = [(t, b) for nm, t, b in log if nm == names[i] and isinstance(b, dict) and b.get('s') == i]
            fs = [f for f in fired if f[0].split('|')[0] == names[i] and f[0].split('|')[1].split('.')[0] == str(i)]
            runs[i] = one(env, case, s, mine, fs, out[names[i]].crashed, chem, disk)
            runs[i]['dir'] = d
        if disk:
            on_disk(env, case, sess, runs, trees, done, log)
    env.tags['sessions'] += len(sess)


def occupy(d, how):
    os.makedirs(os.path.join(d, '00-X', 'log') if how == 'subdir' else d)
    name = {'hidden': '.lock', 'file': 'reduction_history.csv', 'odd': '__init__.py', 'meta': 'meta.yaml'}.get(how)
    if name:
        with open(os.path.join(d, name), 'w') as f:
            f.write('x\n' if how != 'hidden' else '')


def hit(fired, s, n):
    """Faults (other than of the solver) that struck in one iteration, and whether the process died."""
    fs = [f for f in fired if f[0].split('|')[1] == '%d.%d' % (s['i'], n)]
    return [f for f in fs if f[2] not in rd.SOLF]


def one(env, case, s, evs, fired, crashed, chem, disk):
    """Follows one reduction with the reference; returns what has to be on disk."""
    ref = rd.Ref(case, s)
    st = {'init': None, 'exp': [], 'need': 0, 'ref': ref, 'texts': [], 'done': False}
    got = {}
    for t, b in evs:
        got.setdefault(t, []).append(b)
    if not got.get('si'):
        return st
    st['init'] = got['si'][0]['ok']
    if not st['init']:
        if not ref.eligible:
            env.tags['nothing_eligible'] += 1
            st['init_may_fail'] = True
        st['init_faulty'] = bool(fired)
        st['init_e'] = got['si'][0]['e']
        return st
    if not ref.eligible:
        require(False, 'nothing-to-reduce-accepted', '')
    if not got.get('b0'):
        return st
    base = ref.expect_base()
    require(base[0] == 'ok', 'harness-base', lambda: str(base[1]))
    st['exp'].append({'alts': [ref.row0], 'opt': True})
    if not got.get('b1'):
        return st
    b = got['b1'][0]
    trouble = hit(fired, s, 0) or [x for x in b['solves'] if x.get('fault')]
    if not b['ok']:
        require(trouble, 'base-run-failed-without-fault', lambda: b['e'])
        return st
    if not hit(fired, s, 0):
        require(len(b['solves']) == 1, 'base-run-not-run', '')
        st['exp'][0]['opt'] = False
        st['need'] = 1
        same_problem(chem, b['solves'], base, 'base run')
    state_is(chem, ref, b['snap'], ref.chem, 'base run')
    st['texts'].append((b['text'], 1, st['need']))
    ends = {x['n']: x for x in got.get('it1', ())}
    rank = ref.ranking() if s['mode'] != 'manual' else None
    streak, stop, again = 0, False, False
    aborted = False
    for it in got.get('it0', ()):
        n, sp, bt = it['n'], it['sp'], it['bt']
        env.tags['iterations'] += 1
        if rank is not None:
            nxt = next_of(ref, rank)
            require(not stop and not aborted, 'reduction-does-not-stop', lambda: 'goes on with %s (streak %d > %d)' % (sp, streak, s['streak']))
            require(nxt is not None and nxt[0] == sp, 'not-in-ranking-order', lambda: '%s instead of %s' % (sp, nxt))
            require(abs(it['score'] - nxt[1]) <= 1e-6 * abs(nxt[1]), 'wrong-score', lambda: '%s: %s / %s' % (sp, it['score'], nxt))
            require(bt, 'no-backtracking', '')
        require(sp in ref.eligible and sp not in ref.attempted, 'ineligible-attempted', lambda: sp)
        ref.attempted.add(sp)
        kind, new, implicit = ref.plan(sp)
        fr = ref.fresh(new) if kind == 'run' else None
        fail = ref.row_fail(sp, it['score'])
        over, succ = False, None
        if fr and fr[0] == 'ok':
            succ = ref.row_done(sp, it['score'], new, implicit, fr[1])
            over = bt and succ['error_base_max'] > s['max'] / 100
            close = abs(succ['error_base_max'] - s['max'] / 100) < 1e-7
            require(not close, 'harness-tie', '')
        e = ends.get(n)
        io = hit(fired, s, n)
        if any(f[1] == 'openr' for f in io):     # what is restored could not be read: nothing is promised from here on
            env.tags['log_unreadable'] += 1
            st['lost'] = True
            return st
        if e is None:        # killed in the middle of it
            st['exp'].append({'alts': [x for x in (fail, succ) if x], 'opt': True})
            env.tags['killed_in_iteration'] += 1
            return st
        sol = [x for x in e['solves'] if x.get('fault')]
        # how it had to go
        if kind == 'refuse':
            how, quietly = 'fail', True
            env.tags['not_removable'] += 1
        elif fr[0] == 'exc':
            how, quietly = 'fail', type(fr[1]).__name__ in rd.MODEL_ERRORS
            env.tags['model_refuses'] += 1
        elif sol:
            how, quietly = 'fail', sol[0]['fault'] in rd.GENTLE
            env.tags['model_fails'] += 1
        else:
            how, quietly = 'ok', True
            env.tags['over_limit' if over else 'accepted'] += 1
            env.tags['implicit'] += bool(implicit)
        if kind == 'run' and (fr[0] == 'ok' or e['solves']) and not io:
            same_problem(chem, e['solves'], fr, 'iteration %d (%s)' % (n, sp))
        before = ref.chem
        if not io:
            require(e['ok'] or not quietly, 'iteration-raises', lambda: '%s: %s' % (sp, e['e']))
            after = new if how == 'ok' and not over else before
            state_is(chem, ref, e['snap'], after, '%s %s' % (sp, 'accepted' if after is new else 'not accepted'))
            st['exp'].append({'alts': [succ if how == 'ok' else fail], 'opt': not e['ok']})
            if e['ok']:
                st['need'] = len(st['exp'])
        else:
            env.tags['iteration_with_io_fault'] += 1
            is_new = kind == 'run' and ref.same_state(e['snap'], new) is None
            if how != 'ok' or over or not is_new:
                state_is(chem, ref, e['snap'], before, '%s not accepted (%s)' % (sp, e['e']))
            after = new if is_new and how == 'ok' and not over else before
            alts = [succ] if after is new else [fail] + ([succ] if over else [])
            st['exp'].append({'alts': [x for x in alts if x], 'opt': True})
            if e['ok']:
                st['exp'][-1]['opt'] = False
                st['need'] = len(st['exp'])
                how = 'ok' if str((e['row'] or {}).get('rm_success')) == 'True' else 'fail'
        st['texts'].append((e['text'], len(st['exp']), st['need']))
        if after is new:
            ref.eligible -= {sp} | implicit
            ref.chem = new
            ref.last = succ['sol']
            env.tags['streak_reset'] += streak >= 2
            again = again or streak >= 2
            streak = 0
            if rank is not None and s['mode'] == 'dynamic':
                rank = ref.ranking()
        elif how == 'ok' and over:
            streak += 1
        env.tags['second_streak'] += again and streak >= 2
        stop = streak > s['streak'] or not ref.eligible
        aborted = not e['ok']
    if got.get('se'):
        e = got['se'][0]
        st['done'] = e['ok']
        if e['ok'] and rank is not None:
            env.tags['completed'] += 1
            nxt = next_of(ref, rank)
            require(stop or nxt is None, 'reduction-stops-early', lambda: 'before %s (streak %d of %d)' % (nxt, streak, s['streak']))
            d = gen.snap_diff(e['snap'], ref.snap0)
            if chem:
                require(not d, 'not-reset-in-the-end', lambda: str(d))
        elif not e['ok']:
            require(aborted or fired, 'reduction-raises', lambda: e['e'])
    return st


def next_of(ref, rank):
    for sp, score in rank:
        if sp in ref.eligible and sp not in ref.attempted:
            return sp, score
    return None


def state_is(chem, ref, snap, want, what):
    if chem:
        d = ref.same_state(snap, want)
        require(d is None, 'chemistry-not-in-last-accepted-state', lambda: 'after %s: %s' % (what, d))


def same_problem(chem, solves, fr, what):
    if not chem:
        return
    require(len(solves) == 1, 'model-not-run-once', lambda: '%s: %d solves' % (what, len(solves)))
    if fr[2] is not None:
        d = solver.same_problem(solves[0], fr[2])
        require(d is None, 'other-chemistry-run', lambda: '%s: %s' % (what, d))


def rows_of(text, what):
    try:
        return rd.parse(text)
    except Exception as e:
        require(False, 'history-unreadable', lambda: '%s: %s' % (what, lib.ename(e)))


def on_disk(env, case, sess, runs, trees, done, log):
    import pandas as pd
    bydir = {}
    for i, r in runs.items():
        bydir.setdefault(r['dir'], []).append((i, r))
    for d, rs in bydir.items():
        won = [(i, r) for i, r in rs if r['init']]
        hist = os.path.join(d, 'reduction_history.csv')
        if d in done:
            require(not won, 'used-id-accepted', lambda: d)
            require(lib.tree(d) == trees[d], 'used-id-touched', lambda: str(lib.tree_diff(trees[d], lib.tree(d))[:5]))
            env.tags['used_id_refused'] += len(rs)
            continue
        if len(won) > 1:
            require(False, 'used-id-accepted', lambda: '%s by sessions %s' % (os.path.basename(d), [i for i, _ in won]))
        if not won:
            for i, r in rs:
                if r['init'] is False and not r.get('init_may_fail') and not r['init_faulty'] and len(rs) == 1:
                    require(False, 'new-id-refused', lambda: r['init_e'])
            if os.path.isdir(d) and os.listdir(d):
                done[d] = True
            continue
        done[d] = True
        env.tags['refused_same_id'] += sum(1 for _, r in rs if r['init'] is False)
        i, r = won[0]
        exp = r['exp']
        if r.get('lost'):
            continue
        for text, upto, need in r['texts']:
            if text is None:
                require(need == 0, 'history-missing', lambda: 'after iteration %d' % (upto - 1))
                continue
            m, why = rd.match(rows_of(text, 'after iteration %d' % (upto - 1)), exp[:upto], need)
            require(m is not None, 'history-untrue', lambda: 'after iteration %d: %s' % (upto - 1, why))
        for nm, t, b in log:
            if t == 'rd' and b['f'] == hist:
                env.tags['polled'] += 1
                m, why = rd.match(rows_of(b['text'], 'polled'), exp, 0)
                require(m is not None, 'history-untrue', lambda: 'polled: %s' % why)
        if not os.path.exists(hist):
            require(r['need'] == 0, 'history-missing', '')
            continue
        with open(hist) as f:
            rows = rows_of(f.read(), 'in the end')
        m, why = rd.match(rows, exp, r['need'])
        require(m is not None, 'history-untrue', lambda: why)
        env.tags['rows'] += len(m)
        for row, alt in m:
            if not alt.get('run'):
                continue
            run = os.path.join(d, row['run_id'])
            c = gen.build(case['chem'])
            x = lib.attempt(c.load_chemistry_attributes, os.path.join(run, 'chemistry_attributes.yaml'))
            require(x[0] == 'ok', 'accepted-run-not-logged', lambda: '%s: %s' % (row['run_id'], lib.ename(x[1])))
            df = r['ref'].same_state(gen.snapshot(c), alt['state'])
            require(df is None, 'accepted-run-not-logged', lambda: '%s: %s' % (row['run_id'], df))
            s = sess[i]
            if s['log'][1]:
                sol = lib.attempt(pd.read_csv, os.path.join(run, 'solution.csv'), index_col=0, float_precision='round_trip')
                require(sol[0] == 'ok', 'accepted-run-not-logged', lambda: lib.ename(sol[1]))
                sol = lib.frame(sol[1])
                df = (lib.subset_frame if s['log'][0] else lib.same_frame)(sol, alt['sol'], 1e-14)
                require(df is None, 'accepted-run-not-logged', lambda: '%s: solution: %s' % (row['run_id'], df))
