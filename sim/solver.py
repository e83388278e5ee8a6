"""The ODE solver seam: scipy's solve_ivp as seen by every loaded module is replaced by a dispatcher.

Stub solutions are a pure, smooth function of the problem handed over (initial vector, right-hand side, end time), so
that they tell two problems apart, cost next to nothing, and differ by rounding only if the problem does.
"""
import sys

import numpy as np

from . import proc as pm


class SolverError(Exception):
    """Some unexpected exception out of a numerical library."""


def _stub(fun, t_span, y0, cfg):
    from scipy.integrate._ivp.ivp import OdeResult
    y0 = np.array(y0, dtype=float)
    n = int(cfg.get('n', 5))
    amp, freq = float(cfg.get('amp', 0.05)), float(cfg.get('freq', 3.0))
    t_end = float(t_span[1])
    pos = np.abs(y0) + 1e-300
    ntot = pos[:-1].sum()
    # every species gets a share of the gas, so that every process matters
    y = np.exp(0.1 * np.log(pos) + 0.9 * np.log(ntot * 1e-2))
    y[-1] = 3.0 * y[:-1].sum() / len(y)
    sel = np.arange(len(y)) % 7
    ys = [y0]
    ts = [float(t_span[0])]
    with np.errstate(all='ignore'):
        for i in range(n):
            t = t_end * (10.0 ** (-3.0 * (n - 1 - i) / max(1, n - 1)) if n > 1 else 1.0)
            f = np.nan_to_num(np.asarray(fun(t, y), dtype=float), nan=0.0, posinf=1e300, neginf=-1e300)
            a = np.arcsinh(f / (np.abs(y) + 1e-300) * 1e-3)
            h = np.arcsinh(t_end * 1e6) * 0.01
            g = np.sin(freq * a + 0.7 * a.sum() / len(a) + sel + h) if amp else 0.0
            y = y * np.exp(0.2 * np.tanh(a / 20.0) + amp * g)
            ys.append(y)
            ts.append(t)
    k = cfg.get('fail_mod')
    if k and int(abs(np.log(np.abs(y) + 1e-300)).sum() * 1e3) % k == 0:      # a pure function of the problem, too
        res = OdeResult(t=np.array(ts[:-1]), y=np.array(ys[:-1]).T, sol=None, t_events=None, y_events=None, nfev=n,
                        njev=1, nlu=2, status=-1, message='Required step size is less than spacing between numbers.',
                        success=False)
        return res
    return OdeResult(t=np.array(ts), y=np.array(ys).T, sol=None, t_events=None, y_events=None, nfev=n + 1, njev=1,
                     nlu=2, status=0, message='The solver successfully reached the end of the integration interval.',
                     success=True)


_real_solve = None
ON_SOLVE = []


def solve(fun, t_span, y0, *args, **kwargs):
    P = pm.CUR
    if P is None or P.quiet:
        return _real_solve(fun, t_span, y0, *args, **kwargs)
    r = P.point('solve', 'solver')
    rec = None
    if P.cfg.get('record_solves', True):
        rec = problem(fun, t_span, y0)
        P.nsol += 1
        P.solves.append(rec)
    kind = r[1] if r[0] == 'sol' else None
    if rec is not None:
        rec['fault'] = kind
    if kind == 'sol_value':
        raise ValueError('array must not contain infs or NaNs')
    if kind == 'sol_mem':
        raise MemoryError('cannot allocate')
    if kind == 'sol_int':
        raise KeyboardInterrupt
    if kind == 'sol_exc':
        raise SolverError('solver went wrong')
    cfg = P.cfg.get('solver') or {}
    if cfg.get('real'):
        left = [4000]      # a stiff problem may keep the real solver busy for minutes: it gives up instead

        def bounded(t, y):
            left[0] -= 1
            if left[0] < 0:
                raise SolverError('out of patience')
            return fun(t, y)
        try:
            res = _real_solve(bounded, t_span, y0, *args, **kwargs)
        except SolverError:
            if rec is not None:
                rec['fault'] = 'budget'
            raise
    else:
        res = _stub(fun, t_span, y0, cfg)
    if kind == 'sol_fail':
        k = max(1, res.y.shape[1] // 2)
        res.t, res.y = res.t[:k], res.y[:, :k]
        res.success, res.status = False, -1
        res.message = 'Required step size is less than spacing between numbers.'
    if rec is not None:
        rec['t'], rec['y'], rec['ok'] = np.array(res.t), np.array(res.y), bool(res.success)
        for f in ON_SOLVE:
            f(P, rec)
    return res


def problem(fun, t_span, y0):
    """A fingerprint of the problem: right-hand sides at a few states."""
    y0 = np.array(y0, dtype=float)
    f = []
    with np.errstate(all='ignore'):
        pos = np.abs(y0) + 1e-300
        ntot = pos[:-1].sum()
        y1 = np.full_like(y0, ntot / len(y0))
        y1[-1] = 3 * ntot / len(y0)
        y2 = np.exp(0.5 * np.log(pos) + 0.5 * np.log(ntot * 1e-2))
        for t, y in ((0.0, y0), (0.0, y1), (t_span[1] * 0.5, y1), (t_span[1], y2)):
            f.append(np.array(fun(t, y.copy()), dtype=float))
    return {'y0': y0, 't_end': float(t_span[1]), 'f': f}


def same_problem(a, b, rtol=1e-6):
    """None, or what differs between two recorded problems."""
    if len(a['y0']) != len(b['y0']):
        return 'number of variables %d / %d' % (len(a['y0']), len(b['y0']))
    if abs(a['t_end'] - b['t_end']) > 1e-12 * abs(a['t_end']):
        return 'end time'
    if not np.allclose(a['y0'], b['y0'], rtol=rtol, atol=0, equal_nan=True):
        return 'initial state'
    for i, (x, y) in enumerate(zip(a['f'], b['f'])):
        scale = np.nanmax(np.abs(x)) if np.isfinite(x).any() else 0.0
        if not np.allclose(x, y, rtol=rtol, atol=rtol * 1e-3 * scale, equal_nan=True):
            return 'right-hand side at probe %d' % i
    return None


def install():
    """Call after the code under test is imported."""
    global _real_solve
    import scipy.integrate
    import scipy.integrate._ivp
    import scipy.integrate._ivp.ivp
    _real_solve = _real_solve or scipy.integrate._ivp.ivp.solve_ivp
    for m in list(sys.modules.values()):
        d = getattr(m, '__dict__', None)
        if not d or m is sys.modules[__name__]:
            continue
        for k, v in list(d.items()):
            if v is _real_solve:
                setattr(m, k, solve)
