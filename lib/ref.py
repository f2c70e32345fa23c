"""Independent reference models (no code shared with /repo).

Circuits are described by plain dictionaries ("specs"), see gen.py. All references here work on one member of a
batch at a time, with Python floats.
"""
import math

import numpy as np
from scipy.interpolate import make_interp_spline


# ------------------------------------------------------------------ parameters
def interp(p, soc):
    """Value of a SOC-dependent parameter {'v': 1D values, 'pins': None|1D, 'style': str} at a scalar SOC"""
    v = np.asarray(p['v'], float)
    n = len(v)
    if n == 1:
        return float(v[0])
    x = np.linspace(0, 1, n) if p.get('pins') is None else np.asarray(p['pins'], float)
    order = np.argsort(x)
    x, v = x[order], v[order]
    style = p.get('style', 'linear')
    if style in ('linear', 'slinear'):
        i = int(np.clip(np.searchsorted(x, soc) - 1, 0, n - 2))
        return float(v[i] + (v[i + 1] - v[i]) * (soc - x[i]) / (x[i + 1] - x[i]))
    if style in ('nearest', 'nearest-up'):
        return float(v[int(np.argmin(np.abs(x - soc)))])
    if style in ('previous', 'zero'):
        return float(v[int(np.clip(np.searchsorted(x, soc, side='right') - 1, 0, n - 1))])
    if style == 'next':
        return float(v[int(np.clip(np.searchsorted(x, soc, side='left'), 0, n - 1))])
    return float(make_interp_spline(x, v, k={'quadratic': 2, 'cubic': 3}[style])(soc))


def resistance(p, soc, temp):
    r = interp(p, soc)
    if temp is None:
        return r
    return r * math.exp(-p['tdf'] * (temp - p['tref']))


def ocv(spec, soc, temp):
    v = interp(spec['ocv'], soc)
    if temp is None:
        return v
    return v + (temp - spec['ocv']['tref']) * interp(spec['ent'], soc)


# ------------------------------------------------------------------ ECM
def delivered(prev, new, mode):
    dt = new['time'] - prev['time']
    if mode == 'constant':
        return dt * prev['current']
    return dt * (prev['current'] + new['current']) / 2


def efficiency(spec, prev):
    return 1.0 if prev['current'] < 0 else spec['ce']


def rc_exact(i0, tau, dt, a, b):
    """Solution of tau di/dt = I(t) - i, with I(t) ramping from a to b over dt"""
    if dt == 0:
        return i0
    m = (b - a) / dt
    e = math.exp(-dt / tau)
    # -expm1 keeps precision for short steps
    return i0 * e + (a - m * tau) * -math.expm1(-dt / tau) + m * dt


def relax(h, target, k, throughput):
    e = math.exp(-k * throughput)
    return e * h + (1 - e) * target


def hysteresis(h, M, k, dt, a, b):
    """dh/d|q| = k (sign(I) M - h) along a ramp of current from a to b"""
    if dt == 0:
        return h
    if a * b >= 0:
        s = np.sign(a + b)
        return relax(h, s * M, k, abs(a + b) / 2 * dt)
    tc = dt * a / (a - b)
    h = relax(h, np.sign(a) * M, k, abs(a) / 2 * tc)
    return relax(h, np.sign(b) * M, k, abs(b) / 2 * (dt - tc))


def ecm_step(spec, state, prev, new, mode):
    """One step for one member. state: {'soc','q0'|None,'i_rc': list,'hyst'}"""
    dt = new['time'] - prev['time']
    q = delivered(prev, new, mode)
    eff = efficiency(spec, prev)
    qt = spec['qt'] * 3600.
    soc = state['soc']
    irc = []
    for i0, rc in zip(state['i_rc'], spec['rc']):
        tau = resistance(rc['r'], soc, prev['temperature']) * interp(rc['c'], soc)
        a = new['current'] if mode == 'constant' else prev['current']
        irc.append(rc_exact(i0, tau, dt, a, new['current']))
    M = interp(spec['h0'], soc)
    k = spec['h0']['gamma'] * eff / qt
    a = prev['current']
    b = a if mode == 'constant' else new['current']
    return dict(soc=soc + eff * q / qt, q0=None if state['q0'] is None else state['q0'] + q, i_rc=irc,
                hyst=hysteresis(state['hyst'], M, k, dt, a, b))


def ecm_voltage(spec, state, new):
    soc, T, I = state['soc'], new['temperature'], new['current']
    v = ocv(spec, soc, T) + I * resistance(spec['r0'], soc, T)
    if state['q0'] is not None:
        v += state['q0'] / interp(spec['c0'], soc)
    for i, rc in zip(state['i_rc'], spec['rc']):
        v += i * resistance(rc['r'], soc, T)
    return v + state['hyst']


def state_vec(s):
    return np.array([s['soc']] + ([] if s['q0'] is None else [s['q0']]) + list(s['i_rc']) + [s['hyst']])


# ------------------------------------------------------------------ Kalman filters
def kalman(A, b, Q, H, d, R, m, P, y):
    """One step of the exact Kalman filter: x' = A x + b + w, y = H x' + d + v"""
    mp = A @ m + b
    Pp = A @ P @ A.T + Q
    yh = H @ mp + d
    S = H @ Pp @ H.T + R
    K = np.linalg.solve(S.T, (Pp @ H.T).T).T
    return mp + K @ (y - yh), Pp - K @ S @ K.T, yh, S


def ukf(m, P, Q, R, f, h, y, alpha=1., beta=2., kappa=0.):
    """One step of the augmented unscented Kalman filter (Wan & van der Merwe).

    f and h act on one vector. Sigma points use the lower Cholesky factor of blkdiag(P, Q, R).
    """
    n, o = len(m), len(y)
    L = 2 * n + o
    if kappa == 'automatic':
        kappa = 3 - L
    lam = alpha ** 2 * (L + kappa) - L
    z = np.zeros(L)
    z[:n] = m
    C = np.zeros((L, L))
    C[:n, :n], C[n:2 * n, n:2 * n], C[2 * n:, 2 * n:] = P, Q, R
    S = np.linalg.cholesky(C)
    c = math.sqrt(L + lam)
    pts = [z] + [z + c * S[:, i] for i in range(L)] + [z - c * S[:, i] for i in range(L)]
    wm = [lam / (L + lam)] + [0.5 / (L + lam)] * (2 * L)
    wc = [lam / (L + lam) + 1 - alpha ** 2 + beta] + [0.5 / (L + lam)] * (2 * L)
    X = [np.asarray(f(p[:n]), float) + p[n:2 * n] for p in pts]
    Y = [np.asarray(h(x), float) + p[2 * n:] for x, p in zip(X, pts)]
    mx = sum(w * x for w, x in zip(wm, X))
    my = sum(w * v for w, v in zip(wm, Y))
    Px = sum(w * np.outer(x - mx, x - mx) for w, x in zip(wc, X))
    Py = sum(w * np.outer(v - my, v - my) for w, v in zip(wc, Y))
    Pxy = sum(w * np.outer(x - mx, v - my) for w, x, v in zip(wc, X, Y))
    K = Pxy @ np.linalg.inv(Py)
    Ppost = Px - K @ Py @ K.T
    return mx + K @ (y - my), Ppost, my, Py


def is_psd(C, rel=1e-8):
    C = np.asarray(C)
    d = np.sqrt(np.clip(np.abs(np.diag(C)), 1e-300, None))
    N = C / np.outer(d, d)  # scale-free
    if not np.isfinite(N).all():
        return bool(np.linalg.eigvalsh((C + C.T) / 2).min() >= -rel * max(1e-300, np.abs(C).max()))
    return bool(np.linalg.eigvalsh((N + N.T) / 2).min() >= -rel * len(C))
