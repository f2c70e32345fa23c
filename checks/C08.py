"""C08: the unscented Kalman filter against the exact Kalman filter and the published equations"""
import numpy as np

from lib import ref
from lib.harness import WL

RULE = ('A case drives one filter over one history of random controls and measurements. The model is a random linear-Gaussian '
        'system (compared with the exact Kalman filter step by step and over the run) or a random nonlinear one (compared with '
        'the sigma-point equations), or a linear one with outputs and states in units up to six orders of magnitude apart. The model logs every call it receives. Distinct = dimensions, tuning, noises and matrices.')
REQUIRED = dict(linear_steps=1500, nonlinear_steps=800, correlated_noise=40, auto_kappa=15, small_alpha=20, sigma_moments=1500,
                multi_output=60, control_pairs=1500, default_noise=5, alias_steps=10, kwargs_steps=20, scaled_steps=400)
ASSUMPTIONS = ['sensor noise is positive definite', 'models return fresh arrays (but for the alias workload)',
               'tolerances grow with 1/alpha^2 as the cancellation in the weights does']

EPS = np.finfo(float).eps


def spd(rng, n, scale=1., corr=True):
    if not corr:
        return np.diag(scale * 10 ** rng.uniform(-1.5, 1, n))
    M = rng.normal(size=(n, n))
    d = 10 ** rng.uniform(-.7, .5, n)
    C = M @ M.T / n + .15 * np.eye(n)
    return scale * d[:, None] * C * d


def tuning(rng, L):
    a = float(rng.choice([1., 1., .5, .1, .01, .001, rng.uniform(.001, 1)]))
    b = float(rng.choice([2., 0., 3., rng.uniform(0, 5)]))
    k = [0., 'automatic', 3. - L, float(rng.uniform(-.8 * L, 0)), float(rng.uniform(0, 2 * L)), 1.][int(rng.integers(6))]
    kw = {}
    if rng.random() < .8:
        kw['alpha_param'] = a
    if rng.random() < .8:
        kw['beta_param'] = b
    if rng.random() < .8:
        kw['kappa_param'] = k
    return kw


def make_wrapper(f, h, n, o, log):
    from moirae.estimators.online.filters.base import ModelWrapper

    class W(ModelWrapper):
        @property
        def num_hidden_dimensions(self):
            return n

        @property
        def num_output_dimensions(self):
            return o

        def update_hidden_states(self, hidden_states, previous_controls, new_controls, **kw):
            X = np.array(hidden_states, float)
            log.append(('f', X, np.array(previous_controls, float), np.array(new_controls, float), dict(kw)))
            return np.array([f(x, previous_controls, new_controls) for x in X]).reshape(len(X), n)

        def predict_measurement(self, hidden_states, controls, **kw):
            X = np.array(hidden_states, float)
            log.append(('h', X, np.array(controls, float), dict(kw)))
            return np.array([h(x, controls) for x in X]).reshape(len(X), o)

    return W()


def dims(rng):
    return int(rng.choice([1, 2, 3, 4, 6])), int(rng.choice([1, 1, 2, 3])), int(rng.choice([1, 2, 3]))


def build(ctx, f, h, n, o, c):
    """A filter over (f, h), its log and the settings it should be using"""
    from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter as UKF
    from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
    rng = ctx.rng
    log = []
    w = make_wrapper(f, h, n, o, log)
    kw = tuning(rng, 2 * n + o)
    m0, P0, u0 = rng.normal(size=n), spd(rng, n), rng.normal(size=c)
    corr = bool(rng.random() < .6)
    Q, R = spd(rng, n, 10 ** rng.uniform(-3, 0), corr), spd(rng, o, 10 ** rng.uniform(-2, 0), corr)
    args = {}
    if rng.random() < .93:
        args['covariance_process_noise'] = Q.copy()
    else:
        Q = 1e-8 * np.eye(n)
        ctx.obs('default_noise')
    if rng.random() < .93:
        args['covariance_sensor_noise'] = R.copy()
    else:
        R = 1e-8 * np.eye(o)
        ctx.obs('default_noise')
    dist0 = MultivariateGaussian(mean=m0.copy(), covariance=P0.copy())
    ctrl0 = DeltaDistribution(mean=u0.copy()) if rng.random() < .7 else MultivariateGaussian(mean=u0.copy(), covariance=np.eye(c))
    filt = UKF(model=w, initial_hidden=dist0, initial_controls=ctrl0, **args, **kw)
    ctx.obs('correlated_noise', int(corr))
    ctx.obs('auto_kappa', int(kw.get('kappa_param') == 'automatic'))
    ctx.obs('small_alpha', int(kw.get('alpha_param', 1.) < .05))
    ctx.obs('multi_output', int(o > 1))
    ctx.case(dims=(n, o, c), tuning=kw, corr=corr, Q=Q, R=R, P0=P0)
    full = dict(alpha=kw.get('alpha_param', 1.), beta=kw.get('beta_param', 2.), kappa=kw.get('kappa_param', 0.))
    return filt, log, full, m0, P0, u0, Q, R


def weights(L, alpha, beta, kappa):
    if kappa == 'automatic':
        kappa = 3 - L
    lam = alpha ** 2 * (L + kappa) - L
    wm = np.full(2 * L + 1, .5 / (L + lam))
    wc = wm.copy()
    wm[0] = lam / (L + lam)
    wc[0] = wm[0] + 1 - alpha ** 2 + beta
    return wm, wc


def moments(ctx, filt, tun, m, P, Q, R, fac):
    """Sigma points built by the filter must match the augmented mean and covariance with the documented weights"""
    if not hasattr(filt, 'build_sigma_points'):
        return None
    n, o = len(m), len(R)
    L = 2 * n + o
    pts = np.array(filt.build_sigma_points(), float)
    ctx.check(pts.shape == (2 * L + 1, L), 'sigma-shape', f'sigma points have shape {pts.shape}', L=L)
    wm, wc = weights(L, **tun)
    za = np.concatenate([m, np.zeros(n + o)])
    C = np.zeros((L, L))
    C[:n, :n], C[n:2 * n, n:2 * n], C[2 * n:, 2 * n:] = P, Q, R
    d = pts - za
    sc = np.sqrt(np.abs(C).max())
    ctx.close(wm @ pts, za, 'sigma-mean', 'weighted mean of the sigma points', rtol=1e-8, atol=fac * (np.abs(za).max() + sc))
    ctx.close(d.T @ (wc[:, None] * d), C, 'sigma-cov', 'weighted covariance of the sigma points', rtol=1e-7,
              atol=1e-9 * sc ** 2 + fac * sc * (np.abs(za).max() + sc))
    ctx.obs('sigma_moments')
    return pts


def from_log(ctx, log, tun, m, P, up, un, n, o, kw):
    """Events at the boundary of the model: what it was asked in this step"""
    L = 2 * n + o
    ups, hs = [e for e in log if e[0] == 'f'], [e for e in log if e[0] == 'h']
    ctx.check(len(ups) >= 1 and len(hs) >= 1, 'model-calls', f'{len(ups)} updates and {len(hs)} predictions in one step')
    for e in ups:
        ctx.close(e[2].ravel(), up, 'previous-controls', 'previous controls given to the model', rtol=1e-12)
        ctx.close(e[3].ravel(), un, 'new-controls', 'new controls given to the model', rtol=1e-12)
        ctx.check(e[4] == kw, 'kwargs', f'keyword arguments {e[4]} instead of {kw}')
    for e in hs:
        ctx.close(e[2].ravel(), un, 'output-controls', 'controls given to predict the output', rtol=1e-12)
        ctx.check(e[3] == kw, 'kwargs', f'keyword arguments {e[3]} instead of {kw}')
    ctx.obs('control_pairs')


def expected_nonlinear(pts, n, o, tun, f, h, y):
    L = 2 * n + o
    wm, wc = weights(L, **tun)
    X = np.array([f(p[:n]) for p in pts]) + pts[:, n:2 * n]
    Y = np.array([h(x) for x in X]).reshape(len(pts), o) + pts[:, 2 * n:]
    mx, my = wm @ X, wm @ Y
    dx, dy = X - mx, Y - my
    Px, Py, Pxy = dx.T @ (wc[:, None] * dx), dy.T @ (wc[:, None] * dy), dx.T @ (wc[:, None] * dy)
    K = np.linalg.solve(Py.T, Pxy.T).T
    return mx + K @ (y - my), Px - K @ Py @ K.T, my, Py, Px, K, np.abs(X).max(), np.abs(Y).max()


def step(filt, u, y, kw, gaussian=False):
    from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
    uu = MultivariateGaussian(mean=u.copy(), covariance=np.eye(len(u))) if gaussian else DeltaDistribution(mean=u.copy())
    return filt.step(new_controls=uu, measurements=DeltaDistribution(mean=y.copy()), **kw)


def compare(ctx, got, want, label, tol_m, tol_P, tol_y, tol_S):
    """got: (hidden, output) distributions. want: (m, P, y, S)"""
    hid, out = got
    m, P, y, S = want
    ctx.close(out.get_mean(), y, f'{label}-output', 'predicted output', rtol=0, atol=tol_y)
    ctx.close(out.get_covariance(), S, f'{label}-output-cov', 'covariance of the predicted output', rtol=0, atol=tol_S)
    ctx.close(hid.get_mean(), m, f'{label}-mean', 'posterior mean', rtol=0, atol=tol_m)
    ctx.close(hid.get_covariance(), P, f'{label}-cov', 'posterior covariance', rtol=0, atol=tol_P)


def linear(ctx):
    rng = ctx.rng
    n, o, c = dims(rng)
    A = rng.normal(size=(n, n))
    A *= rng.uniform(.3, 1.05) / max(np.abs(np.linalg.eigvals(A)).max(), .1)
    B, C, H, D = rng.normal(size=(n, c)), rng.normal(size=(n, c)), rng.normal(size=(o, n)), rng.normal(size=(o, c))
    if rng.random() < .15:
        A = np.eye(n)
    if rng.random() < .2:  # a state which is not observed
        H[:, 0] = 0
    f = lambda x, up, un: A @ x + B @ np.ravel(up) + C @ np.ravel(un)
    h = lambda x, u: H @ x + D @ np.ravel(u)
    filt, log, tun, m, P, up, Q, R = build(ctx, f, h, n, o, c)
    a = tun['alpha']
    x = rng.multivariate_normal(m, P)
    mr, Pr = m.copy(), P.copy()  # independent recursion
    growth = 1.
    T = int(rng.integers(5, 60 if ctx.thorough else 25))
    gaussian = bool(rng.random() < .2)
    for t in range(T):
        un = up.copy() if rng.random() < .15 else rng.normal(size=c) * 10 ** rng.uniform(-1, 1)
        x = f(x, up, un) + rng.multivariate_normal(np.zeros(n), Q)
        y = h(x, un) + rng.multivariate_normal(np.zeros(o), R)
        if rng.random() < .1:
            y = y + rng.normal(size=o) * 5  # outlier
        kw = {} if rng.random() < .85 else dict(extra=t)
        # the belief of the filter before the step
        hm, hP = filt.hidden.get_mean(), filt.hidden.get_covariance()
        mag = max(np.abs(hm).max(), np.abs(mr).max(), np.abs(up).max(), np.abs(un).max(), np.abs(x).max(), 1.) * (1 + np.abs(A).max()) * 10
        moments(ctx, filt, tun, hm, hP, Q, R, EPS / a ** 2 * 300)
        log.clear()
        got = step(filt, un, y, kw, gaussian)
        from_log(ctx, log, tun, hm, hP, up, un, n, o, kw)
        b, d = B @ up + C @ un, D @ un
        want = ref.kalman(A, b, Q, H, d, R, hm, hP, y)
        S = want[3]
        K = np.linalg.solve(S.T, (hP @ A.T @ H.T).T).T if False else np.linalg.solve(S.T, ((A @ hP @ A.T + Q) @ H.T).T).T
        Pp = A @ hP @ A.T + Q
        sx, sy, kn = np.sqrt(np.abs(Pp).max()), np.sqrt(np.abs(S).max()), 1 + np.linalg.norm(K)
        cond = np.linalg.cond(S)
        if cond > 1e6:
            ctx.obs('stopped_ill_conditioned')
            break
        em = 1e-9 * mag + EPS / a ** 2 * 300 * mag
        eP = 1e-9 * (sx + sy) ** 2 + EPS / a * 300 * mag * (sx + sy)
        innov = np.abs(y - want[2]).max()
        amp = cond * kn / np.abs(np.linalg.eigvalsh(S)).min()
        tol_m, tol_P, tol_S, tol_y = em * kn + eP * amp * (innov + 1), eP * kn ** 2 * max(1, cond / 1e3), eP * kn, em * (1 + np.abs(H).max())
        compare(ctx, got, want, 'kalman', tol_m, tol_P, tol_y, tol_S)
        ctx.close(filt.hidden.get_mean(), got[0].get_mean(), 'returned-state', 'belief kept by the filter and that it returned', rtol=1e-12)
        ctx.close(filt.hidden.get_covariance(), got[0].get_covariance(), 'returned-state', 'belief kept by the filter and that it returned', rtol=1e-12)
        # the whole run against the exact recursion
        mr, Pr, yr, Sr = ref.kalman(A, b, Q, H, d, R, mr, Pr, y)
        growth = min(growth * max(1., np.linalg.norm(A, 2)) + 1, 1e4)
        long = growth * 10
        if max(tol_m, tol_P) * long < .01 * min(sx, 1):
            compare(ctx, got, (mr, Pr, yr, Sr), 'run', tol_m * long, tol_P * long, (tol_y + tol_m * np.abs(H).sum()) * long, (tol_S + tol_P * np.abs(H).sum() ** 2) * long)
            ctx.obs('run_comparisons')
        ctx.obs('linear_steps')
        ctx.obs('kwargs_steps', int(bool(kw)))
        up = un


def nonlinear(ctx):
    rng = ctx.rng
    n, o, c = dims(rng)
    A, B, C = rng.normal(size=(n, n)) / np.sqrt(n), rng.normal(size=(n, c)), rng.normal(size=(n, c))
    H, D, G = rng.normal(size=(o, n)), rng.normal(size=(o, c)), rng.normal(size=(n, n)) / n
    kf, kh = int(rng.integers(4)), int(rng.integers(4))
    fun = [np.tanh, np.sin, lambda z: z + .1 * z ** 2 / (1 + np.abs(z)), lambda z: z / (1 + z ** 2)]

    def f(x, up, un):
        return fun[kf](A @ x + B @ np.ravel(up)) + G @ x * np.cos(x) + C @ np.tanh(np.ravel(un))

    def h(x, u):
        return fun[kh](H @ x) + .3 * (H @ x ** 2) + D @ np.ravel(u)

    filt, log, tun, m, P, up, Q, R = build(ctx, f, h, n, o, c)
    a = tun['alpha']
    x = rng.multivariate_normal(m, P)
    for t in range(int(rng.integers(3, 15))):
        un = rng.normal(size=c)
        x = f(x, up, un) + rng.multivariate_normal(np.zeros(n), Q)
        y = h(x, un) + rng.multivariate_normal(np.zeros(o), R)
        hm, hP = filt.hidden.get_mean(), filt.hidden.get_covariance()
        fac = EPS / a ** 2 * 300
        if np.abs(hP).max() > 1e3 or np.abs(hm).max() > 1e3 or np.linalg.eigvalsh(hP).min() < 1e-7 * np.abs(hP).max():
            ctx.obs('stopped_diverging')  # numerically meaningless (weights are negative): no claim but those of C09
            break
        pts = moments(ctx, filt, tun, hm, hP, Q, R, fac)
        if pts is None:
            n_, L = n, 2 * n + o
            wmL = np.zeros((L, L))
            wmL[:n, :n], wmL[n:2 * n, n:2 * n], wmL[2 * n:, 2 * n:] = np.linalg.cholesky(hP), np.linalg.cholesky(Q), np.linalg.cholesky(R)
            k = 3 - L if tun['kappa'] == 'automatic' else tun['kappa']
            za = np.concatenate([hm, np.zeros(n + o)])
            g = a * np.sqrt(L + k)
            pts = np.vstack([za, za + g * wmL.T, za - g * wmL.T])
        log.clear()
        got = step(filt, un, y, {})
        from_log(ctx, log, tun, hm, hP, up, un, n, o, {})
        wm, wP, wy, wS, Px, K, magx, magy = expected_nonlinear(pts, n, o, tun, lambda q: f(q, up, un), lambda q: h(q, un), y)
        # Weights can be negative: a step whose covariance is not one any more is outside of the equations
        ev, sS = np.linalg.eigvalsh((wP + wP.T) / 2), np.linalg.eigvalsh((wS + wS.T) / 2)
        if sS.min() < 1e-3 * np.abs(sS).max() or not np.isfinite(wP).all():
            ctx.obs('stopped_ill_conditioned')
            break
        wmax = np.abs(weights(2 * n + o, **tun)[0]).max()  # how much rounding errors of the points are amplified
        mag = max(magx, magy, 1.) + np.abs(H).sum() * (magx + magx ** 2) + np.abs(D).sum() * 4
        fac = EPS * max(wmax, 1.) * 300
        kn = 1 + np.linalg.norm(K)
        em = 1e-9 * mag + fac * mag
        s = np.sqrt(max(np.abs(Px).max(), np.abs(wS).max()))
        eP = 1e-9 * s ** 2 + fac * a * mag * s + fac ** 2 * mag ** 2 / a ** 2 + fac * 30 * mag ** 2 * (a < .05)
        v, U = np.linalg.eigh((wP + wP.T) / 2)
        wP = wP if v.min() > 0 else (U * np.clip(v, 0, None)) @ U.T  # negative weights: repaired
        amp = kn / sS.min() * 100
        innov = np.abs(y - wy).max()
        if eP * amp > .05:
            ctx.obs('stopped_ill_conditioned')
            break
        compare(ctx, (got[0], got[1]), (wm, wP, wy, wS), 'ukf',
                em * kn + eP * amp * (innov + 1), eP * kn ** 2 * 10, em, eP)
        ctx.obs('nonlinear_steps')
        if ev.min() <= 1e-6 * ev.max():
            ctx.obs('stopped_indefinite')
            break
        up = un


def alias(ctx):
    """A model whose outputs are its states may return the array it was given"""
    from moirae.estimators.online.filters.base import ModelWrapper
    from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter as UKF
    from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
    rng = ctx.rng
    n = int(rng.integers(1, 5))
    A = rng.normal(size=(n, n)) / np.sqrt(n)

    class W(ModelWrapper):
        num_hidden_dimensions = property(lambda s: n)
        num_output_dimensions = property(lambda s: n)

        def update_hidden_states(self, hidden_states, previous_controls, new_controls):
            return hidden_states @ A.T

        def predict_measurement(self, hidden_states, controls):
            return hidden_states

    m, P, Q, R = rng.normal(size=n), spd(rng, n), spd(rng, n), spd(rng, n)
    filt = UKF(W(), MultivariateGaussian(mean=m, covariance=P), DeltaDistribution(mean=np.zeros(1)), Q, R)
    ctx.case(n=n, A=A, P=P)
    y = rng.normal(size=n)
    hid, out = filt.step(DeltaDistribution(mean=np.zeros(1)), DeltaDistribution(mean=y))
    ctx.obs('alias_steps')
    w = ref.kalman(A, np.zeros(n), Q, np.eye(n), np.zeros(n), R, m, P, y)
    tol = 1e-7 * (1 + max(np.abs(w[0]).max(), np.abs(w[1]).max(), np.abs(w[3]).max())) * max(1., np.linalg.cond(w[3]) / 100)
    if all(np.allclose(g, e, rtol=0, atol=tol) for g, e in zip((hid.get_mean(), hid.get_covariance(), out.get_mean(), out.get_covariance()), w)):
        ctx.obs('alias_exact')
        return
    # Known: the sensor noise is added in place to the states, so that it enters the cross covariance (which becomes S)
    Pp = A @ P @ A.T + Q
    K = w[3] @ np.linalg.inv(w[3])
    bad = (A @ m + K @ (y - A @ m), Pp - K @ w[3] @ K.T)  # the second is not a covariance and is repaired
    ctx.close(out.get_mean(), w[2], 'alias-output', 'predicted output', rtol=0, atol=tol)
    ctx.close(out.get_covariance(), w[3], 'alias-output-cov', 'covariance of the predicted output', rtol=0, atol=tol)
    ctx.close(hid.get_mean(), bad[0], 'alias-mean', 'posterior mean (neither exact nor with the sensor noise in the cross covariance)', rtol=0, atol=tol)
    v, U = np.linalg.eigh((bad[1] + bad[1].T) / 2)
    ctx.close(hid.get_covariance(), (U * np.clip(v, 0, None)) @ U.T, 'alias-cov', 'posterior covariance (neither exact nor as known)', rtol=0, atol=tol)
    ctx.fail('alias-measurement', 'sensor noise is added in place to the states when predict_measurement returns the array it was given',
             n=n, A=A, P=P, Q=Q, R=R, y=y, got=hid.get_mean(), want=w[0])


def tunings(ctx):
    """Settings outside of what is documented are rejected"""
    from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter as UKF
    from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
    rng = ctx.rng
    n, o, c = dims(rng)
    L = 2 * n + o
    w = make_wrapper(lambda x, a, b: x, lambda x, u: np.zeros(o), n, o, [])
    hid, u = MultivariateGaussian(mean=np.zeros(n), covariance=np.eye(n)), DeltaDistribution(mean=np.zeros(c))
    bad = [dict(alpha_param=float(rng.uniform(1.0001, 3))), dict(alpha_param=float(rng.uniform(-1, .00099))), dict(beta_param=-float(rng.uniform(.01, 3))),
           dict(kappa_param=-L - float(rng.uniform(0, 3))), dict(covariance_process_noise=np.eye(n + 1)), dict(covariance_sensor_noise=np.eye(o + 1)),
           dict(covariance_sensor_noise=np.ones((o, o + 1))), dict(covariance_process_noise=np.ones((n, n + 2)))]
    for kw in bad:
        ctx.raises((AssertionError, ValueError), lambda: UKF(w, hid, u, **kw), 'tuning', f'filter with {kw}')
    ctx.raises((AssertionError, ValueError), lambda: UKF(w, MultivariateGaussian(mean=np.zeros(n + 1), covariance=np.eye(n + 1)), u), 'tuning', 'state of another size')
    ctx.case(dims=(n, o, c), bad=str(bad))
    ctx.obs('rejected', len(bad) + 1)


def scales(ctx):
    """Quantities in very different units: the units of the outputs and of the states do not matter"""
    from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter as UKF
    from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
    rng = ctx.rng
    n, o = int(rng.integers(1, 5)), int(rng.integers(2, 5))
    A = rng.normal(size=(n, n))
    A *= rng.uniform(.3, 1.) / max(np.abs(np.linalg.eigvals(A)).max(), .1)
    H = rng.normal(size=(o, n))
    m, P, Q, R = rng.normal(size=n), spd(rng, n), spd(rng, n, .1), spd(rng, o, .3)
    d = 10 ** rng.uniform(-3, 3, o)
    d[0], d[1] = 10 ** rng.uniform(2.5, 3), 10 ** rng.uniform(-3, -2.5)
    s = 10 ** rng.uniform(-3, 3, n) if rng.random() < .5 else np.ones(n)
    As, Hs = s[:, None] * A / s, d[:, None] * H / s
    log = []
    w = make_wrapper(lambda x, a, b: As @ x, lambda x, u: Hs @ x, n, o, log)
    kw = tuning(rng, 2 * n + o)
    kw['alpha_param'] = max(kw.get('alpha_param', 1.), .3)
    filt = UKF(w, MultivariateGaussian(mean=s * m, covariance=s[:, None] * P * s), DeltaDistribution(mean=np.zeros(1)), s[:, None] * Q * s, d[:, None] * R * d, **kw)
    ctx.case(dims=(n, o), d=d, s=s, A=A, P=P, tuning=kw)
    x = rng.multivariate_normal(m, P)
    for t in range(int(rng.integers(3, 12))):
        x = A @ x + rng.multivariate_normal(np.zeros(n), Q)
        y = H @ x + rng.multivariate_normal(np.zeros(o), R)
        hid, out = filt.step(DeltaDistribution(mean=np.zeros(1)), DeltaDistribution(mean=d * y))
        m, P, wy, wS = ref.kalman(A, np.zeros(n), Q, H, np.zeros(o), R, m, P, y)
        k = 1e-6 * (1 + np.abs(m).max() + np.abs(wS).max() + np.abs(P).max()) * max(1., np.linalg.cond(wS) / 100)
        ctx.close(out.get_mean() / d, wy, 'scales-output', 'predicted output', rtol=0, atol=k)
        ctx.close(out.get_covariance() / np.outer(d, d), wS, 'scales-output-cov', 'covariance of the predicted output', rtol=0, atol=k)
        ctx.close(hid.get_mean() / s, m, 'scales-mean', 'posterior mean', rtol=0, atol=k)
        ctx.close(hid.get_covariance() / np.outer(s, s), P, 'scales-cov', 'posterior covariance', rtol=0, atol=k)
        ctx.obs('scaled_steps')


WORKLOADS = [WL('linear', linear, 220, 6000), WL('nonlinear', nonlinear, 260, 6000), WL('alias', alias, 30, 300), WL('tunings', tunings, 20, 100), WL('scales', scales, 100, 2000)]
