"""C09: beliefs stay valid probability distributions"""
import numpy as np

from lib import est, ref
from lib.harness import WL
from checks import C08

RULE = ('A case is one matrix handed to the repair routine (valid, indefinite, rank-deficient, badly scaled, asymmetric), one filter run from '
        'a degenerate or badly scaled prior, a strongly curved system with negative central weight, or one long noisy history fed to a joint or dual estimator of a random circuit. After every step '
        'the belief must be finite, of the declared size, symmetric and positive semi-definite. Distinct = matrix, prior, or circuit with its estimated names.')
REQUIRED = dict(repaired=150, kept=60, asymmetric=50, degenerate_steps=600, singular_priors=30, indefinite_priors=10, zero_variance=15, exact_singular=150,
                joint_steps=700, dual_steps=700, ill_scaled=10, curved_steps=200, indefinite_positive_diagonal=5)
ASSUMPTIONS = ['sensor noise is positive definite', 'asymmetry at the level of rounding is not told apart from symmetry',
               'priors of circuits are such that the sigma points stay in the domain of the models']


def nearest(S):
    """Nearest symmetric positive semi-definite matrix in the Frobenius norm"""
    B = (S + S.T) / 2
    v, U = np.linalg.eigh(B)
    return (U * np.clip(v, 0, None)) @ U.T


def orth(rng, n):
    return np.linalg.qr(rng.normal(size=(n, n)))[0]


def repair(ctx):
    from moirae.estimators.online.filters.kalman.utils import ensure_positive_semi_definite as fix
    rng = ctx.rng
    n = int(rng.integers(1, 9))
    kind = str(rng.choice(['pd', 'pd', 'scaled_pd', 'indefinite', 'indefinite', 'rank', 'asym', 'asym', 'zero', 'negative', 'slight', 'diag']))
    U = orth(rng, n)
    v = 10 ** rng.uniform(-4, 1, n)
    scale = float(10 ** rng.uniform(-2, 3)) if rng.random() < .5 else 1.
    if kind == 'asym' and n == 1:
        kind = 'indefinite'
    if kind in ('indefinite', 'asym'):
        if kind == 'indefinite' or rng.random() < .4:
            v = v * rng.choice([-1, 1], n)
        if kind == 'indefinite':
            v[int(rng.integers(n))] = -float(10 ** rng.uniform(-3, 1))
    elif kind == 'rank':
        v[:int(rng.integers(1, n + 1))] = 0
    elif kind == 'zero':
        v[:] = 0
    elif kind == 'negative':
        v = -v
    elif kind == 'slight':
        v[0] = -1e-12
    S = (U * v) @ U.T
    S = (S + S.T) / 2
    if kind == 'diag':
        S = np.diag(v * rng.choice([-1, 0, 1], n))
    if kind == 'asym':
        D = np.tril(rng.uniform(.5, 2, (n, n)) * rng.choice([-1, 1], (n, n)), -1)
        S = S + (D - D.T) * float(rng.choice([.001, .001, .01, .3, 1]))
    if kind == 'scaled_pd':
        d = 10 ** rng.uniform(-6, 4, n)
        S = d[:, None] * (U @ np.diag(rng.uniform(.2, 2, n)) @ U.T) * d
        S, scale = (S + S.T) / 2, 1.
        ctx.obs('ill_scaled')
    S = S * scale
    ctx.case(kind=kind, n=n, S=S)
    before = S.copy()
    out = fix(S)
    ctx.check(np.array_equal(S, before), 'input-changed', 'the matrix given was modified')
    ctx.check(isinstance(out, np.ndarray) and out.shape == (n, n) and np.isfinite(out).all(), 'repair-shape', f'returned {out}', S=S)
    if kind in ('pd', 'scaled_pd'):
        ctx.check(np.array_equal(out, S), 'valid-changed', 'a valid covariance was changed', S=S, out=out)
        out[0, 0] += 1
        ctx.check(np.array_equal(S, before), 'aliased', 'the matrix returned shares memory with the one given')
        ctx.obs('kept')
        return
    big = np.abs(S).max()
    ctx.close(out, out.T, 'repair-symmetry', 'repaired matrix', rtol=0, atol=1e-12 * big)
    ctx.check(np.linalg.eigvalsh(out).min() >= -1e-12 * max(big, 1e-300) * n, 'repair-psd', 'repaired matrix is not positive semi-definite', S=S, out=out)
    ctx.close(out, nearest(S), f'repair-{"asymmetric" if kind == "asym" else "nearest"}', f'{kind} matrix repaired to something else than the nearest one',
              rtol=0, atol=1e-11 * big * n + 2e-12 * scale * (kind == 'slight'), S=S)
    again = fix(out)
    ctx.close(again, out, 'repair-twice', 'repairing a repaired matrix', rtol=0, atol=1e-11 * big * n)
    ctx.obs('repaired')
    ctx.obs('asymmetric', int(kind == 'asym'))


def valid(ctx, dist, n, label, slack=0.):
    m, C = dist.get_mean(), dist.get_covariance()
    ctx.check(m.shape == (n,) and C.shape == (n, n), 'dimensions', f'{label}: shapes {m.shape} and {C.shape} instead of {n} dimensions')
    ctx.check(np.isfinite(m).all() and np.isfinite(C).all(), 'finite', f'{label}: not finite', mean=m, cov=C)
    big = np.abs(C).max()
    ctx.check(np.abs(C - C.T).max() <= 1e-9 * big + slack, 'symmetry', f'{label}: covariance is not symmetric', C=C)
    if big > 0:
        lo = np.linalg.eigvalsh((C + C.T) / 2).min()
        ctx.check(lo >= -1e-10 * big - slack, 'psd', f'{label}: covariance has eigenvalue {lo:.3g} (largest entry {big:.3g})', C=C)
        ctx.check(np.diag(C).min() >= -1e-10 * big - slack, 'variance', f'{label}: negative variance', C=C)


def degenerate(ctx):
    """Linear systems from priors which are singular, indefinite, zero or badly scaled"""
    from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter as UKF
    from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
    rng = ctx.rng
    n, o = int(rng.integers(1, 7)), int(rng.integers(1, 4))
    kind = str(rng.choice(['zero', 'rank', 'partial', 'indefinite', 'slight', 'scaled', 'rank_Q']))
    A = rng.normal(size=(n, n))
    A *= rng.uniform(.5, 1.) / max(np.abs(np.linalg.eigvals(A)).max(), .2)
    if rng.random() < .3:
        A = np.eye(n)
    H = rng.normal(size=(o, n))
    U = orth(rng, n)
    v = 10 ** rng.uniform(-2, 1, n)
    Q = C08.spd(rng, n, .05)
    R = C08.spd(rng, o, .3)
    r = int(rng.integers(0, n))
    P = (U * v) @ U.T
    if kind == 'zero':
        P = np.zeros((n, n))
    elif kind == 'rank':
        v[r:] = 0
        P = (U * v) @ U.T
    elif kind == 'partial':
        P[r, :] = P[:, r] = 0  # one variable is known exactly
    elif kind == 'indefinite':
        v[0] = -float(10 ** rng.uniform(-2, 0))
        P = (U * v) @ U.T
    elif kind == 'slight':
        v[0] = -1e-13
        P = (U * v) @ U.T
    elif kind == 'scaled':
        d = 10 ** rng.uniform(-6, 3, n)
        P, Q, H = d[:, None] * P * d, d[:, None] * Q * d, H / d
        A = d[:, None] * A / d
        ctx.obs('ill_scaled')
    if kind == 'rank_Q' or (kind != 'scaled' and rng.random() < .5):
        w = 10 ** rng.uniform(-3, -1, n) * (rng.random(n) < .4)
        Q = np.diag(w) if rng.random() < .5 else (U * w) @ U.T
    P, Q = (P + P.T) / 2, (Q + Q.T) / 2
    ctx.obs('singular_priors', int(kind in ('zero', 'rank', 'partial')))
    ctx.obs('zero_variance', int(kind in ('zero', 'partial')))
    ctx.obs('indefinite_priors', int(kind in ('indefinite', 'slight')))
    ctx.case(kind=kind, n=n, o=o, A=A, P=P, Q=Q)
    log = []
    W = C08.make_wrapper(lambda x, a, b: A @ x, lambda x, u: H @ x, n, o, log)
    tun = C08.tuning(rng, 2 * n + o)
    if tun.get('alpha_param', 1.) < .05:
        tun['alpha_param'] = .1
    m = rng.normal(size=n) if kind != 'scaled' else d * rng.normal(size=n)
    filt = UKF(W, MultivariateGaussian(mean=m.copy(), covariance=P.copy()), DeltaDistribution(mean=np.zeros(1)), Q.copy(), R.copy(), **tun)
    x = m.copy()
    mr, Pr = m.copy(), nearest(P)
    for t in range(int(rng.integers(3, 40))):
        x = A @ x
        y = H @ x + np.linalg.cholesky(R) @ rng.normal(size=o)
        hid, out = filt.step(DeltaDistribution(mean=np.zeros(1)), DeltaDistribution(mean=y))
        for label, dd, k in (('returned belief', hid, n), ('belief', filt.hidden, n), ('predicted output', out, o)):
            valid(ctx, dd, k, f'{label} after step {t} ({kind})')
        ctx.obs('degenerate_steps')
        if kind != 'scaled':
            mr, Pr, yr, Sr = ref.kalman(A, np.zeros(n), Q, H, np.zeros(o), R, mr, Pr, y)
            if np.linalg.cond(Sr) > 1e5:
                break
            sc = 1 + max(np.abs(mr).max(), np.abs(Pr).max(), np.abs(y).max())
            tol = 2e-6 * sc * (1 + np.linalg.norm(Pr) / np.linalg.eigvalsh(Sr).min())
            ctx.close(hid.get_mean(), mr, 'singular-mean', f'posterior mean from a {kind} prior', rtol=0, atol=tol)
            ctx.close(hid.get_covariance(), Pr, 'singular-cov', f'posterior covariance from a {kind} prior', rtol=0, atol=tol)
            ctx.close(out.get_mean(), yr, 'singular-output', f'predicted output from a {kind} prior', rtol=0, atol=tol * (1 + np.abs(H).sum()))
            ctx.obs('exact_singular')


def run(ctx, kind):
    """Long noisy histories of circuits"""
    rng = ctx.rng
    n = int(rng.integers(40, 250 if ctx.thorough else 110))
    sc = est.Scenario(rng, n_steps=n, rel=.5, noise=float(rng.choice([1e-3, 1e-4, 1e-2])))
    if kind == 'dual' and sc.na == 0:
        sc = est.Scenario(rng, n_steps=n, rel=.5, names=['r0.base_values', 'q_t.base_values'])
    Px, Pa, Qx, Qa = sc.Px, sc.Pa, sc.Qx, sc.Qa
    deg = str(rng.choice(['none', 'none', 'zero_x', 'zero_a', 'zero_noise', 'rank']))
    if deg == 'zero_x':  # some of the states are known exactly
        k = rng.random(sc.nx) < .5
        Px = np.where(k[:, None] | k[None], 0, Px)
    elif deg == 'zero_a' and sc.na:
        k = rng.random(sc.na) < .5
        Pa = np.where(k[:, None] | k[None], 0, Pa)
    elif deg == 'zero_noise':
        Qx, Qa = np.zeros_like(Qx), np.zeros_like(Qa)
    elif deg == 'rank':
        u = rng.normal(size=sc.nx) * sc.sx
        Px = np.outer(u, u)
    # What is known exactly is so in truth
    dx = sc.sx * rng.normal(size=sc.nx).clip(-2, 2) * (np.diag(Px) > 0) if deg != 'rank' else u * float(rng.uniform(-1.5, 1.5))
    sc.simulate(rng, dx, sc.sa * rng.normal(size=sc.na).clip(-2, 2) * (np.diag(Pa) > 0))
    norm = bool(rng.random() < .5)
    ctx.case(**sc.describe(), degenerate=deg, normalize=norm, kind=kind)
    if kind == 'joint':
        from moirae.estimators.online.joint import JointEstimator
        e = JointEstimator.initialize_unscented_kalman_filter(
            cell_model=sc.cell(), initial_asoh=sc.asoh(), initial_transients=sc.transients(), initial_inputs=sc.input(0), covariance_transient=Px,
            covariance_asoh=Pa, transient_covariance_process_noise=Qx, asoh_covariance_process_noise=Qa, covariance_sensor_noise=sc.R,
            normalize_asoh=norm, filter_args=est.tuning(rng, 2 * (sc.nx + sc.na) + 1))
    else:
        from moirae.estimators.online.dual import DualEstimator
        e = DualEstimator.initialize_unscented_kalman_filter(
            cell_model=sc.cell(), initial_asoh=sc.asoh(), initial_transients=sc.transients(), initial_inputs=sc.input(0), covariance_transient=Px,
            covariance_asoh=Pa, transient_covariance_process_noise=Qx, asoh_covariance_process_noise=Qa, covariance_sensor_noise=sc.R,
            normalize_asoh=norm, filter_args=dict(transient=est.tuning(rng, 2 * sc.nx + 1), asoh=est.tuning(rng, 2 * sc.na + 1)))
    filts = [e.filter] if kind == 'joint' else [e.trans_filter, e.asoh_filter]
    nd = sc.nx + sc.na
    M = max(1., np.abs(sc.a0).max() if sc.na and norm else 1.) ** 2
    ctx.check(e.num_state_dimensions == nd and len(e.state_names) == nd, 'dimensions', f'{e.num_state_dimensions} dimensions declared instead of {nd}')
    for i in range(1, len(sc.inputs)):
        if not sc.in_domain(e.state.get_mean(), e.state.get_covariance()):
            ctx.obs('left_domain')  # of the parameters of the circuit
            break
        hid, out = e.step(sc.input(i), sc.measurement(i))
        slack = 1e-11 * M * max(np.abs(f.hidden.get_covariance()).max() for f in filts)
        for f in filts:
            valid(ctx, f.hidden, f.hidden.num_dimensions, f'belief of the filter after step {i}')
        valid(ctx, hid, nd, f'belief returned by step {i}', slack)
        valid(ctx, e.state, nd, f'state after step {i}', slack)
        valid(ctx, out, 1, f'predicted output of step {i}')
        ctx.obs(f'{kind}_steps')


def joint(ctx):
    run(ctx, 'joint')


def dual(ctx):
    run(ctx, 'dual')


def curved(ctx):
    """Nonlinear systems whose central weight is negative, so that the published equations do not give a covariance by themselves"""
    from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter as UKF
    from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
    rng = ctx.rng
    n, o = int(rng.integers(2, 6)), int(rng.integers(1, 3))
    L = 2 * n + o
    A, H, G = orth(rng, n), rng.normal(size=(o, n)), rng.normal(size=(n, n))
    k = float(rng.uniform(.3, 2))

    def f(x, up, un):
        return A @ x + k * np.sin(G @ x) + .3 * k * np.cos(x)

    def h(x, u):
        return H @ x + k * np.tanh(H @ x ** 2)

    tun = dict(alpha_param=1., beta_param=float(rng.choice([0., 2.])), kappa_param='automatic' if rng.random() < .6 else -float(rng.uniform(.5, .9)) * L)
    full = dict(alpha=1., beta=tun['beta_param'], kappa=tun['kappa_param'])
    P, Q, R = C08.spd(rng, n, 10 ** rng.uniform(-1, .5)), C08.spd(rng, n, .01), C08.spd(rng, o, 10 ** rng.uniform(-3, -1))
    m = rng.normal(size=n)
    filt = UKF(C08.make_wrapper(f, h, n, o, []), MultivariateGaussian(mean=m.copy(), covariance=P.copy()), DeltaDistribution(mean=np.zeros(1)), Q, R, **tun)
    ctx.case(n=n, o=o, tuning=tun, P=P, A=A)
    for t in range(4):
        hm, hP = filt.hidden.get_mean(), filt.hidden.get_covariance()
        if np.linalg.eigvalsh(hP).min() > 1e-7 * np.abs(hP).max():  # what the equations give before any repair
            w = np.zeros((L, L))
            w[:n, :n], w[n:2 * n, n:2 * n], w[2 * n:, 2 * n:] = np.linalg.cholesky(hP), np.linalg.cholesky(Q), np.linalg.cholesky(R)
            g = np.sqrt(L + (3 - L if full['kappa'] == 'automatic' else full['kappa']))
            za = np.concatenate([hm, np.zeros(n + o)])
            raw, S = C08.expected_nonlinear(np.vstack([za, za + g * w.T, za - g * w.T]), n, o, full, lambda q: f(q, 0, 0), lambda q: h(q, 0), np.zeros(o))[1::2][:2]
            ev = np.linalg.eigvalsh(raw)
            ctx.obs('indefinite_posteriors', int(ev.min() < -1e-6 * np.abs(ev).max()))
            ctx.obs('indefinite_positive_diagonal', int(ev.min() < -1e-6 * np.abs(ev).max() and np.diag(raw).min() > 0))
            if np.linalg.eigvalsh(S).min() <= 1e-6:
                break  # the predicted output has no valid covariance: the gain means nothing
        x = f(hm, 0, 0) + rng.normal(size=n)
        hid, out = filt.step(DeltaDistribution(mean=np.zeros(1)), DeltaDistribution(mean=h(x, 0) + rng.normal(size=o)))
        if not np.abs(hid.get_covariance()).max() < 1e6:
            break
        for label, dd in (('returned belief', hid), ('belief', filt.hidden)):  # the output has no valid covariance by the equations alone
            valid(ctx, dd, n, f'{label} after step {t} of a curved system')
        ctx.obs('curved_steps')


WORKLOADS = [WL('repair', repair, 800, 12000), WL('degenerate', degenerate, 160, 3000), WL('joint', joint, 40, 700), WL('dual', dual, 40, 500), WL('curved', curved, 150, 4000)]
