"""C10: coordinate conversions of distributions"""
import numpy as np

from lib.harness import WL

RULE = ('A case is one conversion operator (identity; linear with scalar, vector, square or rectangular matrix, with or without offset; absolute '
        'value of all or some coordinates) applied to random samples, points and Gaussian distributions, forward and backward, or a random list of '
        'distributions to combine, or a user-defined nonlinear operator (logarithm, cube, arctangent, square root, mixed) run through the same monitors, or a set of badly shaped arguments. Operators, samples and distributions are compared with explicit formulas and '
        'numerical Jacobians, and snapshots of all arguments are compared afterwards. Distinct = operator and distribution.')
REQUIRED = dict(linear_scalar=20, linear_vector=20, linear_matrix=40, rectangular=10, offset=60, absolute=60, negative_means=40, identity=10, round_trips=150,
                sample_covariance=60, combined=60, rejected=300, jacobians=150, zero_means=50, nonlinear=60, nonlinear_round_trips=60, no_index=8)


def spd(rng, n):
    M = rng.normal(size=(n, n))
    d = 10 ** rng.uniform(-1, 1, n)
    return d[:, None] * (M @ M.T / n + .1 * np.eye(n)) * d


def operator(rng, n):
    """(operator, matrix M with y = x M + b or None, offset, kind)"""
    from moirae.estimators.online.filters.conversions import LinearConversionOperator as Lin, IdentityConversionOperator as Id
    from moirae.estimators.online.filters.conversions import AbsoluteValueConversionOperator as Abs
    kind = str(rng.choice(['identity', 'scalar', 'vector', 'matrix', 'matrix', 'rect', 'abs', 'abs']))
    if kind == 'identity':
        return Id(), np.eye(n), np.zeros(n), kind, None
    if kind == 'abs':
        idx = None if rng.random() < .4 else sorted(int(i) for i in rng.choice(n, int(rng.integers(1, n + 1)), replace=False))
        if idx is not None and rng.random() < .5:
            idx = list(rng.permutation(idx))
            idx = [int(i) for i in idx]
        if idx is not None and rng.random() < .15:
            idx = []  # none of them
        given = idx if idx is None or rng.random() < .7 else [i - n if rng.random() < .6 else i for i in idx]  # counted from the end
        return (Abs() if idx is None else Abs(indices=given)), None, None, kind, list(range(n)) if idx is None else idx
    m = n
    if kind == 'scalar':
        a = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-5, 5))
        mult, M = np.array(a), a * np.eye(n)
    elif kind == 'vector':
        mult = rng.choice([-1, 1], n) * 10 ** rng.uniform(-2, 2, n)
        if rng.random() < .3:  # all very small or very large
            mult = mult * 10 ** rng.uniform(-5, 5)
        M = np.diag(mult)
    elif kind == 'matrix':
        mult = M = rng.normal(size=(n, n)) + 2 * np.diag(rng.choice([-1., 1.], n))
        if np.linalg.cond(M) > 50:
            mult = M = np.linalg.qr(M)[0] * rng.uniform(.2, 3, n)
        if rng.random() < .3:
            mult = M = M * 10 ** rng.uniform(-5, 5)
    else:
        m = int(rng.integers(1, n + 1)) if rng.random() < .5 else n + int(rng.integers(1, 3))
        mult = M = rng.normal(size=(n, m))
        kind = 'rect' if m != n else 'matrix'
    u = rng.random()
    if u < .3:
        b, kw = np.zeros(m), {}
    elif u < .45:
        c = float(rng.normal() * 3)
        b, kw = np.full(m, c), dict(additive_array=np.array([c]) if rng.random() < .5 else np.array(c))
    else:
        b = rng.normal(size=m) * 3
        kw = dict(additive_array=b.copy())
    return Lin(multiplicative_array=np.array(mult, float), **kw), M, b, kind, None


def convert(ctx):
    from moirae.estimators.online.filters.distributions import MultivariateGaussian as G, DeltaDistribution as D
    rng = ctx.rng
    n = int(rng.integers(1, 7))
    op, M, b, kind, idx = operator(rng, n)
    mean = rng.normal(size=n) * 10 ** rng.uniform(-1, 2, n)
    if rng.random() < .2:
        mean = np.abs(mean)
    if rng.random() < .25:  # Zero is on the identity side of the absolute value
        mean[int(rng.integers(n))] = rng.choice([0., -0.])
        ctx.obs('zero_means')
    cov = spd(rng, n)
    ctx.case(kind=kind, n=n, M=M, b=b, idx=idx, mean=mean, cov=cov)
    ctx.obs(dict(identity='identity', scalar='linear_scalar', vector='linear_vector', matrix='linear_matrix', rect='rectangular', abs='absolute')[kind])
    ctx.obs('offset', int(b is not None and bool(np.any(b))))
    ctx.obs('no_index', int(kind == 'abs' and len(idx) == 0))
    ctx.obs('negative_means', int((mean < 0).any()))
    state = op.model_dump()
    state = {k: np.copy(v) if isinstance(v, np.ndarray) else v for k, v in state.items()}

    if kind == 'abs':
        sel = np.isin(np.arange(n), idx)

        def fwd(x):
            return np.where(sel, np.abs(x), x)

        def jac(x):  # J[i, j] = d y_j / d x_i
            return np.diag(np.where(sel & (x < 0), -1., 1.))
    else:
        def fwd(x):
            return x @ M + b

        def jac(x):
            return M

    # samples: one, many, many of one; C- and F-ordered, and of integers
    N = int(rng.choice([1, 2, n, n + 1, 7]))
    X = mean + rng.normal(size=(N, n)) @ np.linalg.cholesky(cov).T * 3
    X0, m0, c0 = X.copy(), mean.copy(), cov.copy()
    sc = np.abs(fwd(X)).max() + np.abs(X).max() * (1 if M is None else np.abs(M).sum()) + 1e-300
    Y = np.array(op.transform_samples(X))
    ctx.close(Y, fwd(X), 'samples', f'{N} samples through a {kind} operator', rtol=1e-10, atol=1e-12 * sc)
    ctx.check(np.array_equal(X, X0), 'samples-changed', 'the samples given were modified')
    for i in range(N):
        ctx.close(op.transform_samples(X[i].copy()), Y[i], 'single-sample', 'one sample alone and among others', rtol=1e-10, atol=1e-12 * sc)
    F = np.asfortranarray(X)
    ctx.close(op.transform_samples(F), Y, 'fortran', 'memory layout of the samples', rtol=1e-10, atol=1e-12 * sc)
    if rng.random() < .3:
        Z = rng.integers(-5, 6, (N, n))
        ctx.close(op.transform_samples(Z), fwd(Z.astype(float)), 'integers', 'integer samples', rtol=1e-10, atol=1e-10)

    # covariance: by the Jacobian at the pivot
    J = jac(mean)
    eps = 1e-6 * (1 + np.abs(mean))
    num = np.array([(fwd(mean + e) - fwd(mean - e)) / (2 * e.max()) for e in np.diag(np.where(mean == 0, 1e-9, np.minimum(eps, .5 * np.abs(mean))))])
    Jn = num if np.isfinite(num).all() and (mean != 0).all() else J
    ctx.close(J, Jn, 'oracle', 'jacobians of the reference', rtol=1e-5, atol=1e-5)
    cs = np.abs(J.T @ cov @ J).max() + np.abs(cov).max() * (np.abs(J).sum(axis=0).max() ** 2)
    got = np.array(op.transform_covariance(cov, mean))
    ctx.close(got, J.T @ cov @ J, 'covariance', f'covariance through a {kind} operator', rtol=1e-10, atol=1e-12 * cs)
    ctx.check(np.array_equal(cov, c0) and np.array_equal(mean, m0), 'covariance-changed', 'the covariance or pivot given was modified')
    ctx.obs('jacobians')
    # as the covariance of the samples (all on the same side, for the absolute value)
    S = mean + rng.normal(size=(n + 4, n)) * np.minimum(1., np.abs(mean) / 20)
    SY = np.array(op.transform_samples(S))
    J1 = jac(S[0])
    if all(np.array_equal(jac(s), J1) for s in S):
        A1 = np.atleast_2d(np.cov(SY.T))
        A2 = np.array(op.transform_covariance(np.atleast_2d(np.cov(S.T)), S.mean(axis=0)))
        ctx.close(A2, A1, 'sample-covariance', 'covariance of converted samples and converted covariance of samples', rtol=1e-7, atol=1e-10 * (1 + np.abs(A1).max()))
        ctx.obs('sample_covariance')

    # distributions
    g, d = G(mean=mean.copy(), covariance=cov.copy()), D(mean=mean.copy())
    gy, dy = g.convert(op), d.convert(conversion_operator=op)
    ctx.close(gy.get_mean(), fwd(mean), 'mean', 'mean of a converted Gaussian', rtol=1e-10, atol=1e-12 * sc)
    ctx.close(gy.get_covariance(), J.T @ cov @ J, 'gaussian-covariance', 'covariance of a converted Gaussian', rtol=1e-10, atol=1e-12 * cs)
    ctx.close(dy.get_mean(), fwd(mean), 'mean', 'mean of a converted point', rtol=1e-10, atol=1e-12 * sc)
    ctx.close(dy.get_covariance(), np.zeros((len(fwd(mean)),) * 2), 'point-covariance', 'covariance of a converted point', rtol=0, atol=0)
    ctx.check(type(gy) is G and type(dy) is D, 'type', 'type of the converted distributions')
    ctx.check(gy.num_dimensions == len(fwd(mean)), 'num_dimensions', 'dimensions of the converted distribution')
    # inverse
    m = len(fwd(mean))
    y = rng.normal(size=m) * 10 ** rng.uniform(-1, 1, m)
    Cy = spd(rng, m)
    y0, Cy0 = y.copy(), Cy.copy()
    if kind == 'abs':
        inv, Ji = (lambda v: v), np.eye(n)
    else:
        Mi = np.linalg.pinv(M)
        inv, Ji = (lambda v: (v - b) @ Mi), Mi
    ics = np.abs(Cy).max() * (np.abs(Ji).sum(axis=0).max() ** 2) + 1e-300
    isc = (np.abs(y).max() + (0 if b is None else np.abs(b).max())) * np.abs(Ji).sum() + 1e-300
    ctx.close(op.inverse_transform_samples(y), inv(y), 'inverse-samples', f'inverse of a {kind} operator', rtol=1e-9, atol=1e-11 * isc)
    YY = np.vstack([y, 2 * y, y - 1])
    ctx.close(op.inverse_transform_samples(YY), inv(YY), 'inverse-samples', f'inverse of a {kind} operator on several samples', rtol=1e-9, atol=1e-10 * isc * 3 + 1e-9 * np.abs(Ji).sum())
    ctx.close(op.inverse_transform_covariance(Cy, y), Ji.T @ Cy @ Ji, 'inverse-covariance', f'inverse covariance of a {kind} operator', rtol=1e-9, atol=1e-11 * ics)
    gi = G(mean=y.copy(), covariance=Cy.copy()).convert(op, inverse=True)
    ctx.close(gi.get_mean(), inv(y), 'inverse-mean', 'mean of a Gaussian converted back', rtol=1e-9, atol=1e-11 * isc)
    ctx.close(gi.get_covariance(), Ji.T @ Cy @ Ji, 'inverse-gaussian', 'covariance of a Gaussian converted back', rtol=1e-9, atol=1e-11 * ics)
    ctx.close(D(mean=y.copy()).convert(op, inverse=True).get_mean(), inv(y), 'inverse-mean', 'point converted back', rtol=1e-9, atol=1e-11 * isc)
    ctx.check(np.array_equal(y, y0) and np.array_equal(Cy, Cy0), 'inverse-changed', 'arguments of the inverse were modified')
    # there and back
    if kind in ('identity', 'scalar', 'vector', 'matrix') or (kind == 'abs' and (mean[idx] >= 0).all()):
        back = gy.convert(op, inverse=True)
        k = 1. if M is None else np.linalg.cond(M)
        ctx.close(back.get_mean(), mean, 'round-trip', 'mean converted there and back', rtol=1e-9, atol=1e-12 * k * (np.abs(mean).max() + isc + sc))
        ctx.close(back.get_covariance(), cov, 'round-trip', 'covariance converted there and back', rtol=1e-9, atol=1e-12 * k ** 2 * np.abs(cov).max() * 10)
        ctx.obs('round_trips')
        if kind == 'abs':
            ctx.close(gy.get_mean(), mean, 'absolute-identity', 'absolute value of non-negative means', rtol=0, atol=0)
            ctx.close(gy.get_covariance(), cov, 'absolute-identity', 'absolute value of non-negative means', rtol=1e-12, atol=0)
    # nothing involved has changed, nor is it shared with the results
    for dist, mm, cc in ((g, mean, cov), (d, mean, None)):
        ctx.check(np.array_equal(dist.get_mean(), mm), 'distribution-changed', 'mean changed by a conversion')
        ctx.check(cc is None or np.array_equal(dist.get_covariance(), cc), 'distribution-changed', 'covariance changed by a conversion')
    gm = gy.get_mean()
    gm += 1
    gc = gy.get_covariance()
    gc += 1
    ctx.close(gy.get_mean(), fwd(mean), 'accessor', 'mean changed through what get_mean returned', rtol=1e-10, atol=1e-12 * sc)
    ctx.close(gy.get_covariance(), J.T @ cov @ J, 'accessor', 'covariance changed through what get_covariance returned', rtol=1e-10, atol=1e-12 * cs)
    for k, v in op.model_dump().items():
        ctx.check(np.array_equal(v, state[k]), 'operator-changed', f'{k} of the operator changed')
    # deep copies work alike (the wrappers hold copies of operators)
    op2 = op.model_copy(deep=True)
    ctx.close(op2.transform_samples(X), Y, 'copy', 'copy of the operator', rtol=1e-12, atol=0)
    ctx.close(op2.inverse_transform_samples(y), inv(y), 'copy', 'copy of the operator', rtol=1e-9, atol=1e-11 * isc)


def nonlinear(ctx):
    """Operators which users derive from the first-order base class, as the documentation invites them to"""
    from moirae.estimators.online.filters.conversions import FirstOrderTaylorConversionOperator as Taylor
    from moirae.estimators.online.filters.distributions import MultivariateGaussian as G, DeltaDistribution as D
    rng = ctx.rng
    n = int(rng.integers(1, 6))
    F = dict(exp=(np.exp, np.log, np.exp, lambda y: 1 / y),
             log=(np.log, np.exp, lambda x: 1 / x, np.exp),
             cube=(lambda x: x ** 3, np.cbrt, lambda x: 3 * x ** 2, lambda y: 1 / (3 * np.cbrt(y) ** 2)),
             root=(np.sqrt, lambda y: y ** 2, lambda x: .5 / np.sqrt(x), lambda y: 2 * y),
             scaled=(lambda x: 5 * x - 2, lambda y: (y + 2) / 5, lambda x: 5 + 0 * x, lambda y: .2 + 0 * y))
    kinds = [str(k) for k in rng.choice(sorted(F), n)]
    pivots = []

    def each(which, x):
        return np.stack([F[k][which](x[..., i]) for i, k in enumerate(kinds)], axis=-1)

    class Op(Taylor):
        def transform_samples(self, samples):
            return each(0, samples)

        def inverse_transform_samples(self, transformed_samples):
            return each(1, transformed_samples)

        def get_jacobian(self, pivot):
            pivots.append(('forward', pivot.copy()))
            return np.diag(each(2, pivot))

        def get_inverse_jacobian(self, transformed_pivot):
            pivots.append(('inverse', transformed_pivot.copy()))
            return np.diag(each(3, transformed_pivot))

    op = Op()
    mean = rng.uniform(.3, 3, n)
    cov = spd(rng, n)
    ctx.case(kinds=kinds, mean=mean, cov=cov)
    g, d = G(mean=mean.copy(), covariance=cov.copy()), D(mean=mean.copy())
    J = np.diag(each(2, mean))
    gy = g.convert(op)
    ctx.close(gy.get_mean(), each(0, mean), 'nonlinear-mean', f'mean through {kinds}', rtol=1e-12, atol=0)
    ctx.close(gy.get_covariance(), J @ cov @ J, 'nonlinear-covariance', f'covariance through {kinds}', rtol=1e-9, atol=1e-12 * np.abs(J @ cov @ J).max())
    ctx.check(any(k == 'forward' for k, _ in pivots) and all(np.array_equal(p, mean) for k, p in pivots), 'nonlinear-pivot',
              'the Jacobian was not evaluated at the mean of the distribution')
    del pivots[:]
    back = gy.convert(op, inverse=True)
    ctx.close(back.get_mean(), mean, 'nonlinear-back', f'mean through {kinds} and back', rtol=1e-9, atol=0)
    ctx.close(back.get_covariance(), cov, 'nonlinear-back', f'covariance through {kinds} and back', rtol=1e-7, atol=1e-10 * np.abs(cov).max())
    ctx.check(any(k == 'inverse' for k, _ in pivots) and all(k == 'inverse' and np.allclose(p, each(0, mean), rtol=1e-12) for k, p in pivots), 'nonlinear-pivot',
              'the inverse Jacobian was not evaluated at the mean of the converted distribution')
    y = each(0, rng.uniform(.3, 3, n))
    Cy = spd(rng, n)
    Ji = np.diag(each(3, y))
    gi = G(mean=y.copy(), covariance=Cy.copy()).convert(conversion_operator=op, inverse=True)
    ctx.close(gi.get_mean(), each(1, y), 'nonlinear-inverse', 'mean of a Gaussian converted back', rtol=1e-9, atol=0)
    ctx.close(gi.get_covariance(), Ji @ Cy @ Ji, 'nonlinear-inverse', 'covariance of a Gaussian converted back', rtol=1e-9, atol=1e-12 * np.abs(Ji @ Cy @ Ji).max())
    ctx.close(d.convert(op).get_mean(), each(0, mean), 'nonlinear-mean', 'point', rtol=1e-12, atol=0)
    ctx.close(D(mean=y.copy()).convert(op, inverse=True).get_mean(), each(1, y), 'nonlinear-inverse', 'point converted back', rtol=1e-9, atol=0)
    ctx.check(np.array_equal(g.get_mean(), mean) and np.array_equal(g.get_covariance(), cov), 'distribution-changed', 'changed by a nonlinear conversion')
    ctx.obs('nonlinear')
    ctx.obs('nonlinear_round_trips')


def combine(ctx):
    from moirae.estimators.online.filters.distributions import MultivariateGaussian as G, DeltaDistribution as D
    rng = ctx.rng
    gaussian = bool(rng.random() < .6)
    sizes = [int(x) for x in rng.integers(1, 5, int(rng.integers(1, 6)))]
    ms = [rng.normal(size=s) for s in sizes]
    Cs = [spd(rng, s) if rng.random() < .85 else rng.normal(size=(s, s)) for s in sizes]
    ds = [G(mean=m.copy(), covariance=C.copy()) for m, C in zip(ms, Cs)] if gaussian else [D(mean=m.copy()) for m in ms]
    ctx.case(sizes=sizes, gaussian=gaussian, ms=ms[0])
    n = sum(sizes)
    want = np.zeros((n, n))
    if gaussian:
        i = 0
        for C in Cs:
            want[i:i + len(C), i:i + len(C)] = C
            i += len(C)
    others = [list, tuple, lambda x: (e for e in x)][int(rng.integers(3))](ds[1:])
    out = ds[0].combine_with(others)
    ctx.check(type(out) is type(ds[0]), 'combined-type', f'combination is a {type(out).__name__}')
    ctx.check(out.num_dimensions == n, 'combined-size', 'dimensions of the combination')
    ctx.close(out.get_mean(), np.concatenate(ms), 'combined-mean', 'mean of the combination', rtol=0, atol=0)
    ctx.close(out.get_covariance(), want, 'combined-cov', 'covariance of the combination', rtol=0, atol=0)
    for d, m, C in zip(ds, ms, Cs):
        ctx.check(np.array_equal(d.get_mean(), m), 'distribution-changed', 'mean changed by combining')
        ctx.check(np.array_equal(d.get_covariance(), C if gaussian else np.zeros((len(m), len(m)))), 'distribution-changed', 'covariance changed by combining')
    out.mean[:] = 99
    if gaussian:
        out.covariance[:] = 99
    for d, m, C in zip(ds, ms, Cs):
        ctx.check(np.array_equal(d.get_mean(), m), 'combined-shares', 'combination shares its mean with an ingredient')
        ctx.check(np.array_equal(d.get_covariance(), C if gaussian else np.zeros((len(m), len(m)))), 'combined-shares', 'combination shares its covariance with an ingredient')
    ctx.obs('combined')


def reject(ctx):
    """Badly shaped means and covariances"""
    from pydantic import ValidationError
    from moirae.estimators.online.filters.distributions import MultivariateGaussian as G, DeltaDistribution as D
    from moirae.estimators.online.filters.conversions import LinearConversionOperator as Lin
    rng = ctx.rng
    n, k = int(rng.integers(2, 6)), int(rng.integers(1, 4))
    E = (ValueError, TypeError, ValidationError)
    good = np.eye(n)
    means = [np.zeros((1, n)), np.zeros((n, 1)), np.zeros((n, n)), np.array(1.), np.zeros((1, 1, n)), np.zeros((2, n, 1))]
    covs = [np.eye(n + k), np.zeros((n, n + k)), np.zeros(n), np.zeros((n, n, 1)), np.zeros((1, n)), np.eye(max(n - k, 1)) if n - k != n else np.eye(1), np.zeros(n * n)]
    for m in means:
        ctx.raises(E, lambda: D(mean=m), 'bad-mean', f'point with mean of shape {m.shape}')
        ctx.raises(E, lambda: G(mean=m, covariance=good), 'bad-mean', f'Gaussian with mean of shape {m.shape}')
    for c in covs:
        ctx.raises(E, lambda: G(mean=np.zeros(n), covariance=c), 'bad-covariance', f'Gaussian of {n} dimensions with covariance of shape {c.shape}')
    ctx.raises(E, lambda: G(mean=np.zeros(n)), 'bad-covariance', f'Gaussian of {n} dimensions with the default covariance')
    # also later
    m0, c0 = rng.normal(size=n), spd(rng, n)
    g, d = G(mean=m0.copy(), covariance=c0.copy()), D(mean=m0.copy())

    def assign(o, f, v):
        setattr(o, f, v)

    for m in means:
        ctx.raises(E, lambda: assign(d, 'mean', m), 'bad-assignment', f'mean of shape {m.shape} assigned to a point')
        ctx.raises(E, lambda: assign(g, 'mean', m), 'bad-assignment', f'mean of shape {m.shape} assigned to a Gaussian')
    for c in covs:
        ctx.raises(E, lambda: assign(g, 'covariance', c), 'bad-assignment', f'covariance of shape {c.shape} assigned')
    ctx.raises(E, lambda: assign(g, 'mean', np.zeros(n + k)), 'bad-assignment', 'mean of another size assigned')
    # ... and valid assignments work
    m1, c1 = rng.normal(size=n), spd(rng, n)
    g2, d2 = G(mean=m0.copy(), covariance=c0.copy()), D(mean=m0.copy())
    g2.mean = m1.copy()
    g2.covariance = c1.copy()
    d2.mean = np.concatenate([m1, m1])
    ctx.close(g2.get_mean(), m1, 'assignment', 'mean assigned', rtol=0, atol=0)
    ctx.close(g2.get_covariance(), c1, 'assignment', 'covariance assigned', rtol=0, atol=0)
    ctx.close(d2.get_covariance(), np.zeros((2 * n, 2 * n)), 'assignment', 'covariance of a point after assignment', rtol=0, atol=0)
    # operators
    ctx.raises(E, lambda: Lin(multiplicative_array=np.zeros((n, n, 2))), 'bad-operator', 'three-dimensional factor')
    ctx.raises(E, lambda: Lin(multiplicative_array=np.eye(n), additive_array=np.zeros((n, n))), 'bad-operator', 'matrix as offset')
    ctx.case(n=n, k=k)
    ctx.obs('rejected', 2 * 2 * len(means) + 2 * len(covs) + 4)


WORKLOADS = [WL('convert', convert, 500, 12000), WL('nonlinear', nonlinear, 120, 3000), WL('combine', combine, 150, 3000), WL('reject', reject, 20, 200)]
