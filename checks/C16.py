"""C16: the offline loss scores, and the minimiser returns, what they claim"""
import copy

import numpy as np
import pandas as pd

from lib import ecm, est, gen, ref
from lib.harness import WL

RULE = ('A case is one circuit, one selection of parameters to estimate (in any order, or none), one dataset (noisy or not, temperatures complete, patchy or absent, odd indices, extra columns) and '
        'batches of candidate vectors. Every loss is compared with the mean squared error of voltages simulated one member at a time by lib/ref.py; the minimiser is watched through the '
        'log of candidates its objective receives, with several optimisation methods, on losses of circuits and on analytic ones. Distinct = circuit and data.')
REQUIRED = dict(members=700, batches=150, single=40, noise_free=40, none_updatable=10, no_temperature=10, patchy_temperature=10, repeated=100, unmodified=100, interleaved=60,
                minimised=35, objective_calls=2000, analytic=40, at_optimum=8, improved=50, negative_losses=12, default_call=2, one_row=2, odd_index=30, long_data=4)
ASSUMPTIONS = ['candidates stay within the domain of the circuits', 'methods of SciPy which keep their best iterate']


def dataset(ctx, sc, noisy=True):
    """(BatteryDataset, data frame) of the scenario's inputs and voltages"""
    from battdat.data import CellDataset
    rng = ctx.rng
    N = len(sc.inputs)
    temp = np.array([np.nan if u['temperature'] is None else u['temperature'] for u in sc.inputs], float)
    u = rng.random()
    with_col = True
    if u < .25:
        bad = rng.random(N) < .4
        temp[bad] = rng.choice([np.nan, np.inf, -np.inf], bad.sum())
        ctx.obs('patchy_temperature')
    elif u < .45:
        temp[:] = np.nan
        with_col = rng.random() < .5
        ctx.obs('no_temperature')
    for x, t in zip(sc.inputs, temp):
        x['temperature'] = float(t) if np.isfinite(t) else 25.
    off = sc.sx * rng.normal(size=sc.nx).clip(-2, 2), sc.sa * rng.normal(size=sc.na).clip(-2, 2)
    if not noisy:
        sc.noise = 0.
    sc.simulate(rng, *off)
    cols = dict(test_time=[x['time'] for x in sc.inputs], current=[x['current'] for x in sc.inputs], voltage=sc.volts)
    if with_col:
        cols['temperature'] = temp
    if rng.random() < .4:
        cols['cycle_number'] = np.sort(rng.integers(0, 4, N))
    df = pd.DataFrame(cols)
    df = df[list(rng.permutation(df.columns))]
    if rng.random() < .4:
        df.index = rng.permutation(N) if rng.random() < .5 else np.arange(N)[::-1] * 3 + 100
        ctx.obs('odd_index')
    data = CellDataset(raw_data=df)
    return data, df, np.concatenate([sc.x0 + off[0], sc.a0 + off[1]])


def want_loss(sc, x):
    """Mean over time of the squared error of one candidate"""
    p, st = sc.params(x[sc.nx:]), sc.unpack(x[:sc.nx])
    err = []
    for i, u in enumerate(sc.inputs):
        if i:
            st = ref.ecm_step(p, st, sc.inputs[i - 1], u, sc.mode)
        err.append(ref.ecm_voltage(p, st, u) - sc.volts[i])
    err = np.array(err)
    return float(np.mean(err ** 2)), float(np.abs(err).max())


def tol(value, worst, noise):
    """What the loss may be off by, when each voltage is accurate to ~1e-9"""
    return 1e-8 * value + 4e-9 * worst + 1e-16


def scenario(ctx, n=None, none=None):
    rng = ctx.rng
    none = rng.random() < .12 if none is None else none
    n = int(rng.choice([0, 1, int(rng.integers(2, 25)), int(rng.integers(60, 400))], p=[.04, .06, .83, .07])) if n is None else n
    sc = est.Scenario(rng, n_steps=n, order=str(rng.choice(['declared', 'shuffled'])), names=() if none else None, rel=.4, temps=str(rng.choice(['const', 'vary'])))
    ctx.obs('none_updatable', int(sc.na == 0))
    ctx.obs('one_row', int(n == 0))
    ctx.obs('long_data', int(n > 50))
    return sc


def listed(sc, asoh):
    """Names of the estimated parameters in the order in which the set of health parameters lists them"""
    return tuple(n for n, _ in asoh.iter_parameters())


def in_order(sc, names):
    """Make the scenario follow this order of parameters"""
    parts = dict(zip(sc.names, np.split(np.arange(sc.na), np.cumsum(sc.sizes)[:-1]) if sc.names else []))
    idx = np.concatenate([parts[n] for n in names]).astype(int) if names else np.zeros(0, int)
    sizes = dict(zip(sc.names, sc.sizes))
    sc.names, sc.sizes = tuple(names), [sizes[n] for n in names]
    sc.a0, sc.sa = sc.a0[idx], sc.sa[idx]


def candidates(sc, rng, B, rel=1.):
    x0, s = np.concatenate([sc.x0, sc.a0]), np.concatenate([sc.sx, sc.sa])
    out = x0 + rel * s * rng.normal(size=(B, len(x0))).clip(-2, 2)
    if rng.random() < .3:
        out[0] = x0
    if B > 1 and rng.random() < .2:
        out[-1] = out[0]
    return out


def snapshot(sc, loss, df):
    return dict(state=loss.state.to_numpy().copy(), asoh=ecm.asoh_snap(loss.asoh), upd=[n for n, _ in loss.asoh.iter_parameters()], data=loss.observations.tables['raw_data'].copy(),
                tables=sorted(loss.observations.tables))


def same(ctx, loss, before, label):
    ctx.check(np.array_equal(loss.state.to_numpy(), before['state']), 'loss-modified', f'{label}: state of the loss')
    now = ecm.asoh_snap(loss.asoh)
    ctx.check(all(np.array_equal(now[k], v) for k, v in before['asoh'].items()) and list(now) == list(before['asoh']), 'loss-modified', f'{label}: parameters of the loss')
    ctx.check([n for n, _ in loss.asoh.iter_parameters()] == before['upd'], 'loss-modified', f'{label}: which parameters are estimated')
    ctx.check(loss.observations.tables['raw_data'].equals(before['data']), 'loss-modified', f'{label}: observations')


def make_loss(ctx, sc, data, cls=None):
    """A loss, after checking that it does not hold the very objects it was given"""
    from moirae.estimators.offline.loss import MeanSquaredLoss
    asoh, st = sc.asoh(), sc.transients()
    loss = (cls or MeanSquaredLoss)(cell_model=sc.cell(), asoh=asoh, transient_state=st, observations=data)
    return loss, asoh, st


def evaluate(ctx):
    rng = ctx.rng
    sc = scenario(ctx)
    noise_free = rng.random() < .4
    data, df, truth = dataset(ctx, sc, noisy=not noise_free)
    loss, asoh, st = make_loss(ctx, sc, data)
    names = listed(sc, asoh)
    perm = sc.names
    t_by = dict(zip(perm, np.split(truth[sc.nx:], np.cumsum(sc.sizes)[:-1]) if perm else []))
    in_order(sc, names)
    truth = np.concatenate([truth[:sc.nx]] + [t_by[n] for n in names])
    ctx.case(**sc.describe(), volts=sc.volts[-1], last=sc.inputs[-1])
    given = ecm.asoh_snap(asoh), st.to_numpy().copy(), df.copy()
    before = snapshot(sc, loss, df)
    ctx.close(loss.get_x0(), np.concatenate([sc.x0, sc.a0]), 'initial-guess', f'{names}', rtol=1e-14, atol=0)
    first = {}
    for k in range(4):
        B = int(rng.choice([1, int(rng.integers(2, 7))]))
        X = candidates(sc, rng, B)
        keep = X.copy()
        got = loss(X)
        ctx.check(np.array_equal(X, keep), 'argument-modified', 'the candidates changed')
        ctx.check(np.shape(got) == (B,), 'shape', f'{np.shape(got)} for {B} candidates')
        for b in range(B):
            w, worst = want_loss(sc, X[b])
            ctx.check(abs(got[b] - w) <= tol(w, worst, sc.noise), 'loss', f'member {b} of {B}: {got[b]} instead of {w}', candidate=X[b], names=names)
            ctx.obs('members')
        ctx.obs('batches', int(B > 1))
        ctx.obs('single', int(B == 1))
        first[k] = X, np.array(got)
    for k in rng.permutation(4):
        X, v = first[k]
        ctx.check(np.allclose(loss(X), v, rtol=1e-9, atol=0), 'not-repeatable', 'the loss of the same candidates changed')
        ctx.obs('repeated')
    # members on their own
    X, v = first[3]
    b = int(rng.integers(len(X)))
    alone = float(loss(X[b:b + 1])[0])
    ctx.check(abs(alone - v[b]) <= tol(v[b], 1e-3 + np.sqrt(v[b]), 0), 'alone', f'{alone} alone and {v[b]} in a batch')
    ctx.close(loss.get_x0(), np.concatenate([sc.x0, sc.a0]), 'initial-guess', 'after use', rtol=1e-14, atol=0)
    if noise_free:
        z = float(loss(truth[None])[0])
        ctx.check(0 <= z < 1e-16 * max(1., np.max(np.abs(sc.volts)) ** 2), 'zero-at-truth', f'{z} at the parameters the data were made with')
        ctx.obs('noise_free')
    same(ctx, loss, before, 'after evaluations')
    after = ecm.asoh_snap(asoh)
    ctx.check(all(np.array_equal(after[k], w) for k, w in given[0].items()) and np.array_equal(st.to_numpy(), given[1]) and df.equals(given[2]), 'argument-modified',
              'objects given to the loss changed')
    ctx.obs('unmodified')
    # what happens to the objects given, or to another loss made with them, is not the concern of this loss
    other, _, _ = make_loss(ctx, sc, data)
    if sc.na:
        asoh.update_parameters(asoh.get_parameters() * 1.3)
    st.from_numpy(st.to_numpy() * 1.2 + .01)
    other(first[0][0])
    ctx.check(np.allclose(loss(X), v, rtol=1e-9, atol=0), 'shared', 'the loss depends on objects changed after it was made')
    ctx.close(loss.get_x0(), np.concatenate([sc.x0, sc.a0]), 'shared', 'initial guess after the objects given were changed', rtol=1e-14, atol=0)
    ctx.obs('interleaved')


METHODS = ['Nelder-Mead', 'Nelder-Mead', 'L-BFGS-B', 'BFGS', 'CG', 'Powell', None]


def run_minimiser(ctx, sc, loss, log, x0, kwargs, label, fixed_names):
    """Estimate and check what comes back. Returns the result"""
    from moirae.estimators.offline.scipy import ScipyMinimizer
    before = snapshot(sc, loss, None) if hasattr(loss.observations, 'tables') else None
    keep = copy.deepcopy({k: v for k, v in kwargs.items() if k != 'callback'})
    r = ScipyMinimizer(loss, **kwargs).estimate()
    ctx.check(len(r) == 3, 'result', f'{label}: {len(r)} results')
    st, asoh, res = r
    n = len(x0) - sum(fixed_names['sizes'])
    ctx.check(np.isfinite(res.x).all() and res.x.shape == x0.shape, 'result', f'{label}: {res.x}')
    ctx.close(st.to_numpy(), res.x[None, :n], 'returned-state', label, rtol=1e-14, atol=0)
    by = dict(asoh.iter_parameters(updatable_only=False))
    base = fixed_names['values']
    i = n
    for name, s in zip(fixed_names['names'], fixed_names['sizes']):
        ctx.close(np.ravel(by[name]), res.x[i:i + s], 'returned-parameters', f'{label}: {name}', rtol=1e-14, atol=0)
        i += s
    for name, v in base.items():
        if name not in fixed_names['names']:
            ctx.check(np.array_equal(by[name], v), 'fixed-changed', f'{label}: {name}', got=by[name], want=v)
    ctx.check(set(by) == set(base), 'result', f'{label}: parameters returned')
    if fixed_names['names']:
        ctx.close(np.ravel(asoh.get_parameters()), res.x[n:], 'returned-parameters', f'{label}: order', rtol=1e-14, atol=0)
    if before:
        same(ctx, loss, before, label)
    # which candidates were tried
    ctx.check(len(log) > 0 and all(x.ndim == 2 and x.shape[1] == len(x0) for x in log), 'candidates', f'{label}: shapes {set(x.shape for x in log)}')
    if res.get('nfev', 0) and len(x0):
        ctx.check(any(np.array_equal(x[0], x0) for x in log[:2]), 'starting-point', f'{label}: the initial guess was not tried', first=log[0], x0=x0)
        ctx.check(any(np.allclose(x[0], res.x, rtol=1e-12, atol=0) for x in log), 'solution', f'{label}: the solution was never evaluated', x=res.x)
    ctx.obs('objective_calls', len(log))
    f0, f1 = float(loss(x0[None])[0]), float(loss(res.x[None])[0])
    ctx.check(f1 <= f0 + 1e-9 * abs(f0) + 1e-15, 'worse', f'{label}: {f1} at the solution and {f0} at the initial guess')
    ctx.obs('improved', int(f1 < f0 - 1e-3 * abs(f0)))
    ctx.check(keep == {k: v for k, v in kwargs.items() if k != 'callback'}, 'argument-modified', f'{label}: options changed')
    return res


def minimise(ctx):
    from moirae.estimators.offline.loss import MeanSquaredLoss
    rng = ctx.rng
    sc = scenario(ctx, n=int(rng.integers(3, 15)), none=rng.random() < .15)
    data, df, truth = dataset(ctx, sc, noisy=rng.random() < .6)
    log = []

    class Logged(MeanSquaredLoss):
        def __call__(self, x):
            log.append(np.array(x))
            return super().__call__(x)
    loss, asoh, st = make_loss(ctx, sc, data, Logged)
    names = listed(sc, asoh)
    in_order(sc, names)
    x0, s = np.concatenate([sc.x0, sc.a0]), np.concatenate([sc.sx, sc.sa])
    method = METHODS[int(rng.integers(len(METHODS)))]
    ctx.case(**sc.describe(), method=str(method), volts=sc.volts[-1])
    kw = {} if method is None else dict(method=method)
    maxit = int(rng.integers(2, 25)) if method in ('Nelder-Mead',) else int(rng.integers(1, 4))
    kw['options'] = dict(maxiter=maxit)
    if method is None:
        ctx.obs('default_call')
    bounds = None
    if method in ('Powell', 'L-BFGS-B') or (method == 'Nelder-Mead' and rng.random() < .4):
        bounds = [(float(a - 2 * b), float(a + 2 * b)) for a, b in zip(x0, s)]
        kw['bounds'] = bounds
    steps = []
    if rng.random() < .5:
        kw['callback'] = lambda xk: steps.append(np.array(xk))
    info = dict(names=names, sizes=list(sc.sizes), values=ecm.asoh_snap(asoh))
    res = run_minimiser(ctx, sc, loss, log, x0, kw, f'{method}', info)
    ctx.obs('minimised')
    ctx.check(res.get('nit', 0) <= maxit, 'options-lost', f'{res.get("nit")} iterations although at most {maxit} were asked for')
    if bounds:
        lo, hi = np.array(bounds).T
        ctx.check(((res.x >= lo - 1e-9 * s) & (res.x <= hi + 1e-9 * s)).all(), 'options-lost', 'solution beyond the bounds', x=res.x, bounds=bounds)
    if 'callback' in kw:
        ctx.check(len(steps) > 0 or res.get('nit', 0) == 0, 'options-lost', 'callback not called')
    w, worst = want_loss(sc, res.x)
    got = float(loss(res.x[None])[0])
    if np.isfinite(w):
        ctx.check(abs(got - w) <= tol(w, worst, 0) * 10, 'loss', f'{got} instead of {w} at the solution')


def analytic(ctx):
    """Objective functions with known minima, over the same kinds of states and parameters"""
    from moirae.estimators.offline.loss import BaseLoss
    rng = ctx.rng
    sc = scenario(ctx, n=2)
    asoh = sc.asoh()
    names = listed(sc, asoh)
    in_order(sc, names)
    x0, s = np.concatenate([sc.x0, sc.a0]), np.concatenate([sc.sx, sc.sa])
    target = x0 + s * rng.normal(size=len(x0))
    # scales which the optimisers can handle, different for every coordinate
    c = rng.uniform(1, 3, len(x0)) / np.maximum(s, 1e-12)
    start_at_optimum = rng.random() < .25
    if start_at_optimum:
        target = x0.copy()
    height = float(rng.choice([0., rng.uniform(.1, 10), -rng.uniform(.1, 10), -1e4]))
    size = float(10 ** rng.uniform(-6, 3)) if rng.random() < .6 else 1.
    log = []

    class Bowl(BaseLoss):
        def __call__(self, x):
            log.append(np.array(x))
            return size * ((c * (x - target)) ** 2).sum(axis=1) + height * size
    loss, asoh, st = make_loss(ctx, sc, None, Bowl)
    ctx.case(**sc.describe(), height=height, size=size, target=target)
    ctx.obs('negative_losses', int(height < 0))
    ctx.close(loss.get_x0(), x0, 'initial-guess', 'analytic loss', rtol=1e-14, atol=0)
    method = str(rng.choice(['L-BFGS-B', 'Nelder-Mead', 'Powell']))
    kw = dict(method=method, options=dict(maxiter=100 * len(x0) if method == 'Nelder-Mead' else 40))
    info = dict(names=names, sizes=list(sc.sizes), values=ecm.asoh_snap(asoh))
    run_minimiser(ctx, sc, loss, log, x0, kw, f'analytic, {method}', info)
    ctx.obs('analytic')
    ctx.obs('at_optimum', int(start_at_optimum))


WORKLOADS = [WL('evaluate', evaluate, 160, 5000), WL('minimise', minimise, 60, 1600), WL('analytic', analytic, 80, 2000)]
