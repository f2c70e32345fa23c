"""C12: online estimators wire the cell model, the filters and the health parameters correctly"""
import numpy as np

from lib import est, gen
from lib.harness import WL

RULE = ('A case is one circuit with a random subset (in random order through wrappers) of estimated parameters, priors and noises (joint or separate), tunings and a '
        'history. Every step of the estimator is compared with the unscented filter equations over the reference circuit of lib/ref.py, starting from the belief it '
        'held, and the whole run with a reference estimator which never looks at it. Wrappers are also evaluated on random hidden states. '
        'Distinct = circuit, names, covariances.')
REQUIRED = dict(joint_steps=200, dual_steps=200, run_comparisons=150, through_wrapper=25, through_initializer=25, none_estimated=2, vector_parameters=25, wrapper_rows=400,
                object_checks=300, default_noise=6, reordered=8, insensitive=3, late_inputs=10, multi_rc=10, silent_steps=200, far_soc=20, uncertain_inputs=10)
ASSUMPTIONS = ['inputs and measurements are not batched', 'beliefs stay within the domain of the circuits']




def make(ctx, kind):
    rng = ctx.rng
    wrapper = bool(rng.random() < .55)
    special = rng.random()
    names, kw = None, {}
    if special < .1:  # parameters the measurement may not depend on
        names, kw = ['ce'], dict(mode='constant')
        ctx.obs('insensitive')
    elif special < .18:
        names, kw = ['ocv.ocv_ent.base_values'], dict(temps='none')
        ctx.obs('insensitive')
    while True:
        sc = est.Scenario(rng, n_steps=int(rng.integers(3, 14)), rel=.4, order='any' if wrapper else 'declared', names=names, noise=2e-3, repeat_p=.05, **kw)
        if kind == 'dual' and sc.na == 0:
            continue
        if sc.nx + sc.na <= 30:
            break
    return sc, wrapper


def build(ctx, kind, sc, wrapper):
    """(estimator, priors, noises and tunings it should be using)"""
    from moirae.estimators.online.joint import JointEstimator
    from moirae.estimators.online.dual import DualEstimator
    from moirae.estimators.online.utils.model import JointCellModelWrapper, CellModelWrapper, DegradationModelWrapper
    rng = ctx.rng
    first = 0
    late = bool(rng.random() < .25)
    if late:
        first = len(sc.inputs) - 1
        ctx.obs('late_inputs')
    asoh = sc.asoh()
    pool = [p for p in gen.param_paths(sc.spec) if p not in sc.names]
    if wrapper and rng.random() < .6:  # others may be updated as well, but are not estimated
        for p in rng.choice(pool, min(3, len(pool)), replace=False):
            asoh.mark_updatable(str(p))
        ctx.obs('reordered')
    args = dict(asoh=asoh, transients=sc.transients(), inputs=sc.input(first))
    names = sc.names
    if wrapper and rng.random() < .5:
        names = list(names)
    R = sc.R
    if kind == 'joint':
        kw, P, Q = sc.joint_covs(rng)
        tun = est.tuning(rng, 2 * (sc.nx + sc.na) + 1)
        if rng.random() < .1:
            for k in ('joint_covariance_process_noise', 'transient_covariance_process_noise', 'asoh_covariance_process_noise'):
                kw.pop(k, None)
            Q = 1e-8 * np.eye(len(P))
            ctx.obs('default_noise')
    else:
        kw = dict(covariance_transient=sc.Px.copy(), covariance_asoh=sc.Pa.copy())
        P, Q = (sc.Px, sc.Pa), [1e-8 * np.eye(sc.nx), 1e-8 * np.eye(sc.na)]
        tun = [est.tuning(rng, 2 * sc.nx + 1), est.tuning(rng, 2 * sc.na + 1)]
        if rng.random() < .9:
            kw['transient_covariance_process_noise'], Q[0] = sc.Qx.copy(), sc.Qx
        if rng.random() < .9:
            kw['asoh_covariance_process_noise'], Q[1] = sc.Qa.copy(), sc.Qa
        ctx.obs('default_noise', int(len(kw) < 4))
        kw['covariance_sensor_noise'] = sc.R.copy()
    if rng.random() < .05:
        kw.pop('covariance_sensor_noise')
        R = np.array([[1e-8]])
        ctx.obs('default_noise')
    if rng.random() < .2:
        k = 2 + (sc.inputs[0]['temperature'] is not None)
        U = rng.normal(size=(k, k)) * 1e-2
        kw['inputs_uncertainty'] = U @ U.T
    fa = {}
    if kind == 'joint':
        if tun or rng.random() < .5:
            fa = dict(filter_args=tun)
    elif any(tun) or rng.random() < .5:
        fa = dict(filter_args=dict(transient=tun[0], asoh=tun[1]))
        if not tun[0] and rng.random() < .5:
            del fa['filter_args']['transient']
        if not tun[1] and rng.random() < .5:
            del fa['filter_args']['asoh']
    cell = sc.cell()
    if wrapper:
        ctx.obs('through_wrapper')
        if kind == 'joint':
            e = JointEstimator.initialize_ukf_from_wrapper(joint_wrapper=JointCellModelWrapper(cell_model=cell, **args, asoh_inputs=names), **kw, **fa)
        else:
            e = DualEstimator.initialize_ukf_from_wrappers(transient_wrapper=CellModelWrapper(cell_model=cell, **args),
                                                           asoh_wrapper=DegradationModelWrapper(cell_model=cell, **args, asoh_inputs=names), **kw, **fa)
    else:
        ctx.obs('through_initializer')
        cls = JointEstimator if kind == 'joint' else DualEstimator
        extra = dict(normalize_asoh=True) if rng.random() < .3 and 'covariance_sensor_noise' in kw and len(kw) >= 3 and 1e-8 not in [np.max(q) for q in (Q if kind == 'dual' else [Q])] else {}
        e = cls.initialize_unscented_kalman_filter(cell_model=cell, initial_asoh=args['asoh'], initial_transients=args['transients'], initial_inputs=args['inputs'], **kw, **fa, **extra)
    ctx.obs('uncertain_inputs', int('inputs_uncertainty' in kw))
    for f in ([e.filter] if kind == 'joint' else [e.trans_filter, e.asoh_filter]):  # inputs are exact unless said otherwise
        ctx.close(f.controls.get_covariance(), kw.get('inputs_uncertainty', np.zeros((len(sc.inputs[0]),) * 2)[:f.controls.num_dimensions, :f.controls.num_dimensions]),
                  'inputs-uncertainty', 'uncertainty of the inputs held by the filter', rtol=1e-9, atol=1e-15)
    if late:
        e.set_previous_inputs(sc.input(0))
    ctx.obs('none_estimated', int(sc.na == 0))
    ctx.obs('vector_parameters', int(any(s > 1 for s in sc.sizes)))
    ctx.obs('multi_rc', int(len(sc.spec['rc']) > 1))
    ctx.case(**sc.describe(), kind=kind, wrapper=wrapper, covs=sorted(kw), tun=tun, P=P)
    return e, P, Q, R, tun


def joint_ref(sc, m, P, Q, R, tun, up, un, y):
    k = sc.nx
    base = sc.mem
    f = lambda z: np.concatenate([sc.advance(z[:k], z[k:], up, un, base), z[k:]])
    h = lambda z: sc.voltage(z[:k], z[k:], un, base)
    pts = est.sigma_points(m, P, Q, R, **{a.replace('_param', ''): v for a, v in tun.items() if a != 'beta_param'})
    return est.ukf_step(pts, len(m), 1, tun, f, h, y)


def dual_ref(sc, ms, Ps, Qs, R, tuns, up, un, y):
    (x, a), out = ms, []
    f = lambda z: sc.advance(z, a, up, un)
    h = lambda z: sc.voltage(z, a, un)
    g = lambda z: sc.voltage(sc.advance(x, z, up, un), z, un)
    for m, P, Q, tun, ff, hh in ((x, Ps[0], Qs[0], tuns[0], f, h), (a, Ps[1], Qs[1], tuns[1], lambda z: z, g)):
        pts = est.sigma_points(m, P, Q, R, **{k.replace('_param', ''): v for k, v in tun.items() if k != 'beta_param'})
        out.append(est.ukf_step(pts, len(m), 1, tun, ff, hh, y))
    return out


def agree(ctx, dist, m, P, Pp, label, tol):
    """Belief against what it should be, in units of the predicted standard deviations"""
    sd = np.sqrt(np.maximum(np.diag(Pp), 1e-300))
    d = np.abs(dist.get_mean() - m) / sd
    lim = tol + 1e-10 * np.abs(m) / sd
    ctx.check(dist.get_mean().shape == m.shape, f'{label}-shape', f'{label}: shape {dist.get_mean().shape}')
    ctx.check((d <= lim).all(), f'{label}-mean', f'{label}: mean differs by {d.max():.3g} standard deviations', got=dist.get_mean(), want=m, sd=sd)
    r = np.abs(dist.get_covariance() - P) / np.outer(sd, sd)
    ctx.check(r.max() <= 10 * tol, f'{label}-cov', f'{label}: covariance differs by {r.max():.3g} of the variances', got=dist.get_covariance(), want=P)


def good(P, like=None):
    return np.linalg.eigvalsh(est.scaled(P, like)).min() > 1e-7


def objects(ctx, e, sc, orig, i):
    """Names, reported state, and estimated objects all describe the same thing"""
    m = e.state.get_mean()
    ctx.check(tuple(e.state_names) == sc.state_names(), 'state-names', f'{e.state_names} instead of {sc.state_names()}')
    ctx.check(tuple(e.output_names) == ('terminal_voltage',), 'output-names', f'{e.output_names}')
    ctx.check(e.num_state_dimensions == sc.nx + sc.na and e.num_output_dimensions == 1, 'num-dimensions', f'{e.num_state_dimensions} and {e.num_output_dimensions}')
    ctx.check(tuple(e.control_names) == ('time', 'current') + (() if sc.inputs[0]['temperature'] is None else ('temperature',)), 'control-names', f'{e.control_names}')
    t, a = e.get_estimated_state()
    names = list(t.all_names)
    ctx.close(t.to_numpy(), m[None, :sc.nx], 'estimated-transient', f'transient estimated after step {i}', rtol=1e-9, atol=1e-12)
    ctx.check(tuple(names) == sc.state_names()[:sc.nx], 'estimated-transient', f'names of the transient {names}')
    vals = dict(a.iter_parameters(updatable_only=False))
    k = sc.nx
    for n, s in zip(sc.names, sc.sizes):
        ctx.close(np.ravel(vals[n]), m[k:k + s], 'estimated-asoh', f'{n} estimated after step {i}', rtol=1e-9, atol=1e-12)
        k += s
    for n, v in vals.items():
        if n not in sc.names:
            ctx.check(np.array_equal(v, orig[n]), 'fixed-changed', f'{n} is not estimated, but changed after step {i}', got=v, want=orig[n])
    ctx.check(set(vals) == set(orig), 'estimated-asoh', f'parameters {sorted(set(vals) ^ set(orig))}')
    ctx.obs('object_checks')


def snapshot(a):
    return {k: np.copy(v) for k, v in a.iter_parameters(updatable_only=False)}


def run_joint(ctx):
    sc, wrapper = make(ctx, 'joint')
    e, P, Q, R, tun = build(ctx, 'joint', sc, wrapper)
    orig = snapshot(sc.asoh())
    m = np.concatenate([sc.x0, sc.a0])
    agree(ctx, e.state, m, P, P, 'initial', 1e-9)
    objects(ctx, e, sc, orig, 0)
    rm, rP, sync = m.copy(), P.copy(), True
    for i in range(1, len(sc.inputs)):
        hm, hP = e.state.get_mean(), e.state.get_covariance()
        if not sc.in_domain(hm, hP) or not good(hP):
            ctx.obs('stopped')
            break
        y = np.array([sc.volts[i]])
        w = joint_ref(sc, hm, hP, Q, R, tun, sc.inputs[i - 1], sc.inputs[i], y)
        hid, out = e.step(sc.input(i), sc.measurement(i))
        if not w['psd']:
            ctx.obs('stopped')
            break
        tol = 1e-6 * max(1., w['wmax'])
        agree(ctx, hid, w['m'], w['P'], w['Px'], 'joint', tol)
        agree(ctx, out, w['y'], w['S'], w['S'], 'joint-output', tol)
        agree(ctx, e.state, hid.get_mean(), hid.get_covariance(), w['Px'], 'returned', 1e-9)
        objects(ctx, e, sc, orig, i)
        ctx.obs('joint_steps')
        if sync:
            w = joint_ref(sc, rm, rP, Q, R, tun, sc.inputs[i - 1], sc.inputs[i], y)
            rm, rP = w['m'], w['P']
            sync = w['psd'] and i < 10
            if sync:
                agree(ctx, hid, rm, rP, w['Px'], 'joint-run', 1e-4 * max(1., w['wmax']))
                ctx.obs('run_comparisons')


def run_dual(ctx):
    sc, wrapper = make(ctx, 'dual')
    e, P, Q, R, tun = build(ctx, 'dual', sc, wrapper)
    orig = snapshot(sc.asoh())
    k = sc.nx
    m0 = np.concatenate([sc.x0, sc.a0])
    agree(ctx, e.state, m0, est.blk(*P), est.blk(*P), 'initial', 1e-9)
    objects(ctx, e, sc, orig, 0)
    rm, rP, sync = [sc.x0, sc.a0], list(P), True
    for i in range(1, len(sc.inputs)):
        hm, hP = e.state.get_mean(), e.state.get_covariance()
        if not sc.in_domain(hm, hP) or not good(hP):
            ctx.obs('stopped')
            break
        y = np.array([sc.volts[i]])
        w = dual_ref(sc, (hm[:k], hm[k:]), (hP[:k, :k], hP[k:, k:]), Q, R, tun, sc.inputs[i - 1], sc.inputs[i], y)
        hid, out = e.step(sc.input(i), sc.measurement(i))
        if not (w[0]['psd'] and w[1]['psd']):
            ctx.obs('stopped')
            break
        tol = 1e-6 * max(1., w[0]['wmax'], w[1]['wmax'])
        Px = est.blk(w[0]['Px'], w[1]['Px'])
        agree(ctx, hid, np.concatenate([w[0]['m'], w[1]['m']]), est.blk(w[0]['P'], w[1]['P']), Px, 'dual', tol)
        agree(ctx, out, w[0]['y'], w[0]['S'], w[0]['S'], 'dual-output', tol)
        agree(ctx, e.state, hid.get_mean(), hid.get_covariance(), Px, 'returned', 1e-9)
        objects(ctx, e, sc, orig, i)
        ctx.obs('dual_steps')
        if sync:
            w = dual_ref(sc, rm, rP, Q, R, tun, sc.inputs[i - 1], sc.inputs[i], y)
            rm, rP = [v['m'] for v in w], [v['P'] for v in w]
            sync = w[0]['psd'] and w[1]['psd'] and i < 10
            if sync:
                agree(ctx, hid, np.concatenate(rm), est.blk(*rP), est.blk(*[v['Px'] for v in w]), 'dual-run', 1e-4 * max(1., w[0]['wmax'], w[1]['wmax']))
                ctx.obs('run_comparisons')


def wrappers(ctx):
    """Wrappers evaluated directly on random hidden states"""
    from moirae.estimators.online.utils.model import JointCellModelWrapper, CellModelWrapper, DegradationModelWrapper, convert_vals_model_to_filter
    from checks.C11 import diag_op
    rng = ctx.rng
    sc = est.Scenario(rng, n_steps=6, rel=.3, order='any', repeat_p=0., no_rest=True, dt_range=(.5, 3.))
    if sc.na == 0:
        sc = est.Scenario(rng, n_steps=6, rel=.3, names=['r0.base_values'], repeat_p=0., no_rest=True, dt_range=(.5, 3.))
    i = int(rng.integers(1, len(sc.inputs)))
    up, un = sc.inputs[i - 1], sc.inputs[i]
    conv = bool(rng.random() < .5)
    args = dict(cell_model=sc.cell(), asoh=sc.asoh(), transients=sc.transients(), inputs=sc.input(0))
    N = int(rng.integers(1, 9))
    X = sc.x0 + sc.sx * rng.normal(size=(N, sc.nx))
    A = sc.a0 + sc.sa * rng.normal(size=(N, sc.na)).clip(-3, 3)
    if rng.random() < .3:  # beliefs may leave the range of charge
        X[:, 0] += rng.uniform(-.9, .9, N)
        ctx.obs('far_soc', int(((X[:, 0] < -.2) | (X[:, 0] > 1.2)).sum()))
    ctx.case(**sc.describe(), N=N, conv=conv)
    cu, cn = gen.build_input(up).to_numpy().ravel(), gen.build_input(un).to_numpy().ravel()

    def ops(scale):
        if not conv:
            return {}, [lambda v: v] * 3, [lambda v: v] * 3
        o = dict(hidden_conversion_operator=diag_op(rng, scale)[0], control_conversion_operator=diag_op(rng, np.abs(cn) + 1)[0], output_conversion_operator=diag_op(rng, np.ones(1))[0])
        l = [o[k + '_conversion_operator'] for k in ('hidden', 'control', 'output')]
        return dict(converters=o), [x.inverse_transform_samples for x in l], [x.transform_samples for x in l]

    def cmp(w, to, back, Z, want_state, want_y, label, scale, first=True):
        ctx.check(w.num_hidden_dimensions == Z.shape[1] and w.num_output_dimensions == 1, 'wrapper-dimensions', f'{label}: {w.num_hidden_dimensions}, {w.num_output_dimensions}')
        H = to[0](Z)
        H0 = H.copy()
        pc, nc = (to[1](cu), to[1](cn)) if rng.random() < .5 else (to[1](cu)[None], to[1](cn)[None])
        S = back[0](np.array(w.update_hidden_states(hidden_states=H, previous_controls=pc, new_controls=nc)))
        ctx.check(np.array_equal(H, H0), 'wrapper-changed', f'{label}: hidden states given were modified')
        S = np.broadcast_to(S, Z.shape)
        ctx.check((np.abs(S - want_state) <= 1e-6 * scale + 1e-9 * np.abs(want_state)).all(), f'{label}-update', f'{label}: updated hidden states', got=S, want=want_state)
        V = back[2](np.array(w.predict_measurement(hidden_states=H, controls=nc)))
        ctx.check(np.array_equal(H, H0), 'wrapper-changed', f'{label}: hidden states given were modified')
        ctx.close(np.broadcast_to(V, (N, 1)), want_y, f'{label}-measurement', f'{label}: predicted measurements', rtol=1e-6, atol=1e-7)
        ctx.obs('wrapper_rows', N)

    Z = np.hstack([X, A])
    scale = np.concatenate([sc.sx, sc.sa])
    kw, to, back = ops(10 * scale)
    w = JointCellModelWrapper(**args, asoh_inputs=sc.names, **kw)
    cmp(w, to, back, Z, np.array([np.concatenate([sc.advance(x, a, up, un), a]) for x, a in zip(X, A)]), np.array([sc.voltage(x, a, un) for x, a in zip(X, A)]), 'joint-wrapper', scale)
    a, t = w.create_cell_model_inputs(to[0](Z))
    ctx.close(t.to_numpy(), X, 'split', 'transients in the hidden states', rtol=1e-9, atol=1e-9 * np.abs(X).max())
    ctx.close(a.get_parameters(sc.names), A, 'split', 'parameters in the hidden states', rtol=1e-8, atol=1e-9 * np.abs(Z).max())
    ctx.close(back[0](w.create_hidden_state(a, t)), Z, 'join', 'hidden states made of transients and parameters', rtol=1e-8, atol=1e-9 * np.abs(Z).max())
    # transients alone
    kw, to, back = ops(10 * sc.sx)
    w = CellModelWrapper(**args, **kw)
    cmp(w, to, back, X, np.array([sc.advance(x, sc.a0, up, un) for x in X]), np.array([sc.voltage(x, sc.a0, un) for x in X]), 'cell-wrapper', sc.sx)
    # parameters alone: the prediction propagates the transients from the previous to the new inputs
    kw, to, back = ops(10 * sc.sa)
    w = DegradationModelWrapper(**args, asoh_inputs=sc.names, **kw)
    cmp(w, to, back, A, A, np.array([sc.voltage(sc.advance(sc.x0, a, up, un), a, un) for a in A]), 'asoh-wrapper', sc.sa)
    # conversion of containers
    U = rng.normal(size=(len(cn), len(cn)))
    d = convert_vals_model_to_filter(gen.build_input(un))
    ctx.close(d.get_mean(), cn, 'to-filter', 'inputs as a point', rtol=0, atol=0)
    d = convert_vals_model_to_filter(gen.build_input(un), U @ U.T)
    ctx.close(d.get_mean(), cn, 'to-filter', 'inputs as a Gaussian', rtol=0, atol=0)
    ctx.close(d.get_covariance(), U @ U.T, 'to-filter', 'inputs as a Gaussian', rtol=0, atol=0)


def silent(ctx):
    """No process noise is different from not saying which: what is not disturbed never gets less certain"""
    from moirae.estimators.online.joint import JointEstimator
    from moirae.estimators.online.dual import DualEstimator
    rng = ctx.rng
    names = ['r0.base_values', 'h0.base_values', 'r0.temperature_dependence_factor']
    names = [names[i] for i in sorted(rng.choice(3, int(rng.integers(1, 4)), replace=False))]
    sc = est.Scenario(rng, n_steps=8, rel=.05, names=names, noise=1., repeat_p=0., has_c0=False)
    kind = 'joint' if rng.random() < .4 else 'dual'
    R = np.array([[float(10 ** rng.uniform(0, 2))]])
    args = dict(cell_model=sc.cell(), initial_asoh=sc.asoh(), initial_transients=sc.transients(), initial_inputs=sc.input(0), covariance_transient=sc.Px.copy(),
                covariance_asoh=sc.Pa.copy(), covariance_sensor_noise=R, normalize_asoh=bool(rng.random() < .3))
    Z = dict(transient_covariance_process_noise=np.zeros_like(sc.Px), asoh_covariance_process_noise=np.zeros_like(sc.Pa))
    if kind == 'joint':
        if rng.random() < .5:
            Z = dict(joint_covariance_process_noise=np.zeros_like(sc.Pj))
        e = JointEstimator.initialize_unscented_kalman_filter(**args, **Z)
    else:
        which = int(rng.integers(3))  # one of them may be left out
        if which:
            Z.pop(['asoh', 'transient'][which - 1] + '_covariance_process_noise')
        e = DualEstimator.initialize_unscented_kalman_filter(**args, **Z)
    ctx.case(**sc.describe(), kind=kind, zero=sorted(Z))
    quiet = []
    if 'joint_covariance_process_noise' in Z or 'asoh_covariance_process_noise' in Z:
        quiet += list(range(sc.nx, sc.nx + sc.na))
    if 'joint_covariance_process_noise' in Z or 'transient_covariance_process_noise' in Z:
        quiet.append(0)
    var = np.diag(e.state.get_covariance()).copy()
    for i in range(1, len(sc.inputs)):
        if not sc.in_domain(e.state.get_mean(), e.state.get_covariance()):
            ctx.obs('stopped')
            break
        hid, _ = e.step(sc.input(i), sc.measurement(i))
        new = np.diag(hid.get_covariance()).copy()
        for k in range(len(var)):
            if k in quiet:
                ctx.check(new[k] <= var[k] * (1 + 1e-7) + 1e-12, 'zero-noise', f'{e.state_names[k]} became less certain without process noise: {var[k]} to {new[k]}')
            elif k == 0 or k >= sc.nx and not args['normalize_asoh']:  # the documented default
                if new[k] > var[k]:
                    ctx.close(new[k] - var[k], 1e-8, 'default-noise', f'growth of the variance of {e.state_names[k]} with the default process noise', rtol=.05,
                              atol=1e-7 * var[k] + var[k] ** 2)
        var = new
        ctx.obs('silent_steps')


def rejects(ctx):
    """Estimators refuse filters over the wrong wrapper, batches, and inconsistent inputs"""
    from moirae.estimators.online.joint import JointEstimator
    from moirae.estimators.online.dual import DualEstimator
    from moirae.estimators.online.utils.model import JointCellModelWrapper, CellModelWrapper, DegradationModelWrapper
    rng = ctx.rng
    sc = est.Scenario(rng, n_steps=2, names=['r0.base_values'])
    ctx.case(**sc.describe())
    E = (ValueError, AssertionError)
    args = dict(cell_model=sc.cell(), asoh=sc.asoh(), transients=sc.transients(), inputs=sc.input(0))
    d = DualEstimator.initialize_unscented_kalman_filter(sc.cell(), sc.asoh(), sc.transients(), sc.input(0), sc.Px, sc.Pa)
    j = JointEstimator.initialize_unscented_kalman_filter(sc.cell(), sc.asoh(), sc.transients(), sc.input(0), covariance_joint=sc.Pj)
    ctx.raises(E, lambda: JointEstimator(d.trans_filter), 'wrong-wrapper', 'joint estimator over a filter of transients')
    ctx.raises(E, lambda: JointEstimator(d.asoh_filter), 'wrong-wrapper', 'joint estimator over a filter of parameters')
    ctx.raises(E, lambda: DualEstimator(d.asoh_filter, d.trans_filter), 'wrong-wrapper', 'dual estimator with its filters swapped')
    ctx.raises(E, lambda: DualEstimator(j.filter, d.asoh_filter), 'wrong-wrapper', 'dual estimator over a joint filter')
    ctx.raises(E, lambda: DualEstimator(d.trans_filter, j.filter), 'wrong-wrapper', 'dual estimator over a joint filter')
    B = int(rng.integers(2, 5))
    big = gen.build_state({k: None if v is None else np.repeat(v, B, axis=0) for k, v in sc.state0.items()})
    ba = sc.asoh()
    ba.update_parameters(np.repeat(ba.get_parameters(['r0.base_values']), B, axis=0), ['r0.base_values'])
    for W in (JointCellModelWrapper, CellModelWrapper, DegradationModelWrapper):
        ctx.raises(E, lambda: W(**dict(args, transients=big)), 'batched', f'{W.__name__} of a batch of states')
        ctx.raises(E, lambda: W(**dict(args, asoh=ba)), 'batched', f'{W.__name__} of a batch of parameters')
    other = gen.build_input(dict(sc.inputs[0], current=sc.inputs[0]['current'] + 1))
    ctx.raises(E, lambda: DualEstimator.initialize_ukf_from_wrappers(CellModelWrapper(**args), DegradationModelWrapper(**dict(args, inputs=other)), sc.Px, sc.Pa),
               'inconsistent', 'wrappers with different inputs')
    ctx.raises(E, lambda: JointEstimator.initialize_unscented_kalman_filter(sc.cell(), sc.asoh(), sc.transients(), sc.input(0), covariance_joint=sc.Px), 'inconsistent', 'covariance of another size')
    ctx.obs('rejected')


WORKLOADS = [WL('joint', run_joint, 80, 2200), WL('dual', run_dual, 80, 2200), WL('wrappers', wrappers, 120, 2500), WL('silent', silent, 60, 1200), WL('rejects', rejects, 8, 40)]
