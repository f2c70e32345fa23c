"""C11: estimates do not depend on the coordinates inside of the filter"""
import numpy as np

from lib import est
from lib.harness import WL

RULE = ('A case is one circuit with a random subset of estimated parameters (zeros and negative values included) and one history, estimated twice: without '
        'conversion, and with normalised parameters or random diagonal linear conversions (with offsets and negative factors) of hidden states, controls and '
        'outputs. Beliefs, predicted outputs and estimated objects of every step are compared in units of their standard deviation. Distinct = circuit, names and conversion.')
REQUIRED = dict(joint_steps=150, dual_steps=150, normalized=15, converted=15, zero_parameters=8, negative_parameters=5, offsets=10, control_conversions=10, output_conversions=10)
ASSUMPTIONS = ['all covariances are given and positive definite', 'currents are not zero (the efficiency of the model jumps there, so that rounding of converted controls matters)', 'intervals are longer than rounding of converted times']


def diag_op(rng, scale, wide=True):
    """Diagonal linear conversion for variables of this magnitude: (operator, factors)"""
    from moirae.estimators.online.filters.conversions import LinearConversionOperator as Lin
    n = len(scale)
    kind = int(rng.integers(4))
    d = rng.choice([-1., 1., 1.], n) * 10 ** rng.uniform(-2, 2, n)
    b = rng.normal(size=n) * scale
    if kind == 0:  # a number
        return Lin(multiplicative_array=np.array(float(d[0]))), 0
    if kind == 1:
        return Lin(multiplicative_array=d.copy()), 0
    if kind == 2:
        return Lin(multiplicative_array=d.copy(), additive_array=b.copy()), 1
    return Lin(multiplicative_array=np.diag(d), additive_array=b.copy()), 1


def scenario(rng, kind, **kw):
    while True:
        names = None
        probe = est.Scenario(rng, n_steps=2)
        if kind == 'dual' or rng.random() < .8:
            from lib import gen
            paths = gen.param_paths(probe.spec)
            k = int(rng.integers(1, 5))
            idx = np.sort(rng.choice(len(paths), k, replace=False))
            names = [paths[i] for i in idx]
            for extra, p in (('ocv.ocv_ent.base_values', .25), ('r0.temperature_dependence_factor', .25), ('h0.gamma', .1)):
                if rng.random() < p and extra not in names:
                    names.append(extra)
            names = [p for p in paths if p in names]  # declared order
        sc = est.Scenario(rng, n_steps=int(rng.integers(5, 16)), rel=.3, names=names, zero_params=True, n_rc=len(probe.spec['rc']), has_c0=probe.spec['c0'] is not None,
                          repeat_p=0., no_rest=True, neg=True, dt_range=(.5, 3.3), noise=2e-3, **kw)
        if min(np.diff([u['time'] for u in sc.inputs])) > .5:
            return sc


def same(ctx, got, want, label, i):
    sd = np.sqrt(np.diag(want.get_covariance()))
    m0, m1, C0, C1 = want.get_mean(), got.get_mean(), want.get_covariance(), got.get_covariance()
    ctx.check(m0.shape == m1.shape and C0.shape == C1.shape, 'shape', f'{label}: shapes {m1.shape} instead of {m0.shape}')
    tol = 2e-6 + 1e-11 * np.abs(m0) / np.maximum(sd, 1e-300)
    d = np.abs(m0 - m1) / np.maximum(sd, 1e-300)
    ctx.check((d <= tol).all(), f'{label}-mean', f'{label} of step {i}: means differ by {d.max():.2g} standard deviations', got=m1, want=m0, sd=sd)
    r = np.abs(C1 - C0) / np.maximum(np.outer(sd, sd), 1e-300)
    ctx.check(r.max() <= 2e-5, f'{label}-cov', f'{label} of step {i}: covariances differ by {r.max():.2g} of the variances', got=C1, want=C0)


def compare(ctx, kind, sc, plain, conv):
    ctx.check(plain.state_names == conv.state_names, 'names', f'{conv.state_names} instead of {plain.state_names}')
    same(ctx, conv.state, plain.state, 'initial-state', 0)
    for i in range(1, len(sc.inputs)):
        s = plain.state
        if not sc.in_domain(s.get_mean(), s.get_covariance()) or np.linalg.eigvalsh(est.scaled(s.get_covariance())).min() < 1e-6:
            ctx.obs('stopped')
            break
        h0, y0 = plain.step(sc.input(i), sc.measurement(i))
        h1, y1 = conv.step(sc.input(i), sc.measurement(i))
        if np.linalg.eigvalsh(est.scaled(h0.get_covariance())).min() < 1e-7:
            ctx.obs('stopped')
            break
        same(ctx, h1, h0, 'belief', i)
        same(ctx, y1, y0, 'output', i)
        same(ctx, conv.state, plain.state, 'state', i)
        same(ctx, conv.state, h1, 'returned', i)
        (t0, a0), (t1, a1) = plain.get_estimated_state(), conv.get_estimated_state()
        m = conv.state.get_mean()
        sd = np.sqrt(np.diag(conv.state.get_covariance()))
        got = np.concatenate([t1.to_numpy().ravel()] + [np.ravel(a1.get_parameters([n])) for n in sc.names])
        ctx.check((np.abs(got - m) <= 1e-8 * (np.abs(m) + sd)).all(), 'objects', f'estimated objects of step {i} are not the state', got=got, want=m)
        ref0 = np.concatenate([t0.to_numpy().ravel()] + [np.ravel(a0.get_parameters([n])) for n in sc.names])
        ctx.check((np.abs(got - ref0) <= (2e-6 + 1e-11 * np.abs(m) / sd) * sd).all(), 'objects', f'estimated objects of step {i}', got=got, want=ref0)
        ctx.obs(f'{kind}_steps')


def run(ctx, kind):
    from moirae.estimators.online.joint import JointEstimator
    from moirae.estimators.online.dual import DualEstimator
    from moirae.estimators.online.utils.model import JointCellModelWrapper, CellModelWrapper, DegradationModelWrapper
    rng = ctx.rng
    sc = scenario(rng, kind)
    normalize = bool(rng.random() < .5)
    tun = est.tuning(rng, 2 * (sc.nx + sc.na) + 1)
    ctx.obs('zero_parameters', int((sc.a0 == 0).any()))
    ctx.obs('negative_parameters', int((sc.a0 < 0).any()))
    kw = {}
    if rng.random() < .3:
        kw['inputs_uncertainty'] = np.diag([1e-6, 1e-4] + ([] if sc.inputs[0]['temperature'] is None else [1e-2]))
    if kind == 'joint':
        covs, _, _ = sc.joint_covs(rng)
        tuning = dict(filter_args=tun)
    else:
        covs = dict(covariance_transient=sc.Px, covariance_asoh=sc.Pa, transient_covariance_process_noise=sc.Qx, asoh_covariance_process_noise=sc.Qa,
                    covariance_sensor_noise=sc.R)
        tuning = dict(filter_args=dict(transient=tun, asoh=est.tuning(rng, 2 * sc.na + 1)))
    cls = JointEstimator if kind == 'joint' else DualEstimator
    late = bool(rng.random() < .3)
    first = 1 if late else 0
    base = dict(cell_model=sc.cell(), initial_asoh=sc.asoh(), initial_transients=sc.transients(), initial_inputs=sc.input(first))

    def cp():
        return {k: v.copy() for k, v in covs.items()}

    plain = cls.initialize_unscented_kalman_filter(**base, **cp(), **kw, **tuning)
    ops = None
    if normalize:
        conv = cls.initialize_unscented_kalman_filter(**base, **cp(), **kw, **tuning, normalize_asoh=True)
        ctx.obs('normalized')
        unit = np.where(sc.a0 == 0, 0., 1.)  # ratios to the initial values
        got = conv.filter.hidden.get_mean()[sc.nx:] if kind == 'joint' else conv.asoh_filter.hidden.get_mean()
        ctx.check(np.allclose(got, unit, rtol=1e-12), 'not-normalized', 'health parameters in the filter are not relative to their initial values', got=got, a0=sc.a0)
    else:
        umag = np.array([sc.inputs[-1]['time'] / 1e3 + 1, max(abs(u['current']) for u in sc.inputs) + .1] + ([] if sc.inputs[0]['temperature'] is None else [20.]))

        def ops_for(scale):
            out, off = {}, 0
            if rng.random() < .85:
                out['hidden_conversion_operator'], o = diag_op(rng, scale)
                off += o
            if rng.random() < .6:
                out['control_conversion_operator'], o = diag_op(rng, umag)
                off += o
                ctx.obs('control_conversions')
            if rng.random() < .6:
                out['output_conversion_operator'], o = diag_op(rng, np.ones(1))
                off += o
                ctx.obs('output_conversions')
            ctx.obs('offsets', int(off > 0))
            return out

        args = dict(cell_model=sc.cell(), asoh=sc.asoh(), transients=sc.transients(), inputs=sc.input(first))
        ctx.obs('converted')
        if kind == 'joint':
            ops = ops_for(10 * np.concatenate([sc.sx, sc.sa]))
            conv = cls.initialize_ukf_from_wrapper(joint_wrapper=JointCellModelWrapper(**args, converters=ops), **cp(), **kw, **tuning)
        else:
            ops = [ops_for(10 * sc.sx), ops_for(10 * sc.sa)]
            conv = cls.initialize_ukf_from_wrappers(transient_wrapper=CellModelWrapper(**args, converters=ops[0]),
                                                    asoh_wrapper=DegradationModelWrapper(**args, converters=ops[1]), **cp(), **kw, **tuning)
    if late:
        plain.set_previous_inputs(sc.input(0))
        conv.set_previous_inputs(sc.input(0))
    ctx.case(**sc.describe(), kind=kind, normalize=normalize, ops=ops, tun=tuning)
    compare(ctx, kind, sc, plain, conv)


def joint(ctx):
    run(ctx, 'joint')


def dual(ctx):
    run(ctx, 'dual')


WORKLOADS = [WL('joint', joint, 90, 2500), WL('dual', dual, 90, 2500)]
