"""C21: degradation models are applied exactly once per step with matching data"""
import json

import numpy as np

from checks import C12, C13
from lib import ecm, est, gen, ref
from lib.harness import WL

RULE = ('A case is one system with one degradation model which keeps a log of its calls (stateless, depending on every argument, or counting its own calls), used by a '
        'simulator, a wrapper, or a joint or dual estimator. Each call is checked against what the model boundary saw; the effects against reference models and an '
        'independently written unscented filter. Distinct = system, degradation and history.')
REQUIRED = dict(sim_calls=400, sim_evaluations=800, wrapper_calls=100, joint_calls=100, dual_calls=100, joint_steps=80, dual_steps=80, no_degradation=35, batched=10, stateful=15,
                predictions_without_call=100, defaults=5, in_place=30, some_updatable=50)
ASSUMPTIONS = ['inputs and measurements are not batched', 'beliefs stay within the domain of the circuits']


def eff(cur, soc, v, k=1.):
    """Relative change of a parameter per step; smooth and depending on everything a degradation model is given"""
    return 1. - k * (2e-3 + 1e-3 * np.tanh(cur) ** 2 + 2e-3 * np.tanh(soc) + 1e-3 * np.cos(v))


def logger(keys, log, k=1., stateful=False, inplace=False):
    """A degradation model which reduces some parameters and records what it is called with"""
    from moirae.models.base import DegradationModel

    class Logged(DegradationModel):
        def __init__(self):
            self.n = 0

        def update_asoh(self, previous_asoh, new_inputs, new_transients, new_measurements):
            self.n += 1
            log.append(dict(op='degrade', asoh=ecm.asoh_snap(previous_asoh), new=new_inputs.to_numpy().copy(), state=new_transients.to_numpy().copy(), out=new_measurements.to_numpy().copy()))
            out = previous_asoh if inplace else previous_asoh.model_copy(deep=True)
            f = eff(new_inputs.current, new_transients.to_numpy()[:, :1], new_measurements.terminal_voltage, k)
            if stateful:
                f = f - 1e-3 * self.n
            for key in keys:
                out.set_value(key, C13._value(previous_asoh, key) * f)
            log[-1]['result'] = ecm.asoh_snap(out)
            return out
    return Logged()


def watched(model, log):
    """The cell model, with a log of the health parameters it is evaluated with"""
    class Watched(type(model)):
        def __init__(self):
            self.__dict__.update(model.__dict__)

        def update_transient_state(self, previous_inputs, new_inputs, transient_state, asoh):
            out = super().update_transient_state(previous_inputs=previous_inputs, new_inputs=new_inputs, transient_state=transient_state, asoh=asoh)
            log.append(dict(op='update', asoh=ecm.asoh_snap(asoh)))
            return out

        def calculate_terminal_voltage(self, new_inputs, transient_state, asoh):
            out = super().calculate_terminal_voltage(new_inputs=new_inputs, transient_state=transient_state, asoh=asoh)
            log.append(dict(op='voltage', asoh=ecm.asoh_snap(asoh), new=new_inputs.to_numpy().copy(), state=transient_state.to_numpy().copy(), out=out.to_numpy().copy()))
            return out
    return Watched()


def same(a, b):
    return set(a) == set(b) and all(np.shape(a[k]) == np.shape(b[k]) and np.allclose(a[k], b[k], rtol=1e-12, atol=0) for k in a)


def rows_equal(got, want, rtol=1e-9):
    B = max(len(got), len(want))
    g, w = C13.rows(got if len(got) > 1 else got, B) if len(got) in (1, B) else got, C13.rows(want, B) if len(want) in (1, B) else want
    return g.shape == w.shape and np.allclose(g, w, rtol=rtol, atol=1e-12 + rtol * np.abs(w).max(initial=0.))


def simulate(ctx):
    from moirae.simulator import Simulator
    rng = ctx.rng
    s = C13.make(ctx, n=int(rng.integers(3, 25)))
    stateful = bool(rng.random() < .3)
    ctx.obs('stateful', int(stateful))
    log = []
    k = float(rng.choice([1., .1, -1.]))
    inplace = bool(rng.random() < .4)  # works on the object it is given and returns it
    ctx.obs('in_place', int(inplace))
    d = logger([s.key], log, k, stateful, inplace)
    keep = bool(rng.random() < .6)
    asoh = s.asoh()
    others = [n for n, _ in asoh.iter_parameters(updatable_only=False)]
    if rng.random() < .6:  # which parameters are open to estimation does not matter for degradation
        for n in rng.choice(others, int(rng.integers(1, len(others) + 1)), replace=False):
            asoh.mark_updatable(str(n))
        ctx.obs('some_updatable')
    upd = list(asoh.updatable_names)
    sim = Simulator(cell_model=watched(s.model(), log), asoh=asoh, transient_state=s.state(), initial_input=s.input(s.u[0]), degradation_model=d, keep_history=keep)
    ctx.case(**s.describe(), stateful=stateful, k=k)
    ctx.check(not [e for e in log if e['op'] == 'degrade'], 'degrade-count', 'degradation before the first step')
    cur = ecm.asoh_snap(s.asoh())
    first = cur
    how = rng.random() < .5
    all_calls, health = [], [cur]
    i = 1
    while i < len(s.u):
        m = 1 if how else int(rng.integers(1, 5))
        log.clear()
        if how:
            x, y = sim.step(s.input(s.u[i]))
            n = 1
        else:
            chunk = [s.input(u) for u in s.u[i:i + m]]
            n = len(chunk)
            sim.evolve(chunk)
            x = y = None
        calls = [e for e in log if e['op'] == 'degrade']
        ctx.check(len(calls) == n, 'degrade-count', f'{len(calls)} calls of the degradation model in {n} steps')
        for e in log:  # everything was evaluated with the health parameters in force
            if e['op'] == 'degrade':
                ctx.check(same(e['asoh'], cur), 'degrade-asoh', 'health parameters given to the degradation model are not those in force', got=e['asoh'], want=cur)
                cur = e['result']
                health.append(cur)
                ctx.obs('sim_calls')
            else:
                ctx.check(same(e['asoh'], cur), 'asoh-in-force', f'{e["op"]} was evaluated with other health parameters than those in force', got=e['asoh'], want=cur)
                ctx.obs('sim_evaluations')
        for j, e in enumerate(calls):
            ctx.close(e['new'], s.input(s.u[i + j]).to_numpy(), 'degrade-inputs', f'inputs given to the degradation model in step {i + j}', rtol=0, atol=0)
        if x is not None:
            ctx.check(rows_equal(calls[0]['state'], x.to_numpy(), 1e-12), 'degrade-transients', 'transients given to the degradation model are not the new ones', got=calls[0]['state'], want=x.to_numpy())
            ctx.check(rows_equal(calls[0]['out'], y.to_numpy(), 1e-12), 'degrade-measurement', 'measurements given to the degradation model are not the new ones', got=calls[0]['out'], want=y.to_numpy())
        all_calls += calls
        ctx.check(same(ecm.asoh_snap(sim.asoh), cur), 'result-in-force', 'health parameters after the step are not the result of the degradation model')
        ctx.check(list(sim.asoh.updatable_names) == upd, 'updatable-kept', 'degradation changed which parameters are updatable')
        i += n
    if keep:
        for j, (h, a, t, y) in enumerate(zip(health, sim.asoh_history, sim.transient_history, sim.measurement_history)):
            ctx.check(same(ecm.asoh_snap(a), h), 'degrade-history', f'health parameters recorded for step {j}')
            if j:
                ctx.check(rows_equal(all_calls[j - 1]['state'], t.to_numpy(), 1e-12) and rows_equal(all_calls[j - 1]['out'], y.to_numpy(), 1e-12), 'degrade-pairing',
                          f'data given to the degradation model in step {j} is not that recorded for it')
    # the whole run against the references
    T = _truth(s, k, stateful)
    T.state(ctx, sim.transient, len(s.u) - 1, 'degrading run')
    T.output(ctx, sim.measurement, len(s.u) - 1, 'degrading run')
    T.health(ctx, sim.asoh, len(s.u) - 1, 'degrading run', first)


def _truth(s, k, stateful):
    class One:
        def __init__(self):
            self.n = 0

        def __call__(self, cur, soc, y):
            self.n += 1
            return eff(cur, soc, y, k) - (1e-3 * self.n if stateful else 0.)

    class T(C13.Truth):
        def __init__(self):
            self.s = s
            r = [s.run(b, One()) for b in range(s.B)]
            self.X, self.Y, self.A = (np.stack([m[i] for m in r], axis=1) for i in range(3))
            self.U = s.inputs()
            self.sx = np.max([s.scale(m[0]) for m in r], axis=0)
            self.sy = np.abs(self.Y).max(axis=(0, 1)) + 1 + (0 if isinstance(s, C13.ToySystem) else np.max(np.abs(self.X[..., 1:-1]), initial=0.) * 1e-3)
    return T()


def canonical(a):
    """All fields, whatever the order of sets"""
    def tidy(x):
        if isinstance(x, dict):
            return {k: tidy(v) for k, v in x.items()}
        if isinstance(x, list):
            return sorted(x) if x and all(isinstance(v, str) for v in x) else [tidy(v) for v in x]
        return x
    return tidy(json.loads(a.model_dump_json()))


def none(ctx):
    """The no-degradation model returns an equal, separate object"""
    from moirae.models.utils import NoDegradation
    from moirae.simulator import Simulator
    rng = ctx.rng
    s = C13.make(ctx)
    a = s.asoh()
    names = [n for n, _ in a.iter_parameters(updatable_only=False)]
    for n in rng.choice(names, min(3, len(names)), replace=False):
        a.mark_updatable(str(n))
    ctx.case(**s.describe(), none=True)
    before, upd, dump = ecm.asoh_snap(a), a.updatable_names, canonical(a)
    args = [dict(), dict(new_inputs=s.input(s.u[-1])), dict(new_inputs=s.input(s.u[-1]), new_transients=s.state(), new_measurements=None)][int(rng.integers(3))]
    d = NoDegradation()
    b = d.update_asoh(a, **args)
    c = d.update_asoh(previous_asoh=a, **args)
    for o in (b, c):
        ctx.check(type(o) is type(a) and o is not a, 'no-degradation', 'not a separate object of the same kind')
        ctx.check(same(ecm.asoh_snap(o), before) and o.updatable_names == upd and canonical(o) == dump, 'no-degradation', 'result differs from the argument')
    for n, v in b.iter_parameters(updatable_only=False):
        v *= 2
        v += 1
    b.mark_all_fixed()
    ctx.check(same(ecm.asoh_snap(a), before) and a.updatable_names == upd, 'no-degradation-shared', 'changing the result changed the argument')
    ctx.check(same(ecm.asoh_snap(c), before) and c.updatable_names == upd, 'no-degradation-shared', 'changing one result changed another')
    for n, v in a.iter_parameters(updatable_only=False):
        v *= 3
        v -= 1
    ctx.check(same(ecm.asoh_snap(c), before), 'no-degradation-shared', 'changing the argument changed a result')
    # a simulator without degradation keeps the health parameters
    sims = []
    for kw in ({}, dict(degradation_model=NoDegradation())):
        sim = Simulator(cell_model=s.model(), asoh=s.asoh(), transient_state=s.state(), initial_input=s.input(s.u[0]), keep_history=True, **kw)
        sim.evolve([s.input(u) for u in s.u[1:]])
        want = ecm.asoh_snap(s.asoh())
        ctx.check(same(ecm.asoh_snap(sim.asoh), want), 'no-degradation-run', 'health parameters changed')
        ctx.check(all(same(ecm.asoh_snap(h), want) for h in sim.asoh_history), 'no-degradation-run', 'recorded health parameters changed')
        sims.append(sim)
    ctx.obs('no_degradation')


def scenario(ctx, **kw):
    rng = ctx.rng
    while True:
        sc = est.Scenario(rng, rel=.4, order='any', noise=2e-3, **kw)
        if 0 < sc.na and sc.nx + sc.na <= 26:
            break
    keys = [n for n in sc.names if rng.random() < .6] or [sc.names[0]]
    return sc, keys


def degrade(sc, keys, k, a, u, x, v):
    """The estimated parameters after one application"""
    out, i = np.array(a, float), 0
    f = eff(u['current'], x[0], v, k)
    for n, s in zip(sc.names, sc.sizes):
        if n in keys:
            out[i:i + s] = out[i:i + s] * f
        i += s
    return out


def wrapper(ctx):
    """Wrappers called directly on batches of hidden states"""
    from moirae.estimators.online.utils.model import JointCellModelWrapper, DegradationModelWrapper
    from checks.C11 import diag_op
    rng = ctx.rng
    sc, keys = scenario(ctx, n_steps=6, repeat_p=0., no_rest=True, dt_range=(.5, 3.))
    i = int(rng.integers(1, len(sc.inputs)))
    up, un = sc.inputs[i - 1], sc.inputs[i]
    N = int(rng.integers(2, 9))
    X = sc.x0 + sc.sx * rng.normal(size=(N, sc.nx)).clip(-3, 3)
    A = sc.a0 + sc.sa * rng.normal(size=(N, sc.na)).clip(-3, 3)
    k = float(rng.choice([1., -1., .2]))
    conv = bool(rng.random() < .4)
    cu, cn = gen.build_input(up).to_numpy().ravel(), gen.build_input(un).to_numpy().ravel()
    ctx.case(**sc.describe(), N=N, conv=conv, keys=keys)
    for kind in ('joint', 'dual'):
        log = []
        Z, scale = (np.hstack([X, A]), np.concatenate([sc.sx, sc.sa])) if kind == 'joint' else (A, sc.sa)
        kw, to, back = {}, lambda v: v, lambda v: v
        if conv:
            op = diag_op(rng, 10 * scale)[0]
            kw, to, back = dict(converters=dict(hidden_conversion_operator=op)), op.inverse_transform_samples, op.transform_samples
        W = JointCellModelWrapper if kind == 'joint' else DegradationModelWrapper
        w = W(cell_model=sc.cell(), asoh=sc.asoh(), transients=sc.transients(), inputs=sc.input(0), asoh_inputs=sc.names, degradation_model=logger(keys, log, k, inplace=bool(rng.random() < .3)), **kw)
        ctx.check(not log, 'degrade-count', f'{kind}: degradation on creation')
        for rep in range(2):
            log.clear()
            S = back(np.array(w.update_hidden_states(hidden_states=to(Z), previous_controls=cu, new_controls=cn)))
            ctx.check(len(log) == 1, 'degrade-count', f'{kind}: {len(log)} calls of the degradation model in one prediction')
            e = log[0]
            u = up if kind == 'joint' else un
            xs = X if kind == 'joint' else np.repeat(sc.x0[None], N, axis=0)
            ctx.close(e['new'], gen.build_input(u).to_numpy(), f'{kind}-degrade-inputs', 'inputs given to the degradation model', rtol=1e-9, atol=1e-9)
            ctx.check(rows_equal(e['state'], xs), f'{kind}-degrade-transients', 'transients given to the degradation model', got=e['state'], want=xs)
            vs = np.array([sc.voltage(x, a, u) for x, a in zip(xs, A)])
            ctx.close(C13.rows(e['out'], N), vs, f'{kind}-degrade-measurement', 'measurements given to the degradation model', rtol=1e-7, atol=1e-7)
            j = 0
            for n, s in zip(sc.names, sc.sizes):
                ctx.close(C13.rows(e['asoh'][n], N), A[:, j:j + s], f'{kind}-degrade-asoh', f'{n} given to the degradation model', rtol=1e-8, atol=1e-8 * np.abs(A).max())
                j += s
            want = np.array([degrade(sc, keys, k, a, u, x, v[0]) for a, x, v in zip(A, xs, vs)])
            if kind == 'joint':
                want = np.hstack([np.array([sc.advance(x, a, up, un) for x, a in zip(X, A)]), want])
            ctx.check((np.abs(S - want) <= 1e-6 * scale + 1e-9 * np.abs(want)).all(), f'{kind}-degraded', 'predicted hidden states', got=S, want=want)
            ctx.obs('wrapper_calls')
            n = len(log)
            w.predict_measurement(hidden_states=to(Z), controls=cn)
            ctx.check(len(log) == n, 'degrade-count', f'{kind}: degradation while predicting measurements')
            ctx.obs('predictions_without_call')


def joint(ctx):
    from moirae.estimators.online.joint import JointEstimator
    from moirae.estimators.online.utils.model import JointCellModelWrapper
    rng = ctx.rng
    sc, keys = scenario(ctx, n_steps=int(rng.integers(3, 10)), repeat_p=.05)
    k, log, nx = float(rng.choice([1., -1., .2])), [], sc.nx
    kw, P, Q = sc.joint_covs(rng)
    tun = est.tuning(rng, 2 * (nx + sc.na) + 1)
    ctx.case(**sc.describe(), keys=keys, tun=tun)
    e = JointEstimator.initialize_ukf_from_wrapper(joint_wrapper=JointCellModelWrapper(
        cell_model=sc.cell(), asoh=sc.asoh(), transients=sc.transients(), inputs=sc.input(0), asoh_inputs=sc.names, degradation_model=logger(keys, log, k, inplace=bool(rng.random() < .3))), **kw, filter_args=tun)
    for i in range(1, len(sc.inputs)):
        m, C = e.state.get_mean(), e.state.get_covariance()
        if not sc.in_domain(m, C) or not C12.good(C):
            ctx.obs('stopped')
            break
        up, un = sc.inputs[i - 1], sc.inputs[i]

        def f(z):
            return np.concatenate([sc.advance(z[:nx], z[nx:], up, un), degrade(sc, keys, k, z[nx:], up, z[:nx], sc.voltage(z[:nx], z[nx:], up)[0])])
        pts = est.sigma_points(m, C, Q, sc.R, **{a.replace('_param', ''): v for a, v in tun.items() if a != 'beta_param'})
        w = est.ukf_step(pts, len(m), 1, tun, f, lambda z: sc.voltage(z[:nx], z[nx:], un), np.array([sc.volts[i]]))
        log.clear()
        hid, out = e.step(sc.input(i), sc.measurement(i))
        if not w['psd']:
            ctx.obs('stopped')
            break
        tol = 1e-6 * max(1., w['wmax'])
        C12.agree(ctx, hid, w['m'], w['P'], w['Px'], 'joint', tol)
        C12.agree(ctx, out, w['y'], w['S'], w['S'], 'joint-output', tol)
        ctx.obs('joint_steps')
        calls_match(ctx, sc, log, 'joint', up, None)


def calls_match(ctx, sc, log, kind, u, x):
    ctx.check(len(log) == 1, 'degrade-count', f'{kind}: {len(log)} calls of the degradation model in one step')
    ctx.close(log[0]['new'], gen.build_input(u).to_numpy(), f'{kind}-degrade-inputs', 'inputs given to the degradation model', rtol=1e-9, atol=1e-9)
    N = max(len(log[0]['state']), *(len(v) for v in log[0]['asoh'].values()))
    X = C13.rows(log[0]['state'], N)
    if x is not None:
        ctx.check((np.abs(X - x) <= 1e-7 * sc.sx + 1e-9 * np.abs(x)).all(), f'{kind}-degrade-transients', 'transients given to the degradation model', got=X, want=x)
    A = np.concatenate([C13.rows(log[0]['asoh'][n], N) for n in sc.names], axis=1)
    vs = np.array([sc.voltage(a, b, u) for a, b in zip(X, A)])
    ctx.close(C13.rows(log[0]['out'], N), vs, f'{kind}-degrade-measurement', 'measurements given to the degradation model do not belong to the transients and inputs', rtol=1e-7, atol=1e-7)
    ctx.obs(f'{kind}_calls')


def dual(ctx):
    from moirae.estimators.online.dual import DualEstimator
    from moirae.estimators.online.utils.model import CellModelWrapper, DegradationModelWrapper
    rng = ctx.rng
    sc, keys = scenario(ctx, n_steps=int(rng.integers(3, 10)), repeat_p=.05)
    k, log, nx = float(rng.choice([1., -1., .2])), [], sc.nx
    tuns = [est.tuning(rng, 2 * nx + 1), est.tuning(rng, 2 * sc.na + 1)]
    ctx.case(**sc.describe(), keys=keys, tun=tuns)
    args = dict(cell_model=sc.cell(), asoh=sc.asoh(), transients=sc.transients(), inputs=sc.input(0))
    e = DualEstimator.initialize_ukf_from_wrappers(transient_wrapper=CellModelWrapper(**args),
                                                   asoh_wrapper=DegradationModelWrapper(**args, asoh_inputs=sc.names, degradation_model=logger(keys, log, k, inplace=bool(rng.random() < .3))),
                                                   covariance_transient=sc.Px.copy(), covariance_asoh=sc.Pa.copy(), transient_covariance_process_noise=sc.Qx.copy(),
                                                   asoh_covariance_process_noise=sc.Qa.copy(), covariance_sensor_noise=sc.R.copy(), filter_args=dict(transient=tuns[0], asoh=tuns[1]))
    for i in range(1, len(sc.inputs)):
        m, C = e.state.get_mean(), e.state.get_covariance()
        if not sc.in_domain(m, C) or not C12.good(C):
            ctx.obs('stopped')
            break
        up, un, y = sc.inputs[i - 1], sc.inputs[i], np.array([sc.volts[i]])
        x, a = m[:nx], m[nx:]
        w = []
        for mm, P, Q, t, f, h in ((x, C[:nx, :nx], sc.Qx, tuns[0], lambda z: sc.advance(z, a, up, un), lambda z: sc.voltage(z, a, un)),
                                  (a, C[nx:, nx:], sc.Qa, tuns[1], lambda z: degrade(sc, keys, k, z, un, x, sc.voltage(x, z, un)[0]), lambda z: sc.voltage(sc.advance(x, z, up, un), z, un))):
            pts = est.sigma_points(mm, P, Q, sc.R, **{n.replace('_param', ''): v for n, v in t.items() if n != 'beta_param'})
            w.append(est.ukf_step(pts, len(mm), 1, t, f, h, y))
        log.clear()
        hid, out = e.step(sc.input(i), sc.measurement(i))
        if not (w[0]['psd'] and w[1]['psd']):
            ctx.obs('stopped')
            break
        tol = 1e-6 * max(1., w[0]['wmax'], w[1]['wmax'])
        C12.agree(ctx, hid, np.concatenate([w[0]['m'], w[1]['m']]), est.blk(w[0]['P'], w[1]['P']), est.blk(w[0]['Px'], w[1]['Px']), 'dual', tol)
        ctx.obs('dual_steps')
        calls_match(ctx, sc, log, 'dual', un, x)


def defaults(ctx):
    """Estimators without a degradation model behave as with the no-degradation model"""
    from moirae.estimators.online.joint import JointEstimator
    from moirae.estimators.online.dual import DualEstimator
    from moirae.estimators.online.utils.model import JointCellModelWrapper, CellModelWrapper, DegradationModelWrapper
    from moirae.models.utils import NoDegradation
    rng = ctx.rng
    sc, _ = scenario(ctx, n_steps=6, repeat_p=.05)
    ctx.case(**sc.describe())
    kw, P, Q = sc.joint_covs(rng)
    args = dict(cell_model=sc.cell(), asoh=sc.asoh(), transients=sc.transients(), inputs=sc.input(0))
    ests = []
    for d in ({}, dict(degradation_model=NoDegradation())):
        ests.append((JointEstimator.initialize_ukf_from_wrapper(joint_wrapper=JointCellModelWrapper(**args, asoh_inputs=sc.names, **d), **kw),
                     DualEstimator.initialize_ukf_from_wrappers(CellModelWrapper(**args), DegradationModelWrapper(**args, asoh_inputs=sc.names, **d), sc.Px.copy(), sc.Pa.copy(),
                                                                covariance_sensor_noise=sc.R.copy())))
    for i in range(1, len(sc.inputs)):
        sts = [e.state for e in ests[0]]
        if not all(sc.in_domain(st.get_mean(), st.get_covariance()) and C12.good(st.get_covariance()) for st in sts):
            break
        for a, b in zip(*ests):
            p, q = (e.step(sc.input(i), sc.measurement(i))[0] for e in (a, b))
            ctx.check(np.allclose(p.get_mean(), q.get_mean(), rtol=1e-9, equal_nan=True), 'default-degradation', f'estimates differ in step {i}', got=p.get_mean(), want=q.get_mean())
    ctx.obs('defaults')


WORKLOADS = [WL('simulate', simulate, 200, 5000), WL('none', none, 70, 1000), WL('wrapper', wrapper, 90, 2000), WL('joint', joint, 90, 2500), WL('dual', dual, 90, 2500),
             WL('defaults', defaults, 10, 150)]
