"""C22: runs can be copied, checkpointed and resumed at any step"""
import copy
import json
import pickle
import tempfile
from pathlib import Path

import numpy as np

from checks import C11, C13
from lib import ecm, est, gen
from lib.harness import WL

RULE = ('A case is one simulation, filter, estimator, loss or dataset-level run and one point at which it is interrupted. The run as a whole is the oracle for its continuation by a deep copy, a '
        'pickled copy, a new object built from what was reported (through JSON or HDF5 in part of the cases), and for pieces of a dataset; original and copies are stepped in turns, on different '
        'inputs, and must not affect each other. Distinct = system, history and cut.')
REQUIRED = dict(simulations=40, sim_copies=30, sim_pickles=30, sim_restarts=40, sim_json=10, sim_steps=800, degrading=10, batched=12, histories=15, diverged=30,
                estimators=60, est_copies=40, est_pickles=40, est_restarts=50, est_hdf5=8, est_steps=400, normalized=15, dual=20, filters=40, filter_steps=300, filter_restarts=40,
                losses=15, datasets=25, dataset_rows=200)
ASSUMPTIONS = ['restarted estimators are compared in units of the standard deviation, since their coordinates may differ (round-off)', 'beliefs stay within the domain of the circuits']


def fader():
    """A degradation model which counts its calls"""
    if 'Fader' not in globals():
        from moirae.models.base import DegradationModel

        class Fader(DegradationModel):
            def __init__(self, key):
                self.n, self.key = 0, key

            def update_asoh(self, previous_asoh, new_inputs, new_transients, new_measurements):
                self.n += 1
                out = previous_asoh.model_copy(deep=True)
                out.set_value(self.key, C13._value(previous_asoh, self.key) * (1 - 1e-3 * np.abs(np.tanh(new_measurements.to_numpy()[:, :1])) - 1e-4 * self.n))
                return out
        Fader.__module__, Fader.__qualname__ = __name__, 'Fader'
        globals()['Fader'] = Fader
    return globals()['Fader']


def same(ctx, got, want, kind, msg, exact=True):
    got, want = np.asarray(got), np.asarray(want)
    ctx.close(got, want, kind, msg, rtol=1e-12 if exact else 1e-9, atol=1e-13 * (np.abs(want).max() if want.size else 0))


def equal(a, b, tol=0.):
    return a.keys() == b.keys() and all(np.shape(a[k]) == np.shape(b[k]) and np.allclose(a[k], b[k], rtol=tol, atol=tol * np.abs(b[k]).max(initial=0)) for k in a)


def via_json(obj):
    return type(obj).model_validate(json.loads(obj.model_dump_json()))


# ---------------------------------------------------------------- simulators
def simulator(ctx):
    from moirae.simulator import Simulator
    rng = ctx.rng
    B = int(rng.choice([1, 1, 2, 3]))
    n = int(rng.integers(3, 16))
    sys = (C13.Circuit if rng.random() < .75 else C13.ToySystem)(rng, B, n)
    keep = bool(rng.random() < .6)
    deg = bool(rng.random() < .4)
    key = sys.key
    kw = dict(degradation_model=fader()(key)) if deg else {}
    ins = [sys.input(u) for u in sys.u]
    N = len(ins)
    cut = int(rng.integers(0, N - 1))  # steps done before the interruption
    ctx.case(**sys.describe(), cut=cut, keep=keep, deg=deg)
    ctx.obs('simulations')
    ctx.obs('degrading', int(deg))
    ctx.obs('batched', int(B > 1))
    ctx.obs('histories', int(keep))

    def build(asoh, state, first, d=None):
        return Simulator(sys.model(), asoh, state, first, keep_history=keep, **({} if d is None else dict(degradation_model=d)))

    whole = build(sys.asoh(), sys.state(), ins[0], copy.deepcopy(kw.get('degradation_model')))
    full = []
    for u in ins[1:]:
        x, y = whole.step(u)
        full.append((x.to_numpy().copy(), y.to_numpy().copy(), ecm.asoh_snap(whole.asoh)))

    def go(sim, i, label, exact=True):
        x, y = sim.step(ins[i])
        same(ctx, x.to_numpy(), full[i - 1][0], 'state', f'{label}: state of step {i} (cut after {cut})', exact)
        same(ctx, y.to_numpy(), full[i - 1][1], 'output', f'{label}: output of step {i} (cut after {cut})', exact)
        ctx.check(not exact or equal(ecm.asoh_snap(sim.asoh), full[i - 1][2], 1e-11), 'health', f'{label}: health parameters after step {i}')
        ctx.obs('sim_steps')

    sim = build(sys.asoh(), sys.state(), ins[0], copy.deepcopy(kw.get('degradation_model')))
    for i in range(1, cut + 1):
        go(sim, i, 'first part')

    # What may be kept as a checkpoint
    clones = {}
    if rng.random() < .85:
        clones['deep copy'] = copy.deepcopy(sim)
        ctx.obs('sim_copies')
    if not isinstance(sys, C13.ToySystem):  # its classes exist within a function only
        clones['pickled copy'] = pickle.loads(pickle.dumps(sim))
        ctx.obs('sim_pickles')
    parts = [sim.asoh, sim.transient, sim.previous_input]
    if rng.random() < .5:
        parts = [via_json(p) for p in parts]
        ctx.obs('sim_json')
    restarted = build(*parts, copy.deepcopy(sim.degradation_model) if deg else None)
    same(ctx, restarted.measurement.to_numpy(), sim.measurement.to_numpy() if cut and not deg else
         sys.model().calculate_terminal_voltage(new_inputs=sim.previous_input, transient_state=sim.transient, asoh=sim.asoh).to_numpy(), 'output', 'output at the restart')
    ctx.obs('sim_restarts')
    # One which goes elsewhere from here
    stray = copy.deepcopy(sim) if rng.random() < .5 else pickle.loads(pickle.dumps(sim)) if not isinstance(sys, C13.ToySystem) else copy.deepcopy(sim)
    runs = [('original', sim), *clones.items(), ('restart', restarted)]
    for i in range(cut + 1, N):
        other = sys.input(dict(sys.u[i], current=-1.7 * sys.u[i]['current'] + .01))
        stray.step(other)
        ctx.obs('diverged')
        for j in rng.permutation(len(runs)):
            go(runs[j][1], i, runs[j][0])
    if keep:
        for label, s in runs:
            skip = cut if label == 'restart' else 0
            frame, want = s.to_dataframe(), whole.to_dataframe()
            ctx.check(len(s.transient_history) == N - skip and len(s.input_history) == N - skip and len(s.measurement_history) == N - skip, 'history', f'{label}: {len(s.transient_history)} entries')
            bs = len(want) // N
            if len(frame) == (N - skip) * bs:
                # (the first row of a restart has the output which belongs to degraded parameters)
                first = bs if skip and deg else 0
                ctx.check(list(frame.columns) == list(want.columns), 'history', f'{label}: columns {list(frame.columns)}')
                same(ctx, frame.to_numpy(float)[first:], want.to_numpy(float)[skip * bs + first:], 'history', f'{label}: data frame')
            else:
                ctx.fail('history', f'{label}: {len(frame)} rows instead of {(N - skip) * bs}')


# ---------------------------------------------------------------- estimators
def close(ctx, got, want, kind, msg, strict=1.):
    sd = np.sqrt(np.maximum(np.diag(want[1]), 1e-300))
    ctx.check(got[0].shape == want[0].shape and got[1].shape == want[1].shape, 'shape', f'{msg}: shapes')
    d = (np.abs(got[0] - want[0]) / (sd + 1e-6 * np.abs(want[0])))
    ctx.check(d.max() <= 5e-6 * strict, kind, f'{msg}: means differ by {d.max():.2g} standard deviations', got=got[0], want=want[0])
    r = np.abs(got[1] - want[1]) / np.outer(sd, sd)
    ctx.check(r.max() <= 5e-5 * strict, kind, f'{msg}: covariances differ by {r.max():.2g} of the variances', got=got[1], want=want[1])


def pair(d):
    return d.get_mean().copy(), d.get_covariance().copy()


def estimator(ctx):
    from moirae.estimators.online.joint import JointEstimator
    from moirae.estimators.online.dual import DualEstimator
    from moirae.interface.hdf5 import HDF5Writer, read_state_estimates
    rng = ctx.rng
    kind = 'dual' if rng.random() < .45 else 'joint'
    sc = C11.scenario(rng, kind)
    cls = JointEstimator if kind == 'joint' else DualEstimator
    normalize = bool(rng.random() < .4)
    tun = est.tuning(rng, 2 * (sc.nx + sc.na) + 1)
    if kind == 'joint':
        args = dict(transient_covariance_process_noise=sc.Qx, asoh_covariance_process_noise=sc.Qa)
        tuning = dict(filter_args=tun)
    else:
        args = dict(transient_covariance_process_noise=sc.Qx, asoh_covariance_process_noise=sc.Qa)
        tuning = dict(filter_args=dict(transient=tun, asoh=est.tuning(rng, 2 * sc.na + 1)))
    ctx.obs('normalized', int(normalize))
    ctx.obs('dual', int(kind == 'dual'))

    def build(asoh, trans, inp, P, normalize=normalize):
        pri = dict(covariance_joint=P.copy()) if kind == 'joint' else dict(covariance_transient=P[:sc.nx, :sc.nx].copy(), covariance_asoh=P[sc.nx:, sc.nx:].copy())
        return cls.initialize_unscented_kalman_filter(cell_model=sc.cell(), initial_asoh=asoh, initial_transients=trans, initial_inputs=inp, **pri,
                                                      **{k: v.copy() for k, v in args.items()}, covariance_sensor_noise=sc.R.copy(), normalize_asoh=normalize, **tuning)

    P0 = sc.Pj if kind == 'joint' else est.blk(sc.Px, sc.Pa)
    N = len(sc.inputs)
    # How far the history may be used at all
    whole = build(sc.asoh(), sc.transients(), sc.input(0), P0)
    full = []
    for i in range(1, N):
        s = whole.state
        if not sc.in_domain(*pair(s)) or np.linalg.eigvalsh(est.scaled(s.get_covariance())).min() < 1e-5:
            break
        h, y = whole.step(sc.input(i), sc.measurement(i))
        if np.linalg.eigvalsh(est.scaled(h.get_covariance())).min() < 1e-6:
            break
        full.append((pair(h), pair(y), whole.get_estimated_state()[0].to_numpy().copy(), ecm.asoh_snap(whole.get_estimated_state()[1])))
    N = len(full) + 1
    if N < 3:
        ctx.obs('too_short')
        return
    cut = int(rng.integers(0, N - 1))
    ctx.case(**sc.describe(), kind=kind, cut=cut, normalize=normalize, tun=tuning)
    ctx.obs('estimators')

    def go(e, i, label, exact):
        h, y = e.step(sc.input(i), sc.measurement(i))
        (h0, y0, x0, a0) = full[i - 1]
        m = f'{label}: step {i} (cut after {cut})'
        if exact:  # (up to round-off, which depends on where arrays happen to be in memory)
            close(ctx, pair(h), h0, 'belief', m, .01)
            close(ctx, pair(y), y0, 'belief', m + ', output', .01)
            t, a = e.get_estimated_state()
            g, P = e.state.get_mean(), h0[1]
            a = ecm.asoh_snap(a)
            ctx.close(t.to_numpy().ravel(), x0.ravel(), 'objects', f'{m}: estimated state', rtol=1e-9, atol=1e-7 * np.sqrt(np.abs(np.diag(P)).max()))
            ctx.check(a.keys() == a0.keys() and all(np.allclose(a[k], a0[k], rtol=1e-8, atol=1e-9 * np.abs(a0[k]).max()) for k in a), 'objects', f'{m}: estimated health parameters', got=a, want=a0)
        else:
            close(ctx, pair(h), h0, 'restart', m)
            close(ctx, pair(y), y0, 'restart', m + ', output')
            close(ctx, pair(e.state), h0, 'restart', m + ', state')
        ctx.obs('est_steps')

    e = build(sc.asoh(), sc.transients(), sc.input(0), P0)
    stored = None
    with tempfile.TemporaryDirectory() as d:
        file = Path(d) / 'run.h5'
        if cut and rng.random() < .3:
            ctx.obs('est_hdf5')
            w = HDF5Writer(hdf5_output=file, per_timestep='full')
            with w:
                w.prepare(e)
                for i in range(1, cut + 1):
                    h, y = e.step(sc.input(i), sc.measurement(i))
                    w.append_step(sc.inputs[i]['time'], 0, h, y)
            stored = list(read_state_estimates(file))
            ctx.check(len(stored) == cut, 'record', f'{len(stored)} estimates in the record of {cut} steps')
            stored = stored[-1][1]
        else:
            for i in range(1, cut + 1):
                go(e, i, 'first part', True)
    runs = [('original', e, True)]
    if rng.random() < .8:
        runs.append(('deep copy', copy.deepcopy(e), True))
        ctx.obs('est_copies')
    if rng.random() < .8:
        runs.append(('pickled copy', pickle.loads(pickle.dumps(e)), True))
        ctx.obs('est_pickles')
    # A new estimator from what was reported
    if stored is None:
        t, a = e.get_estimated_state()
        P = e.state.get_covariance()
        if rng.random() < .4 and 'h0.gamma' not in sc.names:  # (a rate estimated to be negative is refused by JSON)
            t, a = via_json(t), via_json(a)
    else:
        x, P = stored.get_mean(), stored.get_covariance()
        t = sc.transients().make_copy(x[None, :sc.nx])
        a = sc.asoh()
        a.update_parameters(x[None, sc.nx:], sc.names)
    # (values which are zero but for round-off cannot serve as units)
    tiny = (np.abs(e.state.get_mean()[sc.nx:]) < 1e-4 * np.sqrt(np.diag(P))[sc.nx:]).any()
    runs.append(('restart', build(a, t, sc.input(cut), P, normalize and not tiny), False))
    ctx.obs('est_restarts')
    stray = copy.deepcopy(e) if rng.random() < .5 else pickle.loads(pickle.dumps(e))
    limit = cut + 6  # round-off grows along the run
    for i in range(cut + 1, N):
        from moirae.models.ecm.ins_outs import ECMMeasurement
        try:
            stray.step(gen.build_input(dict(sc.inputs[i], current=-.5 * sc.inputs[i]['current'])), ECMMeasurement(terminal_voltage=sc.volts[i] + sc.noise))
        except np.linalg.LinAlgError:  # it may leave the domain of the circuit
            stray = copy.deepcopy(e)
        for j in rng.permutation(len(runs)):
            label, r, exact = runs[j]
            if exact or i <= limit:
                go(r, i, label, exact)


# ---------------------------------------------------------------- filters
def filter_model():
    if 'Curve' not in globals():
        from moirae.estimators.online.filters.base import ModelWrapper

        class Curve(ModelWrapper):
            def __init__(self, A, H, c):
                super().__init__()
                self.A, self.H, self.c = A, H, c

            @property
            def num_hidden_dimensions(self):
                return len(self.A)

            @property
            def num_output_dimensions(self):
                return self.H.shape[1]

            def update_hidden_states(self, hidden_states, previous_controls, new_controls):
                return hidden_states @ self.A + self.c * np.sin(hidden_states) + .1 * previous_controls[0] - .05 * new_controls[0]

            def predict_measurement(self, hidden_states, controls):
                return hidden_states @ self.H + self.c * np.tanh(hidden_states[:, :1]) + controls[0]
        Curve.__module__, Curve.__qualname__ = __name__, 'Curve'
        globals()['Curve'] = Curve
    return globals()['Curve']


def filters(ctx):
    from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter as UKF
    from moirae.estimators.online.filters.distributions import MultivariateGaussian as G, DeltaDistribution as D
    rng = ctx.rng
    n, o, N = int(rng.integers(1, 5)), int(rng.integers(1, 3)), int(rng.integers(3, 20))
    A = np.eye(n) * .9 + .1 * rng.normal(size=(n, n)) / n
    model = filter_model()(A, rng.normal(size=(n, o)), float(rng.choice([0., .2])))

    def spd(k, s):
        M = rng.normal(size=(k, k))
        return s * (M @ M.T / k + .3 * np.eye(k))
    P, Q, R = spd(n, 1.), spd(n, .01), spd(o, .1)
    tun = est.tuning(rng, 2 * n + o)
    us = [D(mean=rng.normal(size=1)) for _ in range(N)]
    ys = [D(mean=rng.normal(size=o) * 2) for _ in range(N)]
    m0 = rng.normal(size=n)
    cut = int(rng.integers(0, N - 1))
    ctx.case(n=n, o=o, N=N, cut=cut, m0=m0, tun=tun)
    ctx.obs('filters')

    def build(m, P, u):
        return UKF(model, G(mean=m.copy(), covariance=P.copy()), u.model_copy(deep=True), Q.copy(), R.copy(), **tun)
    whole = build(m0, P, us[0])
    full = [tuple(pair(d) for d in whole.step(u, y)) for u, y in zip(us[1:], ys[1:])]
    f = build(m0, P, us[0])
    for i in range(1, cut + 1):
        f.step(us[i], ys[i])
    runs = [('original', f), ('deep copy', copy.deepcopy(f)), ('pickled copy', pickle.loads(pickle.dumps(f)))]
    h = f.hidden
    runs.append(('restart', build(h.get_mean(), h.get_covariance(), f.controls)))
    ctx.obs('filter_restarts')
    stray = copy.deepcopy(f)
    for i in range(cut + 1, N):
        stray.step(us[0], D(mean=-ys[i].get_mean()))
        for j in rng.permutation(len(runs)):
            label, r = runs[j]
            got = [pair(d) for d in r.step(us[i], ys[i])]
            for (gm, gc), (wm, wc), what in zip(got, full[i - 1], ('belief', 'output')):
                ctx.close(gm, wm, 'filter', f'{label}: mean of the {what} of step {i} (cut after {cut})', rtol=1e-8, atol=1e-8)
                ctx.close(gc, wc, 'filter', f'{label}: covariance of the {what} of step {i} (cut after {cut})', rtol=1e-8, atol=1e-8)
            ctx.obs('filter_steps')


# ---------------------------------------------------------------- losses
def loss(ctx):
    import pandas as pd
    from battdat.data import CellDataset
    from moirae.estimators.offline.loss import MeanSquaredLoss
    rng = ctx.rng
    sc = est.Scenario(rng, n_steps=int(rng.integers(3, 12)))
    df = pd.DataFrame(dict(test_time=[u['time'] for u in sc.inputs], current=[u['current'] for u in sc.inputs], voltage=sc.volts, cycle_number=0))
    if sc.inputs[0]['temperature'] is not None:
        df['temperature'] = [u['temperature'] for u in sc.inputs]
    l = MeanSquaredLoss(sc.cell(), sc.asoh(), sc.transients(), CellDataset(raw_data=df))
    x0 = l.get_x0()
    X = x0 * (1 + .01 * rng.normal(size=(3, len(x0))))
    ctx.case(**sc.describe())
    want = l(X.copy())
    copies = [pickle.loads(pickle.dumps(l)), copy.deepcopy(l)]
    for c in copies:
        same(ctx, c.get_x0(), x0, 'loss', 'starting point of a copy')
        same(ctx, c(X.copy()), want, 'loss', 'copy of a loss')
    for i in rng.permutation(3):  # the members of a batch, one at a time, on different workers
        same(ctx, copies[int(i) % 2](X[i:i + 1].copy()), want[i:i + 1], 'loss', 'one candidate on a copy', exact=False)
    same(ctx, l(X.copy()), want, 'loss', 'original, after its copies were used')
    ctx.obs('losses')


# ---------------------------------------------------------------- datasets in pieces
def dataset(ctx):
    import pandas as pd
    from battdat.data import CellDataset
    from moirae.interface import run_online_estimate
    from moirae.estimators.online.joint import JointEstimator
    from moirae.estimators.online.dual import DualEstimator
    rng = ctx.rng
    kind = 'dual' if rng.random() < .4 else 'joint'
    while True:
        sc = est.Scenario(rng, n_steps=int(rng.integers(4, 25)), rel=.25, temps=str(rng.choice(['const', 'vary'])), noise=2e-3, repeat_p=.03)
        if sc.nx + sc.na <= 16 and not (kind == 'dual' and sc.na == 0):
            break
    N = len(sc.inputs)
    df = pd.DataFrame(dict(test_time=[u['time'] for u in sc.inputs], current=[u['current'] for u in sc.inputs], voltage=sc.volts, temperature=[u['temperature'] for u in sc.inputs],
                           cycle_number=np.sort(rng.integers(0, 3, N))))
    cls = JointEstimator if kind == 'joint' else DualEstimator
    normalize = bool(rng.random() < .3)

    def build():
        return cls.initialize_unscented_kalman_filter(cell_model=sc.cell(), initial_asoh=sc.asoh(), initial_transients=sc.transients(), initial_inputs=sc.input(0),
                                                      covariance_transient=sc.Px.copy(), covariance_asoh=sc.Pa.copy(), transient_covariance_process_noise=sc.Qx.copy(),
                                                      asoh_covariance_process_noise=sc.Qa.copy(), covariance_sensor_noise=sc.R.copy(), normalize_asoh=normalize)

    # Leave out what the circuits are not defined for
    probe = build()
    try:
        for i in range(1, N):
            if not sc.in_domain(*pair(probe.state)):
                break
            probe.step(sc.input(i), sc.measurement(i))
    except Exception:
        i = 1
    N = i
    if N < 4:
        ctx.obs('too_short')
        return
    df = df.iloc[:N]
    whole, log = build(), []
    _watch(whole, log)
    run_online_estimate(CellDataset(raw_data=df), whole)
    k = int(rng.integers(1, 4))
    cuts = [0] + sorted(int(c) for c in rng.choice(np.arange(1, N - 1), min(k, N - 2), replace=False)) + [N - 1]
    ctx.case(**sc.describe(), cuts=cuts, kind=kind)
    ctx.obs('datasets')
    e, got = build(), []
    for a, b in zip(cuts, cuts[1:]):
        r = []
        _watch(e, r)
        out, e2 = run_online_estimate(CellDataset(raw_data=df.iloc[a:b + 1]), e)
        e = e2
        del e.__dict__['step']
        got += r
        if rng.random() < .5:  # taken up again by another process
            e = pickle.loads(pickle.dumps(e)) if rng.random() < .5 else copy.deepcopy(e)
    del whole.__dict__['step']
    # Rows at the boundary may be repeated as the first row of a piece; estimates which used a row are compared
    ctx.check(len(got) == len(log), 'dataset', f'{len(got)} steps in {len(cuts) - 1} pieces instead of {len(log)}')
    for i, (g, w) in enumerate(zip(got, log)):
        for (gm, gc), (wm, wc) in zip(g, w):
            close(ctx, (gm, gc), (wm, wc), 'dataset', f'step {i} (pieces {cuts})', .02)
        ctx.obs('dataset_rows')
    close(ctx, pair(e.state), pair(whole.state), 'dataset', 'final state', .02)
    ctx.check(equal(ecm.asoh_snap(e.get_estimated_state()[1]), ecm.asoh_snap(whole.get_estimated_state()[1]), 1e-8), 'dataset', 'final health parameters')


def _watch(e, log):
    step = type(e).step.__get__(e)

    def spy(*args, **kwargs):
        out = step(*args, **kwargs)
        log.append([pair(d) for d in out])
        return out
    e.step = spy


WORKLOADS = [WL('simulator', simulator, 90, 2500), WL('estimator', estimator, 120, 2500), WL('filters', filters, 60, 1500), WL('loss', loss, 24, 400), WL('dataset', dataset, 50, 900)]
