"""C25: simulations, files, losses, estimators and extractors fit together"""
import copy
import json
import tempfile
import warnings
from pathlib import Path

import numpy as np

from lib import ecm, est, gen
from lib.harness import WL

RULE = ('A case is one simulation (of one cell or a batch, either current behaviour) whose datasets are passed on, in memory or through HDF5 and Parquet files, to a loss, to the simulator again, '
        'to online estimators and to extractors. Each must find in the data what was simulated. Distinct = circuit, schedule and route.')
REQUIRED = dict(simulations=60, datasets=100, hdf5=25, parquet=25, memory=25, zero_losses=100, other_losses=100, replays=100, estimates=60, estimate_rows=400, records=25, tables=15, batched=25, dual=15,
                json=30, capacities=25, curves=25, resimulated=25, with_cycles=25)
ASSUMPTIONS = ['temperatures are recorded', 'extraction from cycles of linearly varying current, the only ones whose charge can be counted exactly from samples']


def stored(ctx, data, d, name):
    """The dataset after one way of passing it on: (dataset, path or None)"""
    from battdat.data import CellDataset
    how = str(ctx.rng.choice(['memory', 'hdf5', 'parquet']))
    ctx.obs(how)
    if how == 'hdf5':
        p = d / f'{name}.h5'
        data.to_hdf(p)
        return CellDataset.from_hdf(p), p
    if how == 'parquet':
        p = d / name
        data.to_parquet(p)
        return CellDataset.from_parquet(p), None
    return data, None


def simulate(ctx):
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _simulate(ctx, Path(d))


def _simulate(ctx, d):
    from moirae.simulator import Simulator
    from moirae.estimators.offline.loss import MeanSquaredLoss
    from moirae.interface import row_to_inputs
    rng = ctx.rng
    B = int(rng.choice([1, 1, 2, 3]))
    batched = None if B == 1 else ['all', float(rng.uniform(.2, .8))][int(rng.integers(2))]
    mode = str(rng.choice(['constant', 'linear']))
    spec = gen.circuit(rng, B, batched=batched)
    st = gen.state(rng, spec, B, batched=batched, lo=.4, hi=.6)
    if B > 1:
        spec['r0']['v'] = np.repeat(spec['r0']['v'][:1], B, axis=0) * rng.uniform(.5, 1.5, (B, 1))
    first = gen.member_batched(spec, 0)
    first['qt'] = np.array([[spec['qt'].min()]])
    u = gen.schedule(rng, first, int(rng.integers(1, 14)), mode=mode, t0=float(rng.choice([0., 1e4])), lo=.2, hi=.8, temps=str(rng.choice(['const', 'vary'])))
    sim = Simulator(ecm.model(mode), gen.build_asoh(spec), gen.build_state(st), gen.build_input(u[0]), keep_history=True)
    if rng.random() < .5:
        sim.evolve([gen.build_input(x) for x in u[1:]])
    else:
        for x in u[1:]:
            sim.step(gen.build_input(x))
    ctx.case(**gen.describe(spec), mode=mode, n=len(u), B=B, last=u[-1])
    ctx.obs('simulations')
    ctx.obs('batched', int(B > 1))
    sets = sim.to_batdata(extra_columns=bool(rng.random() < .3))
    ctx.check(len(sets) == B, 'datasets', f'{len(sets)} datasets of {B} cells')
    volts = np.array([np.broadcast_to(y.to_numpy(), (B, 1))[:, 0] for y in sim.measurement_history])
    vs = 1e-9 * (1 + np.abs(volts).max())
    for b, data in enumerate(sets):
        ctx.obs('datasets')
        with_cycles = bool(rng.random() < .6)
        if with_cycles:
            ctx.obs('with_cycles')
            data.tables['raw_data']['cycle_number'] = np.sort(rng.integers(0, 3, len(u)))
        data, path = stored(ctx, data, d, f'cell {b}')
        raw = data.tables['raw_data']
        ctx.close(raw['voltage'].to_numpy(), volts[:, b], 'voltages', f'voltages of cell {b} in its dataset', rtol=0, atol=vs)
        one, s1 = gen.member_batched(spec, b), gen.state_member_batched(st, b)
        paths = gen.param_paths(one)
        names = [p for p in paths if rng.random() < .2]
        asoh = gen.build_asoh(one)
        for n in names:
            asoh.mark_updatable(n)
        state = gen.build_state(s1)
        if rng.random() < .4:
            asoh, state = (type(o).model_validate(json.loads(o.model_dump_json())) for o in (asoh, state))
            ctx.obs('json')

        # The loss of what was simulated is zero, that of something else what the simulator says
        loss = MeanSquaredLoss(ecm.model(mode), asoh, state, data)
        x0 = loss.get_x0()
        got = loss(x0[None])
        ctx.check(got.shape == (1,) and abs(got[0]) <= vs ** 2, 'zero-loss', f'loss of the simulated cell {b} on its own data is {got}')
        ctx.obs('zero_losses')
        other = x0 * (1 + .02 * rng.uniform(.2, 1, len(x0)) * rng.choice([-1, 1], len(x0)))
        other[0] = np.clip(other[0], .3, .7)
        t2, a2 = state.make_copy(other[None, :len(state)]), asoh.model_copy(deep=True)
        if names:
            a2.update_parameters(other[None, len(state):])
        rows = [row_to_inputs(r)[0] for _, r in raw.iterrows()]
        sim2 = Simulator(ecm.model(mode), a2, t2, rows[0])
        v2 = np.array([sim2.measurement.to_numpy()[0, 0]] + [y.to_numpy()[0, 0] for y in sim2.evolve(rows[1:])])
        want = float(np.mean((v2 - volts[:, b]) ** 2))
        got = loss(np.stack([x0, other, x0]))
        ctx.close(got, [0., want, 0.], 'loss', f'losses of the true, another, and the true cell {b}', rtol=1e-6, atol=vs * (np.sqrt(want) + vs))
        ctx.obs('other_losses')

        # Simulating what is in the dataset again
        sim3 = Simulator(ecm.model(mode), asoh, state, rows[0], keep_history=True)
        sim3.evolve(rows[1:])
        again = sim3.to_batdata()[0].tables['raw_data']
        for c in again.columns:
            if c in raw.columns:
                ctx.close(again[c].to_numpy(float), raw[c].to_numpy(float), 'again', f'{c} of cell {b} when its dataset is simulated again', rtol=1e-9, atol=1e-9 * (1 + np.abs(raw[c]).max()))
        ctx.obs('replays')
        if len(u) > 2 and rng.random() < .8:
            estimate(ctx, d, b, one, s1, names, mode, u, volts[:, b], data, path)


def estimate(ctx, d, b, spec, st, names, mode, u, volts, data, path):
    """An estimator which is certain of the simulated parameters predicts every voltage; one which is not certain goes the same way from memory and by hand"""
    import h5py
    from moirae.estimators.online.joint import JointEstimator
    from moirae.estimators.online.dual import DualEstimator
    from moirae.interface import run_online_estimate, row_to_inputs
    from moirae.interface.hdf5 import HDF5Writer, read_state_estimates
    rng = ctx.rng
    dual = bool(names and rng.random() < .5)
    asoh, state = gen.build_asoh(spec), gen.build_state(st)
    for n in names:
        asoh.mark_updatable(n)
    na, nx = asoh.get_parameters().shape[1], len(state)
    R = np.array([[1e-6]])
    e = (DualEstimator if dual else JointEstimator).initialize_unscented_kalman_filter(
        cell_model=ecm.model(mode), initial_asoh=asoh, initial_transients=state, initial_inputs=gen.build_input(u[0]), covariance_transient=np.zeros((nx, nx)), covariance_asoh=np.zeros((na, na)),
        transient_covariance_process_noise=np.zeros((nx, nx)), asoh_covariance_process_noise=np.zeros((na, na)), covariance_sensor_noise=R)
    ctx.obs('estimates')
    ctx.obs('dual', int(dual))
    log = []
    step = e.step

    def spy(*args, **kw):
        out = step(*args, **kw)
        log.append((out[1].get_mean().copy(), out[1].get_covariance().copy()))
        return out
    e.step = spy
    record = d / f'record {b}.h5'
    kw = dict(hdf5_output=HDF5Writer(hdf5_output=record, per_timestep='full', per_cycle='full')) if rng.random() < .5 else {}
    table, back = run_online_estimate(path if path is not None and rng.random() < .8 else data, e, **kw)
    ctx.check(len(log) == len(u) - 1, 'rows', f'{len(log)} steps for {len(u)} rows')
    for i, (y, S) in enumerate(log, 1):
        ctx.close(y, volts[i:i + 1], 'prediction', f'voltage of row {i} predicted by an estimator which knows the cell', rtol=1e-6, atol=1e-6)
        ctx.close(S, R, 'prediction', f'its variance in row {i}', rtol=1e-3, atol=1e-9)
        ctx.obs('estimate_rows')
    end = back.get_estimated_state()
    x = gen.build_state(st)
    m = ecm.model(mode)
    for p, q in zip(u, u[1:]):
        x = m.update_transient_state(previous_inputs=gen.build_input(p), new_inputs=gen.build_input(q), transient_state=x, asoh=asoh)
    cur = float(spec['qt'].max()) + max(abs(q['current']) for q in u) + (np.abs(st['i_rc']).max() if st['i_rc'].size else 0)
    scale = np.abs(x.to_numpy()) + np.array([1.] + ([] if st['q0'] is None else [np.abs(st['q0']).max() + 3600 * spec['qt'].max()]) + [cur] * st['i_rc'].shape[1] + [1.])
    ctx.check((np.abs(end[0].to_numpy() - x.to_numpy()) <= 1e-6 * scale).all(), 'final', 'final state is the simulated one', got=end[0].to_numpy(), want=x.to_numpy())
    if kw:
        ctx.obs('records')
        got = list(read_state_estimates(record))
        ctx.check(len(got) == len(log), 'record', f'{len(got)} estimates in the record of {len(log)} steps')
        for g, (y, S), q in zip(got, log, u[1:]):
            ctx.check(g[0] == q['time'], 'record', f'time {g[0]} instead of {q["time"]} in the record')
            ctx.check(np.array_equal(g[2].get_mean(), y) and np.allclose(g[2].get_covariance(), S), 'record', 'predicted voltage in the record')
    if table is not None:
        ctx.obs('tables')
        ctx.check(len(table) == len(u), 'table', f'{len(table)} rows in the table')


# ---------------------------------------------------------------- extraction
def extract(ctx):
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _extract(ctx, Path(d))


def _extract(ctx, d):
    from battdat.postprocess.integral import StateOfCharge
    from moirae.simulator import Simulator
    from moirae.extractors.ecm import MaxCapacityExtractor, OCVExtractor
    rng = ctx.rng
    spec = gen.circuit(rng, n_rc=int(rng.integers(0, 2)), has_c0=False, scalar_p=1., ce=1.)
    # A cell without losses, whose open circuit voltage is a polynomial
    n = int(rng.integers(4, 9))
    c = np.array([rng.uniform(2.5, 3.5), rng.uniform(.3, 1), rng.uniform(-.3, .3), rng.uniform(-.3, .3)])
    grid = np.linspace(0, 1, n) if rng.random() < .5 else np.sort(np.concatenate([[0., 1.], (np.arange(1, n - 1) + rng.uniform(-.3, .3, n - 2)) / (n - 1)]))

    def poly(s):
        return sum(k * s ** i for i, k in enumerate(c))
    spec['ocv'].update(v=poly(grid)[None], pins=grid, style='cubic', tref=np.array([[25.]]))
    spec['ent'].update(v=np.zeros((1, 1)), pins=None, style='linear')
    spec['h0'].update(v=np.zeros((1, 1)), pins=None, style='linear')
    for r in [spec['r0']] + [e['r'] for e in spec['rc']]:
        r.update(v=np.full((1, 1), 1e-11 / max(1., float(spec['qt'].flat[0]))), pins=None, style='linear', tdf=np.zeros((1, 1)))
    for e in spec['rc']:
        e['c'].update(v=np.full((1, 1), 1e12 * float(spec['qt'].flat[0])))
    qt = float(spec['qt'].flat[0])
    st = dict(soc=np.zeros((1, 1)), q0=None, i_rc=np.zeros((1, len(spec['rc']))), hyst=np.zeros((1, 1)))

    # From empty to full and back: currents change linearly between samples, beginning and ending at zero
    u, t = [], float(rng.choice([0., 5e4]))
    for sign in (1, -1):
        m = int(rng.integers(25, 60))
        cur = np.concatenate([[0.], rng.uniform(.1, 2., m), [0.]]) * qt
        dt = rng.uniform(.2, 1., m + 1)
        q = np.sum(dt * (cur[1:] + cur[:-1]) / 2)
        dt *= qt * 3600 / q
        times = t + np.concatenate([[0.], np.cumsum(dt)])
        u += [dict(time=float(a), current=float(sign * i), temperature=25.) for a, i in zip(times, cur)][(1 if u else 0):]
        t = times[-1]
        if rng.random() < .5:
            t += float(rng.uniform(10, 1000))
            u.append(dict(time=t, current=0., temperature=25.))
    sim = Simulator(ecm.model('linear'), gen.build_asoh(spec), gen.build_state(st), gen.build_input(u[0]), keep_history=True)
    sim.evolve([gen.build_input(x) for x in u[1:]])
    ctx.case(qt=qt, c=c, n=n, rows=len(u))
    data = sim.to_batdata()[0]
    data.tables['raw_data']['cycle_number'] = int(rng.integers(0, 5))
    data, _ = stored(ctx, data, d, 'cell')
    cap = MaxCapacityExtractor().extract(data)
    ctx.close(cap.base_values, [[qt]], 'capacity', 'capacity extracted from a simulated full cycle', rtol=1e-7, atol=0)
    ctx.obs('capacities')
    StateOfCharge().enhance(data.tables['raw_data'])
    ex = OCVExtractor(cap if rng.random() < .5 else float(cap.base_values[0, 0]), soc_points=int(rng.integers(4, 12)), soc_requirement=.95)
    ex.check_data(data)
    ocv = ex.extract(data)
    s = np.linspace(0, 1, 41)
    ctx.close(ocv(soc=s).flatten(), poly(s), 'curve', 'open circuit voltage extracted from a simulated full cycle', rtol=0, atol=1e-6)
    ctx.obs('curves')
    # The cell with the extracted parameters is the same cell
    asoh = gen.build_asoh(spec)
    asoh.q_t, asoh.ocv = cap, ocv
    sim2 = Simulator(ecm.model('linear'), asoh, gen.build_state(st), gen.build_input(u[0]), keep_history=True)
    sim2.evolve([gen.build_input(x) for x in u[1:]])
    ctx.close(sim2.to_dataframe()['terminal_voltage'].to_numpy(), data.tables['raw_data']['voltage'].to_numpy(), 'resimulated', 'voltages simulated with the extracted parameters', rtol=0, atol=2e-6)
    ctx.obs('resimulated')


WORKLOADS = [WL('simulate', simulate, 90, 2000), WL('extract', extract, 50, 800)]
