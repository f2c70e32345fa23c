"""C14: estimation over a dataset equals stepping the estimator row by row"""
import contextlib
import io
import shutil
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from checks import C15
from lib import est, gen
from lib.harness import WL, Violation

RULE = ('A case is one circuit, one estimator (joint or dual, random selection of parameters) and one dataset of noisy measurements (with complete, patchy, infinite or no temperatures; '
        'any cycle numbering or none; odd indices, column orders, extra columns), run from memory, from a file, with and without HDF5 output, writer and progress bar, and compared '
        'with an estimator of the same kind stepped by hand over rows converted independently. A log of what reaches the estimator checks the rows it is given. Distinct = circuit and data.')
REQUIRED = dict(runs=150, rows_compared=2000, logged_rows=800, in_memory=50, streamed=50, hdf5_runs=80, hdf5_estimates=800, hdf5_cycles=60, progress=25, no_table=20, patchy_temperature=15,
                no_temperature=4, no_cycles=8, sparse_cycles=8, joint=30, dual=25, other_start=15, row_conversions=1000, final_state=120, rejected=20, interrupted=8, continued=20, unordered_times=5)
ASSUMPTIONS = ['the estimator was set up for inputs with a temperature', 'beliefs stay within the domain of the circuits']


def make(ctx, n=None):
    """(scenario, data frame, estimator factory)"""
    from moirae.estimators.online.joint import JointEstimator
    from moirae.estimators.online.dual import DualEstimator
    rng = ctx.rng
    dual = bool(rng.random() < .45)
    while True:
        n = int(rng.choice([1, 2, int(rng.integers(3, 30))], p=[.05, .1, .85])) if n is None else n
        back = bool(rng.random() < .12)
        kw = dict(n_rc=0, mode='constant') if back else {}
        sc = est.Scenario(rng, n_steps=n, rel=.25, temps=str(rng.choice(['const', 'vary'])), noise=2e-3, repeat_p=.03, **kw)
        if back:  # clocks may be set back: rows count in the order in which they are stored
            for u, t in zip(sc.inputs, rng.permutation([u['time'] for u in sc.inputs])):
                u['time'] = float(t)
        if sc.nx + sc.na <= 20 and not (dual and sc.na == 0):
            break
    N = len(sc.inputs)
    ctx.obs('unordered_times', int(back and N > 2))
    temp = np.array([u['temperature'] for u in sc.inputs])
    mode = rng.random()
    if mode < .3:  # some readings are missing
        bad = rng.random(N) < .4
        temp[bad] = rng.choice([np.nan, np.nan, np.inf, -np.inf], bad.sum())
        ctx.obs('patchy_temperature')
    elif mode < .45:
        temp[:] = np.nan
        ctx.obs('no_temperature')
    for u, t in zip(sc.inputs, temp):
        u['temperature'] = float(t) if np.isfinite(t) else 25.
    sc.simulate(rng, sc.sx * rng.normal(size=sc.nx).clip(-2, 2), sc.sa * rng.normal(size=sc.na).clip(-2, 2))
    cols = dict(test_time=[u['time'] for u in sc.inputs], current=[u['current'] for u in sc.inputs], voltage=sc.volts)
    if not (.3 <= mode < .45 and rng.random() < .6):
        cols['temperature'] = temp
    u = rng.random()
    if u < .25:
        ctx.obs('no_cycles')
    elif u < .6:
        cols['cycle_number'] = np.sort(rng.integers(0, 4, N))
    else:
        cols['cycle_number'] = np.sort(rng.choice(rng.integers(0, 60, 4), N))
        ctx.obs('sparse_cycles')
    if rng.random() < .4:
        cols['step_index'] = rng.integers(0, 5, N)
    df = pd.DataFrame(cols)
    df = df[list(rng.permutation(df.columns))]
    u = rng.random()
    if u < .2:
        df.index = rng.permutation(N)
    elif u < .35:
        df.index = np.arange(N)[::-1] * 3 + 100
    first = int(rng.integers(len(sc.inputs))) if rng.random() < .4 else 0
    ctx.obs('other_start', int(first > 0))
    P = sc.joint_covs(rng)[0]
    tun = est.tuning(rng, 2 * (sc.nx + sc.na) + 1)
    td = dict(transient=est.tuning(rng, 2 * sc.nx + 1), asoh=est.tuning(rng, 2 * max(1, sc.na) + 1))
    ctx.obs('dual' if dual else 'joint')

    def factory():
        if dual:
            return DualEstimator.initialize_unscented_kalman_filter(sc.cell(), sc.asoh(), sc.transients(), sc.input(first), sc.Px.copy(), sc.Pa.copy(), None, sc.Qx.copy(), sc.Qa.copy(), sc.R.copy(),
                                                                    filter_args=td)
        return JointEstimator.initialize_unscented_kalman_filter(sc.cell(), sc.asoh(), sc.transients(), sc.input(first), **{k: v.copy() for k, v in P.items()}, filter_args=tun)
    return sc, df, factory


def manual(ctx, sc, factory):
    """(initial belief, [(state, output)] of the rows after the first, final estimator), or None if the estimates leave the circuit's domain"""
    e = factory()
    e.set_previous_inputs(sc.input(0))
    out = []
    for i in range(1, len(sc.inputs)):
        if not sc.in_domain(e.state.get_mean(), e.state.get_covariance()):
            ctx.obs('left_domain')
            return None
        s, o = e.step(sc.input(i), sc.measurement(i))
        out.append((s.get_mean(), s.get_covariance(), o.get_mean(), o.get_covariance()))
    return factory().state, out, e


def near(a, b, s):
    a, b, s = np.asarray(a), np.asarray(b), np.asarray(s)
    return a.shape == b.shape and bool((np.abs(a - b) <= 1e-6 * s + 1e-9 * np.abs(b)).all())


def sd(C):
    return np.sqrt(np.abs(np.diag(C)))


def check_table(ctx, table, sc, init, steps, label):
    names = list(sc.state_names())
    cols = names + [f'{n}_std' for n in names] + ['terminal_voltage', 'terminal_voltage_std']
    ctx.check(set(table.columns) == set(cols) and len(table.columns) == len(cols), 'columns', f'{label}: {list(table.columns)}')
    N = len(sc.inputs)
    ctx.check(len(table) == N, 'table-rows', f'{label}: {len(table)} rows for {N} rows of data')
    got = table[cols].to_numpy()
    k = len(names)

    def row_is(r, m, C, om, oC):
        s = np.concatenate([sd(C), sd(C), sd(oC), sd(oC)])
        w = np.concatenate([m, sd(C), om, sd(oC)])
        return near(got[r], w, s), w
    aligned = all(row_is(i, *steps[i - 1])[0] for i in range(1, N))
    if aligned and N > 1 or N == 1 and near(got[0, :k], init.get_mean(), sd(init.get_covariance())):
        ctx.check(near(got[0, :k], init.get_mean(), sd(init.get_covariance())) and near(got[0, k:2 * k], sd(init.get_covariance()), sd(init.get_covariance())), 'first-row', f'{label}: first row', got=got[0])
        ctx.obs('rows_compared', N)
        return False
    for i in range(1, N):
        ok, w = row_is(i - 1, *steps[i - 1])
        ctx.check(ok, 'table', f'{label}: estimate for row {i} of {N}', got=got[i - 1], want=w, columns=cols)
    ctx.check(not got[-1].any(), 'table', f'{label}: last row', got=got[-1])
    ctx.obs('rows_compared', N)
    return True


def check_file(ctx, path, group, what, sc, df, init, steps, label):
    """Estimates in the HDF5 output: one per row, and the first of each cycle"""
    import h5py
    from moirae.interface.hdf5 import read_state_estimates
    N = len(sc.inputs)
    times = [u['time'] for u in sc.inputs]
    cyc = [int(c) for c in df['cycle_number']] if 'cycle_number' in df.columns else [0] * N
    shifted = False
    with h5py.File(path, 'r') as f:
        g = f[group]
        for where in ('per_timestep', 'per_cycle'):
            mode = what[where]
            if mode == 'none':
                continue
            got = list(read_state_estimates(g, per_timestep=where == 'per_timestep'))
            alln = [(times[0], None)] + [(times[i], steps[i - 1]) for i in range(1, N)]

            def select(first):
                if where == 'per_timestep':
                    return alln[first:]
                d = {}
                for i in range(first, N):
                    d.setdefault(cyc[i], alln[i])
                return [d[c] for c in sorted(d)]

            def matches(want):
                if len(got) != len(want):
                    return f'{len(got)} estimates instead of {len(want)}'
                for i, ((t, s, o), (t0, v)) in enumerate(zip(got, want)):
                    if t != t0:
                        return f'time of estimate {i} is {t} instead of {t0}'
                    if v is None:
                        if not near(s.get_mean(), init.get_mean(), sd(init.get_covariance())):
                            return 'first estimate is not the initial state'
                        continue
                    m, C, om, oC = v
                    if not (near(s.get_mean(), m, sd(C)) and near(o.get_mean(), om, sd(oC))):
                        return f'mean of estimate {i}: {s.get_mean()} instead of {m}'
                    if mode in ('full', 'mean_cov') and not (near(s.get_covariance(), C, np.outer(sd(C), sd(C))) and near(o.get_covariance(), oC, np.outer(sd(oC), sd(oC)))):
                        return f'covariance of estimate {i}'
                    if mode == 'mean_var' and not near(np.diag(s.get_covariance()), np.diag(C), np.diag(C)):
                        return f'variance of estimate {i}'
                return None
            if matches(select(0)) is not None:
                why = matches(select(1))
                ctx.check(why is None, f'hdf5-{where}', f'{label}: {why}')
                shifted = True
            ctx.obs('hdf5_estimates', len(got))
            ctx.obs('hdf5_cycles', len(got) * (where == 'per_cycle'))
    return shifted


def check_final(ctx, got, e, want, label):
    ctx.check(got is e, 'final-estimator', f'{label}: another estimator came back') if type(got) is not type(e) else None
    a, b = got.state, want.state
    s = sd(b.get_covariance())
    ctx.check(near(a.get_mean(), b.get_mean(), s) and near(a.get_covariance(), b.get_covariance(), np.outer(s, s)), 'final-state', f'{label}: state of the final estimator', got=a.get_mean(),
              want=b.get_mean())
    for x, y in zip(got.get_estimated_state(), want.get_estimated_state()):
        v, w = (x.to_numpy(), y.to_numpy()) if hasattr(x, 'to_numpy') else (x.get_parameters(), y.get_parameters())
        ctx.close(v, w, 'final-state', f'{label}: estimated objects', rtol=1e-7, atol=1e-9)
    ctx.obs('final_state')


def logged(e, log):
    step = e.step

    def record(inputs, measurements):
        log.append((inputs.to_numpy().ravel().copy(), measurements.to_numpy().ravel().copy()))
        return step(inputs, measurements)
    e.step = record
    return e


def run(ctx):
    d = Path(tempfile.mkdtemp(prefix='verif-c14-'))
    try:
        _run(ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _run(ctx, d):
    import h5py
    from battdat.data import BatteryDataset, CellDataset
    from moirae.interface import run_online_estimate
    from moirae.interface.hdf5 import HDF5Writer
    rng = ctx.rng
    sc, df, factory = make(ctx)
    ctx.case(**sc.describe(), columns=list(df.columns), last=sc.inputs[-1], volts=sc.volts[-1])
    ref = manual(ctx, sc, factory)
    if ref is None:
        return
    init, steps, final = ref
    keep = df.copy()
    data = CellDataset(raw_data=df)
    source = d / 'data.h5'
    data.to_hdf(source)
    before = source.read_bytes()
    shifted = False
    for where in ('memory', 'file'):
        for out in ('nothing', str(rng.choice(['path', 'str', 'group', 'writer', 'fixed']))):
            e, log = factory(), []
            if rng.random() < .5:
                e = logged(e, log)
            kw, what, target, group = {}, dict(per_timestep='mean', per_cycle='full'), d / f'{where}-{out}.h5', 'state_estimates'
            f = None
            if out == 'path':
                kw['hdf5_output'] = target
            elif out == 'str':
                kw['hdf5_output'] = str(target)
            elif out == 'group':
                f = h5py.File(target, 'w')
                kw['hdf5_output'] = f.create_group('my cell') if rng.random() < .5 else f
                group = 'my cell/state_estimates' if 'my cell' in f else group
            elif out in ('writer', 'fixed'):
                what = {k: str(rng.choice(C15.WHAT)) for k in what}
                key = str(rng.choice(['state_estimates', 'mine']))
                group = key
                kw['hdf5_output'] = HDF5Writer(hdf5_output=target, storage_key=key, resizable=out == 'writer', **what)
            if rng.random() < .4:
                kw['pbar'] = bool(rng.random() < .8)
                ctx.obs('progress', int(kw['pbar']))
            table_wanted = rng.random() < .75
            if not table_wanted or rng.random() < .3:
                kw['output_states'] = bool(table_wanted)
            ctx.obs('no_table', int(not table_wanted))
            label = f'{where}, output to {out}'
            ds = data if where == 'memory' else (source if rng.random() < .5 else str(source))
            err = io.StringIO()
            try:
                with contextlib.redirect_stderr(err):
                    if out == 'fixed' and where == 'file':  # the number of cycles cannot be known
                        ctx.raises(ValueError, lambda: run_online_estimate(ds, e, **kw), 'fixed-streamed', 'output of fixed size when streaming')
                        ctx.obs('rejected')
                        continue
                    table, got = run_online_estimate(ds, e, **kw)
            finally:
                if f is not None:
                    ctx.check(bool(f), 'group-closed', 'the file given by the user was closed')
                    f.close()
            ctx.obs('runs')
            ctx.obs('in_memory' if where == 'memory' else 'streamed')
            if table_wanted:
                shifted |= check_table(ctx, table, sc, init, steps, label)
            else:
                ctx.check(table is None, 'no-table', f'{label}: a table came back')
            if log:
                ctx.check(len(log) == len(sc.inputs) - 1, 'rows-used', f'{label}: {len(log)} steps for {len(sc.inputs)} rows')
                for i, (u, y) in enumerate(log, 1):
                    w = [sc.inputs[i][k] for k in ('time', 'current', 'temperature')]
                    ctx.check(np.array_equal(u, w) and np.array_equal(y, [sc.volts[i]]), 'row', f'{label}: row {i} reached the estimator as {u}, {y}', want=w)
                    ctx.obs('logged_rows')
            check_final(ctx, got, e, final, label)
            if out != 'nothing':
                shifted |= check_file(ctx, target, group, what, sc, df, init, steps, label)
                ctx.obs('hdf5_runs')
    # going on after the data with either estimator is the same
    if sc.in_domain(final.state.get_mean(), final.state.get_covariance()):
        u = dict(sc.inputs[-1], time=sc.inputs[-1]['time'] + 10.)
        s0, o0 = final.step(gen.build_input(u), sc.measurement(len(sc.inputs) - 1))
        s1, o1 = got.step(gen.build_input(u), sc.measurement(len(sc.inputs) - 1)) if not (out == 'fixed') else (s0, o0)
        if np.isfinite(s0.get_mean()).all():
            ctx.check(near(s1.get_mean(), s0.get_mean(), sd(s0.get_covariance())), 'final-state', 'step after the dataset', got=s1.get_mean(), want=s0.get_mean())
            ctx.obs('continued')
    # the data are as they were
    pd.testing.assert_frame_equal(df, keep)
    pd.testing.assert_frame_equal(data.tables['raw_data'], keep)
    ctx.check(source.read_bytes() == before, 'source-modified', 'the file holding the data changed')
    if shifted:
        ctx.violations.append(Violation('row-offset', 'estimates are stored one row early, the last row is empty'))


def rows(ctx):
    """Rows to inputs and measurements"""
    from moirae.interface import row_to_inputs
    rng = ctx.rng
    ctx.case(number=ctx.index)
    for _ in range(20):
        T = float(rng.choice([rng.uniform(-40, 90), 0., np.nan, np.inf, -np.inf]))
        row = dict(test_time=float(rng.uniform(0, 1e6)), current=float(rng.choice([0., rng.normal() * 10])), voltage=float(rng.uniform(2, 5)))
        has = rng.random() < .8
        if has:
            row['temperature'] = T
        for k in rng.choice(['cycle_number', 'state', 'file_number', 'time'], 2, replace=False):
            row[str(k)] = 'charging' if k == 'state' else int(rng.integers(1, 9))
        row = {k: row[k] for k in rng.permutation(list(row))}
        arg = row if rng.random() < .4 else pd.Series(row)
        kw = dict(default_temperature=float(rng.uniform(-10, 50))) if rng.random() < .5 else {}
        u, y = row_to_inputs(arg, **kw)
        want = T if has and np.isfinite(T) else kw.get('default_temperature', 25.)
        ctx.close(u.to_numpy(), [[row['test_time'], row['current'], want]], 'row-inputs', f'{row} with {kw}', rtol=0, atol=0)
        ctx.close(y.to_numpy(), [[row['voltage']]], 'row-measurement', f'{row}', rtol=0, atol=0)
        ctx.obs('row_conversions')


def faults(ctx):
    d = Path(tempfile.mkdtemp(prefix='verif-c14-'))
    try:
        _faults(ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _faults(ctx, d):
    """A failing step surfaces, leaves what was written, and the file closed; unusable datasets are refused"""
    import h5py
    from battdat.data import CellDataset
    from moirae.interface import run_online_estimate
    from moirae.interface.hdf5 import read_state_estimates

    class Fault(Exception):
        pass
    rng = ctx.rng
    sc, df, factory = make(ctx, n=int(rng.integers(4, 15)))
    ctx.case(**sc.describe(), fault=True, volts=sc.volts[-1])
    ref = manual(ctx, sc, factory)
    for bad in (df, 3, None, CellDataset(raw_data=None)):
        ctx.raises(Exception, lambda: run_online_estimate(bad, factory()), 'bad-dataset', f'{type(bad)} instead of a dataset')
        ctx.obs('rejected')
    if ref is None:
        return
    init, steps, final = ref
    cut = int(rng.integers(1, len(sc.inputs) - 1))
    e = factory()
    step, n = e.step, [0]

    def failing(inputs, measurements):
        n[0] += 1
        if n[0] > cut:
            raise Fault
        return step(inputs, measurements)
    e.step = failing
    source = d / 'data.h5'
    data = CellDataset(raw_data=df)
    data.to_hdf(source)
    ctx.raises(Fault, lambda: run_online_estimate(source if rng.random() < .5 else data, e, hdf5_output=d / 'out.h5'), 'fault-swallowed', 'an error in a step')
    with h5py.File(d / 'out.h5', 'r+') as f:
        got = [(t, s.get_mean()) for t, s, o in read_state_estimates(f['state_estimates'])]
    got = got[len(got) - cut:] if len(got) == cut + 1 else got
    ctx.check(len(got) == cut, 'interrupted', f'{len(got)} estimates stored of {cut} made before the error')
    for i, (t, m) in enumerate(got, 1):
        ctx.check(t == sc.inputs[i]['time'] and near(m, steps[i - 1][0], sd(steps[i - 1][1])), 'interrupted', f'estimate {i} stored before the error')
    ctx.obs('interrupted')


WORKLOADS = [WL('run', run, 130, 2600), WL('rows', rows, 100, 1000), WL('faults', faults, 15, 250)]
