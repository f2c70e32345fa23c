"""C15: state estimates written to HDF5 read back exactly"""
import json
import shutil
import tempfile
from pathlib import Path

import numpy as np

from lib import est, gen, toy
from lib.harness import WL

RULE = ('A case is one stream of estimates (times, cycle numbers, distributions) written with one set of options (what is stored per step and per cycle, fixed or growing size, '
        'path or open group, storage key, compression, estimator type) and read back through the reader and directly with h5py. The oracle is the list of what was appended. '
        'Files live in a scratch directory of the case. Distinct = options and stream.')
REQUIRED = dict(estimates_read=3000, cycles_read=400, per_step_modes=60, fixed_size=20, growing=20, by_path=25, by_group=25, custom_key=20, joint=20, dual=20, other=10, sparse_cycles=15,
                interleaved_cycles=5, rejected=150, undamaged=60, interrupted=10, multi_output=10, metadata=60, sibling=8, grown_past=10, options=20, reopened=8)
ASSUMPTIONS = ['times are finite and cycle numbers are non-negative']
WHAT = ['full', 'mean_cov', 'mean_var', 'mean', 'none']


def delta_estimator():
    """An estimator whose state is a single point"""
    from moirae.estimators.online import OnlineEstimator
    from moirae.estimators.online.filters.distributions import DeltaDistribution

    class PointEstimator(OnlineEstimator):
        @property
        def state(self):
            return DeltaDistribution(mean=np.concatenate([self.transients.to_numpy().ravel(), self.asoh.get_parameters().ravel()]))
    return PointEstimator


def estimator(ctx):
    """(estimator, state names, output names)"""
    from moirae.estimators.online.joint import JointEstimator
    from moirae.estimators.online.dual import DualEstimator
    rng = ctx.rng
    u = rng.random()
    if u < .25:  # several outputs
        s = toy.spec(rng)
        a, x = toy.build(s)
        for n in ('offset', 'part.rate'):
            if rng.random() < .7 or n == 'offset':
                a.mark_updatable(n)
        i = toy.inp(toy.schedule(rng, 1)[0])
        n = s['x'].shape[1]
        k = x.to_numpy().shape[1]
        names = (('x',) if n == 1 else tuple(f'x[{j}]' for j in range(n))) + ('z', 'offset')
        if 'part.rate' in a.updatable_names:
            names += ('part.rate',) if n == 1 else tuple(f'part.rate[{j}]' for j in range(n))
        outs = ('terminal_voltage', 'extra[0]', 'extra[1]')
        m = len(names) - k
        cell = toy.classes()['Toy']()
        ctx.obs('multi_output')
    else:
        sc = est.Scenario(rng, n_steps=1)
        if sc.na == 0:
            sc = est.Scenario(rng, n_steps=1, names=['r0.base_values'])
        a, x, i, cell, names, outs, k, m = sc.asoh(), sc.transients(), sc.input(0), sc.cell(), sc.state_names(), ('terminal_voltage',), sc.nx, sc.na
    kind = rng.random()
    if kind < .4:
        e = JointEstimator.initialize_unscented_kalman_filter(cell, a, x, i, covariance_transient=1e-4 * np.eye(k), covariance_asoh=1e-6 * np.eye(m))
        ctx.obs('joint')
    elif kind < .8:
        e = DualEstimator.initialize_unscented_kalman_filter(cell, a, x, i, 1e-4 * np.eye(k), 1e-6 * np.eye(m))
        ctx.obs('dual')
    else:
        e = delta_estimator()(cell, a, x, i)
        ctx.obs('other')
    return e, names, outs


def stream(ctx, e, n=None, cycles=None):
    """What a run could produce: [(time, cycle, state, output)]"""
    from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
    rng = ctx.rng
    n = int(rng.choice([0, 1, 2, int(rng.integers(3, 60)), int(rng.integers(100, 300))], p=[.05, .1, .1, .55, .2])) if n is None else n
    t = np.cumsum(rng.choice([0., 1., rng.uniform(0, 100)], n)) + rng.choice([0., 0., -3600., 1.7e9 + rng.random()])  # Also negative and Unix times
    mode = rng.random()
    if cycles is None:
        if mode < .3:
            c = np.sort(rng.integers(0, max(1, n // 8) + 1, n))
        elif mode < .45:
            c = np.zeros(n, int)
        elif mode < .6:
            c = np.full(n, int(rng.integers(0, 300)))
        elif mode < .85:
            c = np.sort(rng.choice(np.unique(rng.integers(0, int(rng.choice([5, 40, 1500])), 8)), n))
            ctx.obs('sparse_cycles')
        else:
            c = rng.integers(0, 6, n)
            ctx.obs('interleaved_cycles')
    else:
        c = cycles
    k, o = e.num_state_dimensions, e.num_output_dimensions
    delta = e.state.__class__.__name__ == 'DeltaDistribution'
    out = []
    for i in range(n):
        def g(d):
            M = rng.normal(size=(d, d))
            return MultivariateGaussian(mean=rng.normal(size=d) * 10. ** rng.integers(-5, 5), covariance=M @ M.T * 10. ** rng.integers(-9, 3))
        s = DeltaDistribution(mean=rng.normal(size=k)) if delta else g(k)
        cyc = c[i]
        cyc = [int(cyc), float(cyc), np.int64(cyc)][int(rng.integers(3))]
        out.append((float(t[i]), cyc, s, g(o)))
    return out


def options(ctx):
    rng = ctx.rng
    kw = {}
    if rng.random() < .9:
        kw['per_timestep'] = str(rng.choice(WHAT))
    if rng.random() < .8:
        kw['per_cycle'] = str(rng.choice(WHAT))
    if rng.random() < .5:
        kw['storage_key'] = str(rng.choice(['est', 'a/b', 'run 1', 'state_estimates']))
        ctx.obs('custom_key')
    u = rng.random()
    if u < .5:
        kw['dataset_options'] = [dict(compression='gzip'), dict(), dict(compression='gzip', shuffle=True), dict(compression=None), dict(fletcher32=True)][int(rng.integers(5))]
        ctx.obs('options')
    if rng.random() < .2:
        kw['file_options'] = dict(libver='latest') if rng.random() < .5 else {}
    return kw


def expected(data, what, cycles):
    """What has to come back"""
    if what == 'none':
        return None
    if not cycles:
        return list(data)
    first = {}
    for r in data:
        first.setdefault(int(r[1]), r)
    return [first[c] for c in sorted(first)]


def compare(ctx, got, want, what, label, ordered=True):
    ctx.check(len(got) == len(want), 'count', f'{label}: {len(got)} estimates read, {len(want)} expected')
    if not ordered:
        got, want = sorted(got, key=lambda r: (r[0], tuple(r[1].get_mean()))), sorted(want, key=lambda r: (r[0], tuple(r[2].get_mean())))
    for i, ((t, s, o), (t0, _, s0, o0)) in enumerate(zip(got, want)):
        ctx.check(float(t) == float(t0), 'time', f'{label}: time of estimate {i} is {t!r} instead of {t0!r}')
        for d, d0, nm in ((s, s0, 'state'), (o, o0, 'output')):
            ctx.check(np.array_equal(d.get_mean(), d0.get_mean()), 'mean', f'{label}: mean of the {nm} {i}', got=d.get_mean(), want=d0.get_mean())
            C = d0.get_covariance()
            if what == 'mean':
                C = None
            elif what == 'mean_var':
                C = np.diag(np.diag(C))
            if C is not None and not (what == 'full' and type(d) is not type(d0)):
                ctx.check(np.array_equal(d.get_covariance(), C), 'covariance', f'{label}: covariance of the {nm} {i}', got=d.get_covariance(), want=C)


def verify(ctx, path, key, kw, e, data, names, outs, prefix='', how=None):
    """Read the file in several ways"""
    import h5py
    from moirae.interface.hdf5 import read_state_estimates
    kinds = dict(per_timestep=kw.get('per_timestep', 'mean'), per_cycle=kw.get('per_cycle', 'full'))
    with h5py.File(path, 'r') as f:
        g = f[prefix + key]
        a = g.attrs
        ctx.check(tuple(a['state_names']) == tuple(names), 'metadata', f'state names {list(a["state_names"])}')
        ctx.check(tuple(a['output_names']) == tuple(outs), 'metadata', f'output names {list(a["output_names"])}')
        ctx.check(a['estimator_name'] == type(e).__name__ and a['cell_model'] == type(e.cell_model).__name__ and a['distribution_type'] == type(e.state).__name__, 'metadata',
                  f'{a["estimator_name"]}, {a["cell_model"]}, {a["distribution_type"]}')
        w = json.loads(a['write_settings'])
        ctx.check(all(w[k] == v for k, v in kinds.items()), 'metadata', f'write settings {w}')
        A = type(e.asoh).model_validate_json(a['initial_asoh'])
        for (n, v), (m, u) in zip(A.iter_parameters(updatable_only=False), e.asoh.iter_parameters(updatable_only=False)):
            ctx.check(n == m and np.array_equal(v, u), 'metadata', f'initial value of {m}')
        X = type(e.transients).model_validate_json(a['initial_transient_state'])
        ctx.check(np.array_equal(X.to_numpy(), e.transients.to_numpy()), 'metadata', 'initial state')
        ctx.obs('metadata')
        for where, what in kinds.items():
            want = expected(data, what, where == 'per_cycle')
            cyc = [int(r[1]) for r in data]
            ordered = where == 'per_timestep' or cyc == sorted(cyc)
            if want is None:
                ctx.check(where not in g, 'none-stored', f'{where} is there though nothing was to be stored')
                ctx.raises(Exception, lambda: list(read_state_estimates(g, per_timestep=where == 'per_timestep')), 'none-read', 'reading what was not stored')
                ctx.obs('rejected')
                continue
            t = g[where]['time'][()]
            ctx.check(np.isfinite(t).sum() == len(want), 'stored-count', f'{where}: {np.isfinite(t).sum()} times stored, {len(want)} expected')
            kd = dict(dist_type=type(e.state))
            if type(e.state).__name__ == 'MultivariateGaussian' and ctx.rng.random() < .5:
                kd = {}
            got = list(read_state_estimates(g, per_timestep=where == 'per_timestep', **kd))
            compare(ctx, got, want, what, f'{where}={what}', ordered)
            ctx.obs('estimates_read', len(got))
            ctx.obs('cycles_read', len(got) * (where == 'per_cycle'))
            if what == 'full':
                from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
                wrong = DeltaDistribution if type(e.state) is MultivariateGaussian else MultivariateGaussian
                ctx.raises(ValueError, lambda: list(read_state_estimates(g, per_timestep=where == 'per_timestep', dist_type=wrong)), 'wrong-type', 'reading as another kind of distribution')
                ctx.obs('rejected')
    if prefix + key == 'state_estimates':
        for where, what in kinds.items():
            if what != 'none':
                cyc = [int(r[1]) for r in data]
                got = list(read_state_estimates(path if ctx.rng.random() < .5 else str(path), per_timestep=where == 'per_timestep', dist_type=type(e.state)))
                compare(ctx, got, expected(data, what, where == 'per_cycle'), what, f'{where}={what} by path', where == 'per_timestep' or cyc == sorted(cyc))
            with h5py.File(path, 'a'):  # not left open by the reader
                pass


def roundtrip(ctx):
    scratch(ctx, _roundtrip)


def scratch(ctx, fn):
    d = Path(tempfile.mkdtemp(prefix='verif-c15-'))
    try:
        fn(ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _roundtrip(ctx, d):
    import h5py
    from moirae.interface.hdf5 import HDF5Writer
    rng = ctx.rng
    e, names, outs = estimator(ctx)
    data = stream(ctx, e)
    kw = options(ctx)
    key = kw.get('storage_key', 'state_estimates')
    n, nc = len(data), max([int(r[1]) for r in data], default=0) + 1
    size = {}
    if rng.random() < .35:
        kw['resizable'] = False
        size = dict(expected_steps=n + int(rng.choice([0, 0, 5])), expected_cycles=nc + int(rng.choice([0, 0, 3])))
        if size['expected_steps'] == 0:
            size['expected_steps'] = 1
        ctx.obs('fixed_size')
    else:
        if rng.random() < .6:
            size['expected_steps'] = max(1, int(rng.choice([n, n + 10, n // 2, 1])))
            ctx.obs('grown_past', int(size['expected_steps'] < n))
        if rng.random() < .6:
            size['expected_cycles'] = max(1, int(rng.choice([nc, nc + 2, nc // 2, 1])))
        ctx.obs('growing')
    path = d / 'out.h5'
    ctx.case(n=n, cycles=sorted({int(r[1]) for r in data})[:12], names=names, size=size, last=None if not data else data[-1][2].get_mean(), **kw)
    ctx.obs('per_step_modes')
    prefix = ''

    def write(w):
        ctx.check(not w.is_ready, 'ready', 'ready before it was opened')
        with w as v:
            ctx.check(w.is_ready and v is w, 'ready', 'not ready although opened')
            w.prepare(e, **size)
            for r in data:
                before = (r[2].get_mean(), r[2].get_covariance(), r[3].get_mean())
                w.append_step(*r) if rng.random() < .7 else w.append_step(time=r[0], cycle=r[1], state=r[2], output=r[3])
                ctx.check(all(np.array_equal(a, b) for a, b in zip(before, (r[2].get_mean(), r[2].get_covariance(), r[3].get_mean()))), 'estimate-changed', 'writing changed an estimate')
        ctx.check(not w.is_ready, 'ready', 'ready after it was closed')

    if rng.random() < .5:
        write(HDF5Writer(hdf5_output=path if rng.random() < .5 else str(path), **kw))
        ctx.obs('by_path')
    else:
        with h5py.File(path, 'w') as f:
            f['other'] = np.arange(5)
            where = f
            if rng.random() < .5:
                prefix = 'cell/'
                where = f.create_group('cell')
            write(HDF5Writer(hdf5_output=where, **kw))
            ctx.check(bool(f) and np.array_equal(f['other'][()], np.arange(5)), 'group-closed', 'the file given by the user was closed or damaged')
        ctx.obs('by_group')
    verify(ctx, path, key, kw, e, data, names, outs, prefix)


def siblings(ctx):
    scratch(ctx, _siblings)


def _siblings(ctx, d):
    """Several sets of estimates in one file; attempts at overwriting them are refused and leave everything as it was"""
    from moirae.interface.hdf5 import HDF5Writer
    rng = ctx.rng
    path = d / 'out.h5'
    sets = {}
    for key in ('state_estimates', 'second', 'deep/third')[:int(rng.integers(1, 4))]:
        e, names, outs = estimator(ctx)
        data = stream(ctx, e, n=int(rng.integers(1, 20)))
        kw = dict(options(ctx), storage_key=key)
        if kw.get('per_timestep') == 'none' == kw.get('per_cycle'):
            kw['per_cycle'] = 'full'
        with HDF5Writer(hdf5_output=path, **kw) as w:
            w.prepare(e, len(data), max(int(r[1]) for r in data) + 1)
            for r in data:
                w.append_step(*r)
        sets[key] = (kw, e, data, names, outs)
        ctx.obs('sibling')
    ctx.case(keys=list(sets), sizes=[len(s[2]) for s in sets.values()], last=data[-1][2].get_mean())
    for key, (kw, e, data, names, outs) in sets.items():
        verify(ctx, path, key, kw, e, data, names, outs)
    # write again where estimates are already
    key = str(rng.choice(list(sets)))
    other, on, oo = estimator(ctx)
    kw2 = dict(options(ctx), storage_key=key)
    if kw2.get('per_timestep') == 'none' == kw2.get('per_cycle'):
        kw2['per_timestep'] = 'mean'

    def again():
        with HDF5Writer(hdf5_output=path, **kw2) as w:
            w.prepare(other, 5, 5)
            for r in stream(ctx, other, n=2):
                w.append_step(*r)
    ctx.raises(Exception, again, 'overwrite', 'writing over existing estimates')
    with HDF5Writer(hdf5_output=path, **kw2) as w:  # going on without preparing
        for r in stream(ctx, other, n=2):
            ctx.raises(Exception, lambda: w.append_step(*r), 'append-unprepared', 'appending to existing estimates')
    ctx.obs('rejected', 3)
    for key, (kw, e, data, names, outs) in sets.items():
        verify(ctx, path, key, kw, e, data, names, outs)
        ctx.obs('undamaged')


def invalid(ctx):
    scratch(ctx, _invalid)


def _invalid(ctx, d):
    """Uses which are refused, and do not change what is in the file"""
    import h5py
    from moirae.interface.hdf5 import HDF5Writer, read_state_estimates
    rng = ctx.rng
    e, names, outs = estimator(ctx)
    data = stream(ctx, e, n=int(rng.integers(4, 12)), cycles=np.sort(rng.integers(0, 4, 12)))
    path = d / 'out.h5'
    what = str(rng.choice(WHAT[:4]))
    kw = dict(per_timestep=what, per_cycle=str(rng.choice(WHAT[:4])), resizable=False)
    ctx.case(n=len(data), **kw, last=data[-1][2].get_mean())
    w = HDF5Writer(hdf5_output=path, **kw)
    ctx.raises(Exception, lambda: w.prepare(e, 3, 3), 'not-open', 'preparing a closed writer')
    ctx.raises(Exception, lambda: w.append_step(*data[0]), 'not-open', 'appending to a closed writer')
    ctx.obs('rejected', 2)
    nc = 4
    with w:
        ctx.raises(Exception, lambda: w.append_step(*data[0]), 'not-prepared', 'appending before preparing')
        for kk in ({}, dict(expected_steps=len(data)), dict(expected_cycles=nc)):
            ctx.raises(ValueError, lambda: w.prepare(e, **kk), 'sizes-missing', f'fixed size with {kk}')
        w.prepare(e, expected_steps=len(data), expected_cycles=nc)
        ctx.raises(Exception, lambda: w.prepare(e, expected_steps=len(data), expected_cycles=nc), 'prepared-twice', 'preparing twice')
        for r in data:
            w.append_step(*r)
        ctx.raises(Exception, lambda: w.append_step(*data[-1]), 'beyond', 'appending more steps than there is room for')
        ctx.obs('rejected', 6)
    ctx.raises(Exception, lambda: w.append_step(*data[0]), 'not-open', 'appending to a writer which was closed')
    ctx.obs('rejected')
    verify(ctx, path, 'state_estimates', kw, e, data, names, outs)
    ctx.obs('undamaged')
    # opened again, it is not ready to go on, and what is there stays
    with w:
        ctx.raises(Exception, lambda: w.append_step(*data[0]), 'reopened', 'appending to a writer opened again, without preparing it')
        ctx.raises(Exception, lambda: w.prepare(e, expected_steps=len(data), expected_cycles=nc), 'reopened', 'preparing where there are estimates already')
        ctx.raises(Exception, lambda: w.append_step(*data[0]), 'reopened', 'appending after a refused preparation')
        ctx.obs('rejected', 3)
    verify(ctx, path, 'state_estimates', kw, e, data, names, outs)
    # more cycles than there is room for
    p2 = d / 'second.h5'
    with HDF5Writer(hdf5_output=p2, **kw) as w:
        w.prepare(e, expected_steps=len(data) + 1, expected_cycles=nc)
        for r in data:
            w.append_step(*r)
        ctx.raises(Exception, lambda: w.append_step(data[-1][0], nc + int(rng.integers(0, 5)), *data[-1][2:]), 'beyond', 'appending more cycles than there is room for')
        ctx.obs('rejected')
    with h5py.File(p2) as f:
        got = list(read_state_estimates(f['state_estimates'], per_timestep=False, dist_type=type(e.state)))
        want = expected(data, kw['per_cycle'], True)
        compare(ctx, got, want, kw['per_cycle'], 'after running out of room for cycles')
        got = list(read_state_estimates(f['state_estimates'], dist_type=type(e.state)))[:len(data)]
        compare(ctx, got, data, what, 'after running out of room for cycles')
    ctx.obs('undamaged')
    # options which do not exist
    for bad in (dict(per_timestep='median'), dict(per_cycle='all')):
        ctx.raises(Exception, lambda: HDF5Writer(hdf5_output=d / 'third.h5', **bad), 'bad-option', f'{bad}')
    # files without estimates
    with h5py.File(d / 'fourth.h5', 'w') as f:
        f['x'] = 1
    ctx.raises(Exception, lambda: list(read_state_estimates(d / 'fourth.h5')), 'no-estimates', 'reading a file without estimates')
    ctx.raises(Exception, lambda: list(read_state_estimates(d / 'missing.h5')), 'no-estimates', 'reading a file which does not exist')
    ctx.check(not (d / 'missing.h5').exists(), 'created', 'reading created a file')
    ctx.obs('rejected', 4)


def interrupted(ctx):
    scratch(ctx, _interrupted)


def _interrupted(ctx, d):
    """An error in the middle of a run leaves the estimates appended so far"""
    import h5py
    from moirae.interface.hdf5 import HDF5Writer

    class Fault(Exception):
        pass
    rng = ctx.rng
    e, names, outs = estimator(ctx)
    data = stream(ctx, e, n=int(rng.integers(2, 40)))
    kw = options(ctx)
    key = kw.get('storage_key', 'state_estimates')
    cut = int(rng.integers(0, len(data)))
    path = d / 'out.h5'
    group = bool(rng.random() < .3)
    ctx.case(n=len(data), cut=cut, group=group, last=data[-1][2].get_mean(), **kw)
    root = h5py.File(path, 'w') if group else path
    w = HDF5Writer(hdf5_output=root, **kw)
    try:
        with w:
            w.prepare(e)
            for i, r in enumerate(data):
                if i == cut:
                    raise Fault
                w.append_step(*r)
        ctx.fail('fault-swallowed', 'an error in the middle of writing disappeared')
    except Fault:
        pass
    ctx.check(not w.is_ready, 'ready', 'ready after a failure')
    if group:
        ctx.check(bool(root), 'group-closed', 'the file given by the user was closed')
        root.close()
    verify(ctx, path, key, kw, e, data[:cut], names, outs)
    ctx.obs('interrupted')
    # the same writer serves another file once this one is out of the way
    if not group:
        path.unlink()
        with w:
            w.prepare(e)
            for r in data:
                w.append_step(*r)
        verify(ctx, path, key, kw, e, data, names, outs)
        # opened once more, it does not go on by itself, though there is room
        if kw.get('per_timestep') != 'none' or kw.get('per_cycle') != 'none':
            with w:
                ctx.raises(Exception, lambda: w.append_step(*data[0]), 'reopened', 'appending to a writer opened again, without preparing it')
                ctx.raises(Exception, lambda: w.prepare(e), 'reopened', 'preparing where there are estimates already')
                ctx.raises(Exception, lambda: w.append_step(*data[0]), 'reopened', 'appending after a refused preparation')
            ctx.obs('reopened')
            verify(ctx, path, key, kw, e, data, names, outs)


WORKLOADS = [WL('roundtrip', roundtrip, 130, 2500), WL('siblings', siblings, 40, 600), WL('invalid', invalid, 25, 300), WL('interrupted', interrupted, 30, 500)]
