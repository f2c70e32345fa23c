"""C17: extractors recover capacity and open circuit voltage from cycling data"""
import warnings

import numpy as np
import pandas as pd
from scipy.interpolate import BSpline

from lib import gen, ref
from lib.harness import WL

RULE = ('A case is one dataset (random cycles of charge, discharge, rests and pulses in any order; or random samples of a voltage curve with random currents, row order, indices and columns) '
        'and one extractor configuration (capacity as number or parameter, SOC points as number or array, interpolation style, requirement). Results are compared with a charge count, '
        'with the curve the data were made from, and with an independent weighted least-squares spline. Distinct = dataset and configuration.')
REQUIRED = dict(capacities=100, from_table=15, computed=40, charged_start=20, short_cycles=10, sparse_cycles=15, ocv_curves=150, exact=60, fitted=60, permuted=120, linear=60, rest_dominated=25,
                number=40, array=40, as_parameter=40, evaluated=100, rejected=60, accepted=40, unmodified=150, beyond=15, repeated=100, edge_requirement=10, exact_requirement=4, many_cycles=8)
ASSUMPTIONS = ['cycles begin either charged or discharged (battery-data-toolkit tells which from the larger excursion)', 'enough samples between any two SOC points for the spline to be determined']


# ------------------------------------------------------------------ capacity
def cycles(ctx, rng, n, max_cap=None):
    """Data frame of constant-current cycles, and the charge capacity of each by counting"""
    t, rows, caps = float(rng.choice([0., rng.uniform(0, 1e5)])), [], []
    numbers = np.arange(n)
    if rng.random() < .5:
        numbers = np.sort(rng.choice(np.arange(60 if n < 25 else 4 * n), n, replace=False))
        ctx.obs('sparse_cycles')
    scale = 10 ** rng.uniform(-1, 2)
    for c in numbers:
        charged = rng.random() < .4
        ctx.obs('charged_start', int(charged))
        if rng.random() < .12 and n > 1:  # one or two samples: no capacity (together with the first of the next cycle it may have one)
            rows.append((t, 0., int(c)))
            t += rng.uniform(1e-6, 1e-3)
            caps.append(None)
            ctx.obs('short_cycles')
            continue
        cap = scale * rng.uniform(.2, 1.)
        back = cap * (1. if rng.random() < .4 else rng.uniform(.3, 1.))
        segs = []
        for sign, q in ((-1 if charged else 1, cap), (1 if charged else -1, back)):
            parts = rng.dirichlet(np.ones(int(rng.integers(1, 4)))) * q
            for p in parts:
                i = scale * rng.uniform(.1, 2.)
                segs.append((sign * i, p / i * 3600))
                if rng.random() < .4:
                    segs.append((0., rng.uniform(10, 1000)))
        # a current is held from one sample to another; it changes within a tiny interval, as cyclers record it
        for i, dur in segs:
            m = int(rng.integers(2, 8))
            for s in np.linspace(0, dur, m):
                rows.append((t + s, i, int(c)))
            t += dur + 1e-6
        rows.append((t, 0., int(c)))
        t += rng.uniform(1e-6, 1e-3)
        caps.append(back if charged else cap)
    df = pd.DataFrame(rows, columns=['test_time', 'current', 'cycle_number'])
    df['voltage'] = 3.5 + .3 * np.sin(df['test_time'] / 1e3)
    return df, numbers, caps


def count(df, numbers):
    """Charge capacity per cycle, by adding up the charge between samples (up to the first of the next cycle)"""
    out = {}
    t, i, c = df['test_time'].to_numpy(), df['current'].to_numpy(), df['cycle_number'].to_numpy()
    for n in numbers:
        idx = np.flatnonzero(c == n)
        hi = min(idx[-1] + 1, len(t) - 1)
        if hi - idx[0] + 1 < 3:
            continue
        run, q = [], 0.
        for k in range(idx[0], hi):
            q += (t[k + 1] - t[k]) * (i[k] + i[k + 1]) / 2
            run.append(q)
        up, down = max(run), -min(run)
        out[n] = (q + down if down > up else up) / 3600
    return out


def capacity(ctx):
    from battdat.data import CellDataset
    from moirae.extractors.ecm import MaxCapacityExtractor
    from moirae.models.ecm.components import MaxTheoreticalCapacity
    rng = ctx.rng
    n = int(rng.integers(1, 7)) if rng.random() < .9 else int(rng.integers(20, 120))
    ctx.obs('many_cycles', int(n >= 20))
    while True:
        df, numbers, caps = cycles(ctx, rng, n)
        if any(c is not None for c in caps):
            break
    counted = count(df, numbers)
    best = max(counted.values())
    near = max(c for c in caps if c is not None)
    assert abs(best - near) < .01 * near, (best, near)  # of this harness
    mode = str(rng.choice(['computed', 'computed', 'from_table', 'other_table', 'integrals']))
    ctx.case(mode=mode, cycles=n, caps=[None if c is None else round(c, 9) for c in caps], rows=len(df))
    if rng.random() < .4:
        df.index = rng.permutation(len(df)) if rng.random() < .5 else np.arange(len(df)) * 2 + 7
    want, stats = best, None
    if mode in ('from_table', 'other_table'):
        stats = pd.DataFrame({'cycle_number': numbers})
        stats['energy_charge'] = 1.
    if mode == 'from_table':
        v = rng.uniform(.1, 50, n)
        if n > 1 and rng.random() < .5:
            v[rng.integers(n)] = np.nan
        stats['capacity_charge'] = v
        stats['capacity_discharge'] = v * rng.uniform(.5, 3, n)
        want = np.nanmax(v)
    if mode == 'integrals':  # running integrals already computed (here, of another scale than the currents)
        f = rng.uniform(.5, 2.)
        q, parts = [], df.reset_index(drop=True)
        for c in numbers:
            idx = np.flatnonzero(parts['cycle_number'] == c)
            t, i = parts['test_time'].to_numpy(), parts['current'].to_numpy()
            q += [0.] + list(np.cumsum(np.diff(t[idx]) * (i[idx][1:] + i[idx][:-1]) / 2) / 3600 * f)
        df['cycle_capacity'] = q
        both = rng.random() < .6
        if both:
            df['cycle_energy'] = np.array(q) * 3.6
        want = None if both else best
        if both:  # the last sample of a cycle is then the first of the next one
            got_ = []
            for k, c in enumerate(numbers):
                idx = np.flatnonzero(df['cycle_number'].to_numpy() == c)
                hi = min(idx[-1] + 1, len(df) - 1)
                run = df['cycle_capacity'].to_numpy()[idx[0]:hi + 1]
                if len(run) >= 3:
                    got_.append(run[-1] - run.min() if -run.min() > run.max() else run.max())
            want = max(got_)
    tables = dict(raw_data=df.copy())
    if stats is not None:
        tables['cycle_stats'] = stats.copy()
    data = CellDataset(**tables)
    ex = MaxCapacityExtractor()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ex.check_data(data)
        r = ex.extract(data)
        again = MaxCapacityExtractor().extract(data)
    ctx.check(isinstance(r, MaxTheoreticalCapacity), 'type', f'{type(r)}')
    for x, label in ((r, mode), (again, f'{mode}, again')):
        ctx.close(x.amp_hour, [[want]], 'capacity', f'{label}: of {len(numbers)} cycles', rtol=1e-9)
        ctx.close(x.value, [[want * 3600]], 'capacity', f'{label}: in A-s', rtol=1e-9)
        ctx.obs('capacities')
    ctx.obs('from_table' if mode == 'from_table' else 'computed')
    pd.testing.assert_frame_equal(data.tables['raw_data'], df)
    if mode == 'from_table':
        pd.testing.assert_frame_equal(data.tables['cycle_stats'], stats)
    elif mode == 'other_table':
        pd.testing.assert_frame_equal(data.tables['cycle_stats'][list(stats.columns)].drop(columns='energy_charge'), stats.drop(columns='energy_charge'))
    ctx.obs('unmodified')


# ------------------------------------------------------------------ open circuit voltage
def config(rng):
    """(capacity, SOC points as given, as array, keyword arguments)"""
    cap = float(10 ** rng.uniform(-1, 2))
    kw, u = {}, rng.random()
    if u < .2:
        pts = np.linspace(0, 1, 11)
        given = None
    elif u < .6:
        given = int(rng.integers(3, 20))
        pts = np.linspace(0, 1, given)
        kw['soc_points'] = given
    else:
        n = int(rng.integers(3, 16))
        pts = np.linspace(0, 1, n) + rng.uniform(-.25, .25, n) / n
        if rng.random() < .5:
            pts[0], pts[-1] = 0., 1.
        given = pts.copy()
        kw['soc_points'] = given
    if rng.random() < .5:
        style = str(rng.choice(['linear', 'cubic', 'quadratic', 'previous', 'nearest']))
        if len(pts) < 4 and style == 'cubic':
            style = 'linear'
        kw['interpolation_style'] = style
    elif len(pts) < 4:
        kw['interpolation_style'] = 'linear'
    if rng.random() < .4:
        kw['soc_requirement'] = float(rng.uniform(.3, 1.))
    return cap, pts, kw


def samples(rng, pts, cap):
    """(SOC, current) of a random cycle which determines a spline with knots at these points"""
    k = len(pts)
    lo, hi = min(0., pts[0]), max(1., pts[-1])
    u = rng.random()
    if u < .3:
        lo, hi = lo - rng.uniform(0, .05), hi + rng.uniform(0, .05)
    elif u < .5:  # not quite the entire range
        lo, hi = max(lo, pts[0] + .1 * (pts[1] - pts[0])), min(hi, pts[-1] - .1 * (pts[-1] - pts[-2]))
    edges = np.concatenate([[lo], pts[1:-1], [hi]])
    soc = [lo, hi]
    for a, b in zip(edges[:-1], edges[1:]):
        soc += list(np.linspace(a, b, 9)[1:-1] + rng.uniform(-.04, .04, 7) * (b - a))
    soc = np.array(soc + list(rng.uniform(lo, hi, int(rng.integers(0, 80)))))
    if rng.random() < .5:  # charge and discharge pass through the same points
        soc = np.concatenate([soc, rng.choice(soc, len(soc) // 2)])
    soc = rng.permutation(soc)
    cur = cap * rng.choice([-1, 1], len(soc)) * 10 ** rng.uniform(-3, .5, len(soc))
    v = rng.random()
    if v < .35:
        cur[rng.random(len(soc)) < .2] = 0.
    elif v < .5:
        cur[:] = cap * rng.choice([-.1, .1], len(soc))
    return soc, cur, lo, hi


def basis(x, knots, lo, hi):
    t = np.concatenate([[lo] * 4, knots, [hi] * 4])
    n = len(t) - 4
    return np.stack([BSpline(t, np.eye(n)[i], 3, extrapolate=True)(x) for i in range(n)], axis=1)


def frame(rng, soc, cur, v, cap):
    n = len(soc)
    df = pd.DataFrame(dict(test_time=np.arange(n) * 10., current=cur, voltage=v, cycle_number=0, cycle_capacity=soc * cap))
    if rng.random() < .5:
        df['cycle_energy'] = df['cycle_capacity'] * 3.6
    if rng.random() < .3:
        df['soc'] = rng.uniform(size=n)  # of another origin
    if rng.random() < .4:
        df.index = rng.permutation(n)
    elif rng.random() < .3:
        df.index = np.zeros(n, int)
    return df[list(rng.permutation(df.columns))]


def ocv(ctx):
    from battdat.data import CellDataset
    from moirae.extractors.ecm import OCVExtractor
    from moirae.models.ecm.components import MaxTheoreticalCapacity, OpenCircuitVoltage
    rng = ctx.rng
    cap, pts, kw = config(rng)
    ctx.obs('number' if not isinstance(kw.get('soc_points'), np.ndarray) else 'array')
    as_param = rng.random() < .4
    ctx.obs('as_parameter', int(as_param))
    soc, cur, lo, hi = samples(rng, pts, cap)
    ctx.obs('beyond', int(lo < 0 or hi > 1))
    knots = pts[1:-1]
    B = basis(soc, knots, lo, hi)
    c0 = 3 + rng.uniform(0, 1) * np.linspace(0, 1, B.shape[1]) + rng.normal(0, .1, B.shape[1])
    curve = B @ c0
    E = basis(pts, knots, lo, hi)
    ctx.case(cap=cap, points=pts, rows=len(soc), lo=lo, hi=hi, first=curve[0], **{k: v for k, v in kw.items() if k != 'soc_points'})
    make = lambda: OCVExtractor(MaxTheoreticalCapacity(base_values=cap) if as_param else cap, **kw)  # noqa: E731
    ex = make()
    if isinstance(kw.get('soc_points'), np.ndarray) and rng.random() < .5:
        kw['soc_points'] *= .5  # the array remains the caller's
        kw['soc_points'] = pts.copy()
    scale = np.abs(E).sum(axis=1).max() * 4

    def extract(df, e=None):
        keep = df.copy()
        data = CellDataset(raw_data=df)
        r = (e or ex).extract(data)
        pd.testing.assert_frame_equal(df, keep)
        pd.testing.assert_frame_equal(data.tables['raw_data'], keep)
        ctx.obs('unmodified')
        ctx.check(isinstance(r, OpenCircuitVoltage), 'type', f'{type(r)}')
        p = r.ocv_ref
        ctx.close(np.ravel(p.soc_pinpoints), pts, 'soc-points', 'of the result', rtol=1e-14)
        ctx.check(p.interpolation_style == kw.get('interpolation_style', 'cubic'), 'style', f'{p.interpolation_style} with {kw}')
        ctx.check(p.base_values.shape == (1, len(pts)), 'shape', f'{p.base_values.shape}')
        ctx.obs('ocv_curves')
        return p.base_values[0].copy(), r

    w = 1. / np.maximum(np.abs(cur), 1e-6)
    w /= w.max()

    def fit(v):
        return E @ np.linalg.lstsq(w[:, None] * B, w * v, rcond=None)[0]
    # curves the splines can represent are found whatever the currents
    df = frame(rng, soc, cur, curve, cap)
    got, r = extract(df)
    sens = np.abs(E @ np.linalg.pinv(w[:, None] * B)) @ (w * np.abs(curve) * 1e-13)  # how far rounding may reach
    tol = 1e-8 * scale + 1e2 * sens
    if tol.max() < 1e-4:
        ctx.check((np.abs(got - E @ c0) <= tol).all(), 'curve', 'a curve within the family of splines is not reproduced', got=got, want=E @ c0)
        ctx.obs('exact')
    # the result is the curve through these points
    for s in rng.choice(pts, 3):
        ctx.check(abs(float(np.ravel(r.get_value(float(s)))[0]) - got[list(pts).index(s)]) < 1e-8 * scale, 'evaluate', f'at {s}') if kw.get('interpolation_style', 'cubic') in ('cubic', 'linear') else None
    s = float(rng.uniform(pts[0], pts[-1]))
    style = kw.get('interpolation_style', 'cubic')
    if style != 'nearest':
        ctx.close(np.ravel(r.get_value(s)), [ref.interp(dict(v=got, pins=pts, style=style), s)], 'evaluate', f'{style} at {s}', rtol=1e-7)
    ctx.obs('evaluated')
    # any others by least squares
    noise = rng.normal(0, .05, len(soc)) + .02 * np.sign(cur) + cur / cap * .05
    v = curve + noise
    df2 = frame(rng, soc, cur, v, cap)
    got2, _ = extract(df2)
    ftol = 1e-7 + 100 * tol + 1e-14 * np.linalg.cond(w[:, None] * B) ** 2 * scale
    if ftol.max() < 1e-3:
        ctx.check((np.abs(got2 - fit(v)) <= ftol).all(), 'fit', 'weighted least squares', got=got2, want=fit(v))
        ctx.obs('fitted')
        # linear in the voltages
        a, b = rng.uniform(-2, 2, 2)
        got3, _ = extract(frame(rng, soc, cur, a * curve + b * v, cap), make())
        ctx.check((np.abs(got3 - (a * got + b * got2)) <= 3 * ftol).all(), 'linear', f'{a} and {b} times the voltages', got=got3, want=a * got + b * got2)
        ctx.obs('linear')
    # whatever the order of rows
    for _ in range(2):
        got4, _ = extract(df2.iloc[rng.permutation(len(df2))])
        ctx.check((np.abs(got4 - got2) <= ftol).all() or ftol.max() > 1e-3, 'row-order', 'result depends on the order of rows', got=got4, want=got2)
        ctx.obs('permuted')
    again, r2 = extract(df)
    ctx.check(np.allclose(again, got, rtol=1e-9, atol=0), 'not-repeatable', 'second extraction')
    ctx.obs('repeated')
    # low currents outweigh high ones
    rest = rng.random(len(soc)) < .5
    cover = all(((soc[rest] > a) & (soc[rest] < b)).sum() >= 4 for a, b in zip(np.concatenate([[lo], knots]), np.concatenate([knots, [hi]])))
    if cover:
        i = np.where(rest, cap * 1e-5, cap)
        v = curve + np.where(rest, 0., 1.)
        w = 1. / i
        w /= w.max()
        sens = np.abs(E @ np.linalg.pinv((w[:, None] * B)[rest])).sum(axis=1).max()
        got5, _ = extract(frame(rng, soc, i * rng.choice([-1, 1], len(soc)), v, cap))
        if sens < 1e3:
            ctx.check((np.abs(got5 - E @ c0) <= 1e-9 * sens * len(soc) + 1e-6).all(), 'weights', 'samples at high currents matter', got=got5, want=E @ c0)
            ctx.obs('rest_dominated')


def requirement(ctx):
    """Datasets which are (not) fit for extraction"""
    from battdat.data import CellDataset
    from moirae.extractors.ecm import OCVExtractor
    from moirae.models.ecm.components import MaxTheoreticalCapacity
    rng = ctx.rng
    while True:
        df, numbers, caps = cycles(ctx, rng, int(rng.integers(1, 5)))
        if any(c is not None for c in caps):
            break
    req = float(rng.uniform(.2, 1.)) if rng.random() < .7 else None
    kw = {} if req is None else dict(soc_requirement=req)
    need = .95 if req is None else req
    best = max(count(df, numbers).values())
    stats = None
    if rng.random() < .5:
        stats = pd.DataFrame({'cycle_number': numbers})
        v = rng.uniform(.1, 10, len(numbers))
        if len(numbers) > 1:
            v[rng.integers(len(numbers))] = np.nan
        stats['capacity_charge'] = v
        stats['capacity_discharge'] = 1e9
        best = np.nanmax(v)
    frac = float(rng.choice([need * rng.uniform(.1, .98), need * rng.uniform(1.02, 2), need * (1 - 1e-6), need * (1 + 1e-6)]))
    if stats is not None and rng.random() < .25:  # exactly what is required
        need = float(rng.choice([.5, .75, .875, 1.]))
        kw['soc_requirement'] = need
        best = need * float(rng.integers(1, 50))
        stats['capacity_charge'] = best * rng.uniform(.1, .9, len(stats))
        stats.loc[int(rng.integers(len(stats))), 'capacity_charge'] = best
        frac = need
        ctx.obs('exact_requirement')
    ctx.obs('edge_requirement', int(abs(frac / need - 1) < 1e-3))
    cap = best / frac
    ctx.case(cap=cap, need=need, frac=frac, stats=stats is not None)
    tables = dict(raw_data=df.copy())
    if stats is not None:
        tables['cycle_stats'] = stats.copy()
    data = CellDataset(**tables)
    ex = OCVExtractor(MaxTheoreticalCapacity(base_values=cap) if rng.random() < .4 else cap, **kw)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for _ in range(2):
            if frac < need:
                ctx.raises(ValueError, lambda: ex.check_data(data), 'accepted', f'a dataset sampling {frac} of the capacity where {need} is required')
                ctx.obs('rejected')
            else:
                ex.check_data(data)
                ctx.obs('accepted')
    pd.testing.assert_frame_equal(data.tables['raw_data'], df)
    if stats is not None:
        pd.testing.assert_frame_equal(data.tables['cycle_stats'], stats)
        for d in (CellDataset(cycle_stats=stats), CellDataset()):
            ctx.raises(ValueError, lambda: ex.check_data(d), 'accepted', 'a dataset without raw data')
        ctx.obs('rejected')
    ctx.obs('unmodified')


WORKLOADS = [WL('capacity', capacity, 200, 30000), WL('ocv', ocv, 240, 40000), WL('requirement', requirement, 200, 25000)]
