"""C23: results follow the symmetries of the physics"""
import copy

import numpy as np

from lib import ecm, est, gen
from lib.harness import WL

RULE = ('A case is one circuit and history, computed as it is and after a chain of changes which physics cannot notice or must follow in a known way: another origin of time or '
        'temperature, other units of charge, voltage or time (a larger cell), an offset of all voltages, RC elements in another order or split in two, charge and discharge exchanged, '
        'an interpolated curve with superfluous points. Only results of the library are compared with each other. Distinct = circuit, history and changes.')
KINDS = ['clock', 'thermometer', 'cell_size', 'voltage_unit', 'voltage_offset', 'time_unit', 'mirror', 'permuted', 'split', 'refined']
REQUIRED = dict(simulations=150, sim_steps=1500, estimators=60, est_steps=250, losses=40, capacities=40, curves=40, batched=30, joint=20, dual=20, normalized=12,
                **{'sim_' + k: 12 for k in KINDS}, **{'est_' + k: 5 for k in KINDS[:7]}, **{'loss_' + k: 3 for k in KINDS[:7]})
ASSUMPTIONS = ['linear or spline interpolation', 'round-off (1e-9) of the changed numbers does not matter', 'charge and discharge are exchanged only where the efficiency is one']


def grid(p):
    """SOC points of a parameter, also where they are implied"""
    return p['pins'] if p['pins'] is not None or p['v'].shape[1] == 1 else np.linspace(0, 1, p['v'].shape[1])


def curves(s):
    """Everything that depends on the SOC"""
    return [s['ocv'], s['ent'], s['r0'], s['h0']] + ([] if s['c0'] is None else [s['c0']]) + [e[k] for e in s['rc'] for k in 'rc']


class Change:
    """One change. Acts on specifications of circuits, states and inputs in place; keeps what it does to the columns of a state and to voltages as (factor, offset)"""

    def __init__(self, kind, rng):
        self.kind = kind
        k = float(10 ** rng.uniform(-4, 4)) if rng.random() < .5 else float(10 ** rng.uniform(-1, 1))
        self.k = dict(clock=float(rng.choice([1.7e9, 86400., -50., rng.integers(-10 ** 4, 10 ** 6)])), thermometer=float(rng.choice([273.15, 5., rng.uniform(-30, 30)])), voltage_offset=float(rng.uniform(.1, 3))).get(kind, k)
        self.rng = rng

    def circuit(self, s):
        k, kind = self.k, self.kind
        res = [s['r0']] + [e['r'] for e in s['rc']]
        cap = ([] if s['c0'] is None else [s['c0']]) + [e['c'] for e in s['rc']]
        if kind == 'thermometer':
            s['ocv']['tref'] = s['ocv']['tref'] + k
            for r in res:
                r['tref'] = r['tref'] + k
        elif kind == 'cell_size':
            s['qt'] = s['qt'] * k
            for r in res:
                r['v'] = r['v'] / k
            for c in cap:
                c['v'] = c['v'] * k
        elif kind == 'voltage_unit':
            for p in [s['ocv'], s['ent'], s['h0']] + res:
                p['v'] = p['v'] * k
            for c in cap:
                c['v'] = c['v'] / k
        elif kind == 'voltage_offset':
            s['ocv']['v'] = s['ocv']['v'] + k
        elif kind == 'time_unit':
            s['qt'] = s['qt'] * k
            for c in cap:
                c['v'] = c['v'] * k
        elif kind == 'mirror':
            for p in curves(s):
                if grid(p) is not None:
                    p['pins'] = 1 - grid(p)
            s['ocv']['v'], s['ent']['v'] = -s['ocv']['v'], -s['ent']['v']
        elif kind == 'permuted':
            self.order = self.rng.permutation(len(s['rc']))
            s['rc'] = [s['rc'][i] for i in self.order]
        elif kind == 'split':
            self.which = int(self.rng.integers(len(s['rc'])))
            self.share = float(self.rng.uniform(.1, .9))
            e, f = s['rc'][self.which], copy.deepcopy(s['rc'][self.which])
            for x, w in ((e, self.share), (f, 1 - self.share)):
                x['r']['v'], x['c']['v'] = x['r']['v'] * w, x['c']['v'] / w
            s['rc'].append(f)
        elif kind == 'refined':
            for p in curves(s):
                if p['v'].shape[1] > 1 and p['style'] in ('linear', 'slinear') and self.rng.random() < .8:
                    x = grid(p)
                    o = np.argsort(x)
                    x, v = x[o], p['v'][:, o]
                    i = self.rng.integers(0, len(x) - 1, int(self.rng.integers(1, 4)))
                    f = self.rng.uniform(.1, .9, len(i))
                    y, w = x[i] + f * (x[i + 1] - x[i]), v[:, i] + f * (v[:, i + 1] - v[:, i])
                    x, v = np.concatenate([x, y]), np.concatenate([v, w], axis=1)
                    o = np.argsort(x)
                    o = o[np.concatenate([[True], np.diff(x[o]) > 1e-6])]
                    p['pins'], p['v'] = x[o], v[:, o]
        return s

    def state(self, s):
        k, kind = self.k, self.kind
        if kind in ('cell_size', 'time_unit') and s['q0'] is not None:
            s['q0'] = s['q0'] * k
        if kind == 'cell_size':
            s['i_rc'] = s['i_rc'] * k
        elif kind == 'voltage_unit':
            s['hyst'] = s['hyst'] * k
        elif kind == 'mirror':
            s['soc'] = 1 - s['soc']
            for f in ('q0', 'i_rc', 'hyst'):
                if s[f] is not None:
                    s[f] = -s[f]
        elif kind == 'permuted':
            s['i_rc'] = s['i_rc'][:, self.order]
        elif kind == 'split':
            s['i_rc'] = np.concatenate([s['i_rc'], s['i_rc'][:, [self.which]]], axis=1)
        return s

    def input(self, u):
        k, kind = self.k, self.kind
        if kind == 'clock':
            u['time'] = u['time'] + k
        elif kind == 'time_unit':
            u['time'] = u['time'] * k
        elif kind == 'thermometer' and u['temperature'] is not None:
            u['temperature'] = u['temperature'] + k
        elif kind in ('cell_size', 'mirror'):
            u['current'] = u['current'] * (k if kind == 'cell_size' else -1)
        return u

    def volt(self, v):
        return v * self.k if self.kind == 'voltage_unit' else v + self.k if self.kind == 'voltage_offset' else -v if self.kind == 'mirror' else v


def quantise(inputs):
    """Times which stay what they are when a whole number of seconds is added"""
    for u in inputs:
        u['time'] = float(np.round(u['time'] * 2 ** 12) / 2 ** 12)
        if abs(u['current']) < 1e-12:
            u['current'] = 0.


def pick(rng, allowed):
    kinds = list(rng.permutation(allowed))
    if 'mirror' in kinds and rng.random() < .6:  # not possible in most cases
        kinds = ['mirror'] + [k for k in kinds if k != 'mirror']
    kinds = [str(k) for k in kinds[:int(rng.choice([1, 1, 2, 3]))]]
    # (time is changed last and once, so that intervals stay exact)
    if 'clock' in kinds and 'time_unit' in kinds:
        kinds.remove('time_unit')
    return [Change(k, rng) for k in kinds]


# ---------------------------------------------------------------- simulations
def simulate(ctx):
    from moirae.simulator import Simulator
    rng = ctx.rng
    B = int(rng.choice([1, 1, 1, 2, 4]))
    batched = None if B == 1 else ['all', float(rng.uniform(.1, .8))][int(rng.integers(2))]
    mode = str(rng.choice(['constant', 'linear']))
    spec = gen.circuit(rng, B, batched=batched)
    mirror = bool(rng.random() < .4)
    if mirror:
        spec['ce'] = np.ones((1, 1))  # (batches of it would show in the shapes while charging only)
    st = gen.state(rng, spec, B, batched=batched, lo=.3, hi=.7)
    first = gen.member_batched(spec, 0)
    first['qt'] = np.array([[spec['qt'].min()]])
    inputs = gen.schedule(rng, first, int(rng.integers(2, 14)), mode=mode, t0=float(rng.choice([0., 1e4])), lo=.2, hi=.8)
    quantise(inputs)
    allowed = [k for k in KINDS if not (k == 'mirror' and not mirror or k == 'permuted' and len(spec['rc']) < 2 or k == 'split' and not spec['rc'])]
    changes = pick(rng, allowed)
    ctx.case(**gen.describe(spec), mode=mode, changes=[(c.kind, c.k) for c in changes], n=len(inputs), last=inputs[-1])
    ctx.obs('simulations')
    ctx.obs('batched', int(B > 1))
    spec2, st2, inputs2 = copy.deepcopy(spec), copy.deepcopy(st), copy.deepcopy(inputs)
    for c in changes:
        ctx.obs('sim_' + c.kind)
        c.circuit(spec2)
        st2 = c.state(st2)
        inputs2 = [c.input(u) for u in inputs2]

    def run(spec, st, inputs):
        s = Simulator(ecm.model(mode), gen.build_asoh(spec), gen.build_state(st), gen.build_input(inputs[0]), keep_history=True)
        out = [(s.transient, s.measurement)]
        return out + [s.step(gen.build_input(u)) for u in inputs[1:]]
    a, b = run(spec, st, inputs), run(spec2, st2, inputs2)
    # What the states are compared with: the largest of their kind
    cur = max(abs(u['current']) for u in inputs) + float(np.abs(st['i_rc']).max() if spec['rc'] else 0)
    vs = float(np.abs(spec['ocv']['v']).max()) + 1.
    size = dict(soc=1., i_rc=cur, hyst=float(np.abs(spec['h0']['v']).max()) * 3 + float(np.abs(st['hyst']).max()))
    if st['q0'] is not None:
        size['q0'] = float(np.abs(st['q0']).max()) + float(np.max(spec['qt'])) * 3600
    fields = list(size)
    for i, ((x, y), (x2, y2)) in enumerate(zip(a, b)):
        s = {f: np.array(getattr(x, f), float) for f in fields}
        s.setdefault('q0', None)
        v = np.array(y.terminal_voltage, float)
        unit = dict(size)
        unit.setdefault('q0', 0.)
        unit['v'] = vs + float(np.abs(v).max())
        for c in changes:
            s, v = c.state(s), c.volt(v)
            if c.kind in ('cell_size', 'time_unit'):
                unit['q0'] *= c.k
            if c.kind == 'cell_size':
                unit['i_rc'] *= c.k
            if c.kind == 'voltage_unit':
                unit['hyst'], unit['v'] = unit['hyst'] * c.k, unit['v'] * c.k
            if c.kind == 'voltage_offset':
                unit['v'] += c.k
        label = f'step {i} after ' + ', '.join(f'{c.kind} ({c.k:.4g})' for c in changes)
        for f in fields:
            ctx.close(np.array(getattr(x2, f), float), s[f], changes[0].kind + '-state', f'{f} of {label}', rtol=0, atol=3e-9 * unit[f] + 1e-300)
        ctx.close(np.array(y2.terminal_voltage, float), v, changes[0].kind + '-voltage', f'voltage of {label}', rtol=0, atol=3e-9 * unit['v'])
        ctx.obs('sim_steps')


# ---------------------------------------------------------------- estimators and losses
def changed(sc, changes):
    """(changed scenario, factors, offsets) of states and estimated parameters together"""
    out = copy.copy(sc)
    out.spec, out.state0, out.inputs, out.volts = copy.deepcopy(sc.spec), copy.deepcopy(sc.state0), copy.deepcopy(sc.inputs), list(sc.volts)

    def vector(spec, st):
        m = gen.member(spec, 0)
        return np.concatenate([gen.state_matrix(st)[0]] + [np.atleast_1d(sc.get(n, m)) for n in sc.names])
    D, b = np.ones(sc.nx + sc.na), np.zeros(sc.nx + sc.na)
    fac = 1.
    for c in changes:
        # how it acts, from two points (all of them are affine, one variable at a time)
        probe = []
        for f in (1., 1.25):
            s, t = copy.deepcopy(out.spec), copy.deepcopy(out.state0)
            for path in gen.param_paths(s):
                d, k = gen.locate(s, path)
                d[k] = np.full_like(d[k], f)
            for k in t:
                if t[k] is not None:
                    t[k] = np.full_like(t[k], f)
            probe.append(vector(c.circuit(s), c.state(t)))
        d = (probe[1] - probe[0]) / .25
        D, b = D * d, b * d + probe[0] - d
        c.circuit(out.spec)
        out.state0 = c.state(out.state0)
        out.inputs = [c.input(u) for u in out.inputs]
        out.volts = [c.volt(v) for v in out.volts]
        fac *= c.k if c.kind == 'voltage_unit' else 1.
    out.mem = gen.member(out.spec, 0)
    out.x0, out.a0 = gen.state_matrix(out.state0)[0], vector(out.spec, out.state0)[sc.nx:]
    for k in ('Px', 'Qx'):
        setattr(out, k, D[:sc.nx, None] * getattr(sc, k) * D[:sc.nx])
    for k in ('Pa', 'Qa'):
        setattr(out, k, D[sc.nx:, None] * getattr(sc, k) * D[sc.nx:])
    for k in ('Pj', 'Qj'):
        setattr(out, k, D[:, None] * getattr(sc, k) * D)
    out.noise, out.R = sc.noise * fac, sc.R * fac ** 2
    return out, D, b, fac


def scenario(rng, dual, **kw):
    """(scenario, changes)"""
    while True:
        names = None
        mirror = rng.random() < .3
        probe = est.Scenario(rng, n_steps=2)
        if dual:
            paths = gen.param_paths(probe.spec)
            names = [paths[i] for i in np.sort(rng.choice(len(paths), int(rng.integers(1, 5)), replace=False))]
        sc = est.Scenario(rng, n_steps=int(rng.integers(5, 14)), rel=.3, names=names, zero_params=True, n_rc=len(probe.spec['rc']), has_c0=probe.spec['c0'] is not None,
                          no_rest=True, noise=2e-3, dt_range=(-.5, 3.3), **kw)
        if mirror:
            if 'ce' in sc.names:
                continue
            sc.spec['ce'] = np.ones((1, 1))
            sc.mem['ce'] = 1.
            sc.simulate(rng, sc.sx * rng.normal(size=sc.nx).clip(-2, 2), sc.sa * rng.normal(size=sc.na).clip(-2, 2))
        if min(np.diff([u['time'] for u in sc.inputs])) < .05:
            continue
        quantise(sc.inputs)
        return sc, pick(rng, [k for k in KINDS[:7] if k != 'mirror' or mirror])


def estimate(ctx):
    from moirae.estimators.online.joint import JointEstimator
    from moirae.estimators.online.dual import DualEstimator
    rng = ctx.rng
    dual = bool(rng.random() < .5)
    sc, changes = scenario(rng, dual)
    if not dual and rng.random() < .2:
        sc.names, sc.sizes, sc.a0, sc.sa, sc.na = (), [], sc.a0[:0], sc.sa[:0], 0
        sc.Pa, sc.Qa, sc.Pj, sc.Qj = sc.Pa[:0, :0], sc.Qa[:0, :0], sc.Pj[:sc.nx, :sc.nx], sc.Qj[:sc.nx, :sc.nx]
    sc2, D, b, fac = changed(sc, changes)
    normalize = bool(rng.random() < .3) and bool((np.abs(sc2.a0) > 1e-3 * np.abs(D[sc.nx:]) * np.sqrt(np.diag(sc.Pa))).all())
    tun = est.tuning(rng, 2 * (sc.nx + sc.na) + 1)
    ctx.case(**sc.describe(), dual=dual, normalize=normalize, tun=tun, changes=[(c.kind, c.k) for c in changes])
    ctx.obs('estimators')
    ctx.obs('dual' if dual else 'joint')
    ctx.obs('normalized', int(normalize))
    for c in changes:
        ctx.obs('est_' + c.kind)
    cls = DualEstimator if dual else JointEstimator
    tuning = dict(filter_args=dict(transient=tun, asoh=tun) if dual else tun)

    def build(s):
        return cls.initialize_unscented_kalman_filter(cell_model=s.cell(), initial_asoh=s.asoh(), initial_transients=s.transients(), initial_inputs=s.input(0),
                                                      covariance_transient=s.Px.copy(), covariance_asoh=s.Pa.copy(), transient_covariance_process_noise=s.Qx.copy(),
                                                      asoh_covariance_process_noise=s.Qa.copy(), covariance_sensor_noise=s.R.copy(), normalize_asoh=normalize, **tuning)
    e, e2 = build(sc), build(sc2)
    label = ', '.join(f'{c.kind} ({c.k:.4g})' for c in changes)
    for i in range(1, len(sc.inputs)):
        h = e.state
        if not sc.in_domain(h.get_mean(), h.get_covariance()) or np.linalg.eigvalsh(est.scaled(h.get_covariance())).min() < 1e-5:
            break
        h, y = e.step(sc.input(i), sc.measurement(i))
        P = h.get_covariance()
        if np.linalg.eigvalsh(est.scaled(P)).min() < 1e-6:
            break
        h2, y2 = e2.step(sc2.input(i), sc2.measurement(i))
        v = float(y.get_mean()[0])
        for c in changes:
            v = c.volt(v)
        compare(ctx, h2, D * h.get_mean() + b, D[:, None] * P * D, changes[0].kind, f'belief of step {i} after {label}', np.abs(b))
        compare(ctx, y2, np.array([v]), y.get_covariance() * fac ** 2, changes[0].kind, f'predicted voltage of step {i} after {label}')
        ctx.obs('est_steps')


def compare(ctx, d, m, C, kind, msg, extra=0.):
    sd = np.sqrt(np.maximum(np.diag(C), 1e-300))
    dm = np.abs(d.get_mean() - m)
    ctx.check((dm <= 1e-5 * sd + 1e-9 * np.abs(m) + 1e-12 * extra).all(), kind + '-estimate', f'{msg}: means differ by {(dm / sd).max():.2g} standard deviations', got=d.get_mean(), want=m)
    r = np.abs(d.get_covariance() - C) / np.outer(sd, sd)
    ctx.check(r.max() <= 1e-4, kind + '-covariance', f'{msg}: covariances differ by {r.max():.2g} of the variances', got=d.get_covariance(), want=C)


def loss(ctx):
    import pandas as pd
    from battdat.data import CellDataset
    from moirae.estimators.offline.loss import MeanSquaredLoss
    rng = ctx.rng
    sc, changes = scenario(rng, True, temps=str(rng.choice(['const', 'vary'])))
    sc2, D, b, fac = changed(sc, changes)
    ctx.case(**sc.describe(), changes=[(c.kind, c.k) for c in changes])
    ctx.obs('losses')
    for c in changes:
        ctx.obs('loss_' + c.kind)

    def build(s):
        return MeanSquaredLoss(s.cell(), s.asoh(), s.transients(), CellDataset(raw_data=pd.DataFrame(dict(
            test_time=[u['time'] for u in s.inputs], current=[u['current'] for u in s.inputs], voltage=s.volts, temperature=[u['temperature'] for u in s.inputs], cycle_number=0))))
    l, l2 = build(sc), build(sc2)
    label = ', '.join(f'{c.kind} ({c.k:.4g})' for c in changes)
    # The parameters are listed in the same order before and after
    s = np.concatenate([sc.sx, sc.sa])
    X = l.get_x0() + .5 * s[order(sc, l)] * rng.normal(size=(int(rng.integers(1, 5)), len(s))).clip(-2, 2)
    o = order(sc, l)
    want = l(X.copy()) * fac ** 2
    got = l2(X * D[o] + b[o])
    worst = max(abs(v) for v in sc2.volts) + 1e-3
    ctx.close(got, want, changes[0].kind + '-loss', f'loss after {label}', rtol=1e-6, atol=1e-9 * worst * np.sqrt(np.max(want)) + 1e-17 * worst ** 2)


def order(sc, l):
    """Where the variables of the loss are within those of the scenario"""
    names = [n for n, _ in l.asoh.iter_parameters()]
    parts = dict(zip(sc.names, np.split(np.arange(sc.na), np.cumsum(sc.sizes)[:-1])))
    return np.concatenate([np.arange(sc.nx)] + [sc.nx + parts[n] for n in names]).astype(int)


# ---------------------------------------------------------------- extractors
def extractors(ctx):
    import warnings
    from battdat.data import CellDataset
    from moirae.extractors.ecm import MaxCapacityExtractor, OCVExtractor
    from checks import C17
    import pandas as pd
    rng = ctx.rng
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        df, numbers, caps = C17.cycles(C17Silent(ctx), rng, int(rng.integers(1, 6)))
        if any(c is not None for c in caps) and len(df) > 5:
            k, s, n0 = float(2. ** rng.integers(-5, 6)), float(rng.integers(0, 10 ** 5)), int(rng.integers(0, 50))
            df['test_time'] = np.round(df['test_time'] * 2 ** 20) / 2 ** 20
            ctx.case(rows=len(df), k=k, s=s)
            a = MaxCapacityExtractor().extract(CellDataset(raw_data=df.copy()))
            other = df.copy()
            what = str(rng.choice(['size', 'clock', 'numbers', 'voltage', 'time']))
            f = 1.
            if what == 'size':
                other['current'] *= k
                f = k
            elif what == 'time':
                other['test_time'] *= k
                f = k
            elif what == 'clock':
                other['test_time'] += s
            elif what == 'numbers':
                other['cycle_number'] += n0
            else:
                other['voltage'] = other['voltage'] * 2 + 1
            b = MaxCapacityExtractor().extract(CellDataset(raw_data=other))
            ctx.close(b.base_values, a.base_values * f, 'capacity-' + what, f'capacity after changing {what} by {k}, {s}, {n0}', rtol=1e-9, atol=0)
            ctx.obs('capacities')
    # OCV: linear in the voltages, does not depend on units of charge and current
    m = int(rng.integers(60, 200))
    cap = 10 ** rng.uniform(-1, 2)
    soc = np.sort(rng.uniform(0, 1, m))
    v, w = 3.5 + soc - .3 * soc ** 2 + .02 * rng.normal(size=m), rng.normal(size=m)
    cur = rng.choice([-1, 1], m) * 10 ** rng.uniform(-1, 1, m)
    kw = dict(soc_points=int(rng.integers(4, 9)) if rng.random() < .5 else np.sort(np.concatenate([[0., 1.], np.linspace(.15, .85, int(rng.integers(2, 6)))])),
              interpolation_style=str(rng.choice(['cubic', 'linear'])), soc_requirement=.1)
    x = np.linspace(0, 1, 23)

    def ocv(q, volts, i, cap):
        d = CellDataset(raw_data=pd.DataFrame(dict(test_time=np.arange(m) * 10., cycle_number=0, cycle_capacity=q, voltage=volts, current=i)))
        return OCVExtractor(cap, **kw).extract(d)(soc=x)
    base = ocv(soc * cap, v, cur, cap)
    k, o = float(2. ** rng.integers(-6, 7)), float(rng.uniform(-2, 2))
    ctx.case(m=m, cap=cap, k=k, o=o)
    ctx.close(ocv(soc * cap * k, v, cur * k, cap * k), base, 'ocv-size', f'OCV of a cell {k} times the size', rtol=1e-8, atol=1e-9)
    ctx.close(ocv(soc * cap, v * 2 + o, cur, cap), 2 * base + o, 'ocv-voltage', f'OCV of changed voltages, 2 v + {o}', rtol=1e-8, atol=1e-8)
    both = ocv(soc * cap, v + .1 * w, cur, cap) - base
    ctx.close(both, .1 * (ocv(soc * cap, w, cur, cap)), 'ocv-linear', 'OCV of a sum of voltages', rtol=1e-6, atol=1e-8)
    ctx.close(ocv(soc * cap, v, -cur, cap), base, 'ocv-sign', 'OCV does not depend on the sign of the currents', rtol=1e-9, atol=1e-10)
    ctx.obs('curves')


class C17Silent:
    def __init__(self, ctx):
        self.rng = ctx.rng

    def obs(self, *a):
        pass


WORKLOADS = [WL('simulate', simulate, 260, 12000), WL('estimate', estimate, 130, 3000), WL('loss', loss, 90, 2000), WL('extractors', extractors, 70, 800)]
