"""C24: estimators agree with the simulator and with each other in limiting cases"""
import copy

import numpy as np

from lib import ecm, est, gen
from lib.harness import WL

RULE = ('A case is one circuit and history in a limiting case whose answer another part of the library knows: nothing is uncertain (the simulator), the parameters are not uncertain (an estimator '
        'of states only), the sensor is useless (nothing depends on the data), a parameter has no effect (its prior stays), no time passes (nothing changes without information, measurements '
        'may be combined or exchanged). Distinct = circuit, names, history and limiting case.')
REQUIRED = dict(certain=60, certain_steps=400, frozen=40, frozen_steps=150, blind=40, blind_steps=200, useless=40, useless_params=60, useless_steps=200, still=8, combined=25, dual=60, joint=60,
                normalized=15, discharge=10, no_hysteresis=10, no_temperature=10, simulators=50)
ASSUMPTIONS = ['combining measurements is compared on circuits whose voltage is linear in the state']


def build(sc, dual, Px, Pa, Qx, Qa, R, tun=None, normalize=False, names=True):
    from moirae.estimators.online.joint import JointEstimator
    from moirae.estimators.online.dual import DualEstimator
    asoh = sc.asoh() if names else gen.build_asoh(sc.spec)
    if not names:
        Pa, Qa = np.zeros((0, 0)), np.zeros((0, 0))
    tun = tun or {}
    if dual:
        tun = dict(transient=tun.get('transient', {}), asoh=tun.get('asoh', {}))
    return (DualEstimator if dual else JointEstimator).initialize_unscented_kalman_filter(
        cell_model=sc.cell(), initial_asoh=asoh, initial_transients=sc.transients(), initial_inputs=sc.input(0), covariance_transient=Px.copy(), covariance_asoh=Pa.copy(),
        transient_covariance_process_noise=Qx.copy(), asoh_covariance_process_noise=Qa.copy(), covariance_sensor_noise=R.copy(), normalize_asoh=normalize, filter_args=tun)


def scenario(rng, need=True, **kw):
    while True:
        sc = est.Scenario(rng, n_steps=int(rng.integers(3, 14)), rel=.3, zero_params=True, noise=2e-3, **kw)
        if sc.na or not need:
            return sc


def tunings(rng, L, La, dual):
    if dual:
        return dict(transient=est.tuning(rng, L), asoh=est.tuning(rng, La))
    return est.tuning(rng, L)


def usable(sc, e):
    h = e.state
    return sc.in_domain(h.get_mean(), h.get_covariance()) and np.linalg.eigvalsh(est.scaled(h.get_covariance())).min() > 1e-5


def spread(*Ms):
    """Largest over smallest variance. Where some are zero, the filter cuts eigenvalues, with round-off relative to the largest of them"""
    d = np.concatenate([np.diag(M) for M in Ms])
    return d.max() / d[d > 0].min()


def unit(sc):
    return np.concatenate([sc.sx, sc.sa]) + 1e-3 * np.abs(np.concatenate([sc.x0, sc.a0]))


# ---------------------------------------------------------------- nothing is uncertain
def certain(ctx):
    from moirae.simulator import Simulator
    rng = ctx.rng
    dual = bool(rng.random() < .5)
    sc = scenario(rng, need=dual)
    normalize = bool(rng.random() < .3)
    zx, za = np.zeros((sc.nx, sc.nx)), np.zeros((sc.na, sc.na))
    tun = tunings(rng, 2 * (sc.nx + (0 if dual else sc.na)) + 1, 2 * sc.na + 1, dual)
    ctx.case(**sc.describe(), dual=dual, tun=tun, normalize=normalize)
    e = build(sc, dual, zx, za, zx, za, sc.R, tun, normalize)
    sim = Simulator(sc.cell(), sc.asoh(), sc.transients(), sc.input(0))
    a0 = ecm.asoh_snap(sc.asoh())
    ctx.obs('certain')
    ctx.obs('dual' if dual else 'joint')
    ctx.obs('normalized', int(normalize))
    s = unit(sc)
    for i in range(1, len(sc.inputs)):
        h, y = e.step(sc.input(i), sc.measurement(i))
        x, v = sim.step(sc.input(i))
        want = np.concatenate([x.to_numpy()[0], sc.a0])
        size = s + 1e-3 * np.abs(want) + np.concatenate([np.array([1.] + [abs(sc.inputs[i]['current']) + abs(sc.inputs[i - 1]['current'])] * (sc.nx - 2) + [.1]), np.zeros(sc.na)])
        ctx.check((np.abs(h.get_mean() - want) <= 1e-7 * size).all(), 'certain-mean', f'step {i}: belief without uncertainty differs from the simulation', got=h.get_mean(), want=want)
        ctx.check((np.sqrt(np.abs(np.diag(h.get_covariance()))) <= 1e-4 * size).all(), 'certain-covariance', f'step {i}: uncertainty out of nothing', got=h.get_covariance(), size=size)
        ctx.close(y.get_mean(), v.to_numpy()[0], 'certain-output', f'step {i}: predicted voltage', rtol=1e-7, atol=1e-7)
        ctx.close(y.get_covariance(), sc.R, 'certain-output', f'step {i}: uncertainty of the voltage is not that of the sensor', rtol=1e-6, atol=1e-10)
        t, a = e.get_estimated_state()
        ctx.check((np.abs(t.to_numpy()[0] - x.to_numpy()[0]) <= 1e-7 * size[:sc.nx]).all(), 'certain-objects', f'step {i}: estimated state')
        got = ecm.asoh_snap(a)
        for k in a0:
            ctx.close(got[k], a0[k], 'certain-objects', f'step {i}: {k}', rtol=1e-7, atol=1e-9)
        ctx.obs('certain_steps')
    ctx.obs('simulators')


# ---------------------------------------------------------------- parameters are certain
def frozen(ctx):
    rng = ctx.rng
    dual = bool(rng.random() < .5)
    sc = scenario(rng)
    za = np.diag((1e-6 * sc.sa) ** 2)  # (zeros make the filter use another square root, which curved models notice)
    tun = est.tuning(rng, 2 * sc.nx + 1)
    normalize = bool(rng.random() < .3)
    ctx.case(**sc.describe(), dual=dual, tun=tun, normalize=normalize)
    if dual:
        full = dict(transient=dict(tun), asoh=est.tuning(rng, 2 * sc.na + 1))
    else:  # the same spread of sigma points in a larger space
        L = 2 * sc.nx + 1
        kappa = tun.get('kappa_param', 0.)
        kappa = 3 - L if kappa == 'automatic' else kappa
        if L + kappa - 2 * sc.na - L - 2 * sc.na > 0:
            return
        full = dict(tun, kappa_param=float(kappa - 2 * sc.na))
    states = build(sc, False, sc.Px, None, sc.Qx, None, sc.R, tun, names=False)
    e = build(sc, dual, sc.Px, za, sc.Qx, za, sc.R, full, normalize)
    ctx.obs('frozen')
    ctx.obs('dual' if dual else 'joint')
    ctx.obs('normalized', int(normalize))
    probe = copy.copy(sc)
    probe.names, probe.sizes = (), []
    n = sc.nx
    for i in range(1, len(sc.inputs)):
        if not usable(probe, states):
            break
        h0, y0 = states.step(sc.input(i), sc.measurement(i))
        if not usable(probe, states):
            break
        h, y = e.step(sc.input(i), sc.measurement(i))
        sd = np.sqrt(np.diag(h0.get_covariance()))
        m, C = h.get_mean(), h.get_covariance()
        d = np.abs(m[:n] - h0.get_mean()) / sd
        ctx.check(d.max() <= 5e-4, 'frozen-mean', f'step {i}: with known parameters the states differ by {d.max():.2g} standard deviations from an estimator of states only', got=m, want=h0.get_mean())
        r = np.abs(C[:n, :n] - h0.get_covariance()) / np.outer(sd, sd)
        ctx.check(r.max() <= 5e-4, 'frozen-covariance', f'step {i}: covariances of the states differ by {r.max():.2g}', got=C, want=h0.get_covariance())
        ctx.check((np.abs(m[n:] - sc.a0) <= 1e-5 * sc.sa + 1e-9 * np.abs(sc.a0)).all(), 'frozen-parameters', f'step {i}: known parameters change', got=m[n:], want=sc.a0)
        ctx.check((np.abs(C[n:, n:]) <= 1e-8 * np.outer(sc.sa, sc.sa)).all(), 'frozen-parameters', f'step {i}: known parameters become uncertain', got=C[n:, n:])
        ctx.close(y.get_mean(), y0.get_mean(), 'frozen-output', f'step {i}: predicted voltage', rtol=1e-6, atol=1e-5 * float(np.sqrt(y0.get_covariance()[0, 0])))
        ctx.close(y.get_covariance(), y0.get_covariance(), 'frozen-output', f'step {i}: its variance', rtol=1e-4, atol=0)
        ctx.obs('frozen_steps')


# ---------------------------------------------------------------- the sensor is useless
def blind(ctx):
    rng = ctx.rng
    dual = bool(rng.random() < .5)
    sc = scenario(rng, need=dual)
    R = np.array([[float(10 ** rng.uniform(10, 14))]])
    tun = tunings(rng, 2 * (sc.nx + (0 if dual else sc.na)) + 1, 2 * sc.na + 1, dual)
    ctx.case(**sc.describe(), dual=dual, tun=tun, R=R)
    a, b = (build(sc, dual, sc.Px, sc.Pa, sc.Qx, sc.Qa, R, tun) for _ in range(2))
    ctx.obs('blind')
    ctx.obs('dual' if dual else 'joint')
    from moirae.models.ecm.ins_outs import ECMMeasurement
    var = np.diag(sc.Pa).copy()
    for i in range(1, len(sc.inputs)):
        if not usable(sc, a):
            break
        h, y = a.step(sc.input(i), sc.measurement(i))
        g, z = b.step(sc.input(i), ECMMeasurement(terminal_voltage=float(sc.volts[i] + rng.normal() * 2)))
        sd = np.sqrt(np.diag(h.get_covariance()))
        d = np.abs(h.get_mean() - g.get_mean()) / sd
        ctx.check(d.max() <= 1e-4, 'blind-mean', f'step {i}: a useless sensor moves the belief by {d.max():.2g} standard deviations')
        r = np.abs(h.get_covariance() - g.get_covariance()) / np.outer(sd, sd)
        ctx.check(r.max() <= 1e-4, 'blind-covariance', f'step {i}: covariances differ by {r.max():.2g}')
        # what is believed about the parameters only widens, by the noise of the process
        var = var + np.diag(sc.Qa)
        m, C = h.get_mean()[sc.nx:], np.diag(h.get_covariance())[sc.nx:]
        ctx.check((np.abs(m - sc.a0) <= 1e-4 * np.sqrt(var)).all(), 'blind-parameters', f'step {i}: parameters change without information', got=m, want=sc.a0)
        ctx.check((np.abs(C - var) <= 1e-4 * var).all(), 'blind-parameters', f'step {i}: variances of the parameters are not prior plus noise', got=C, want=var)
        ctx.obs('blind_steps')


# ---------------------------------------------------------------- a parameter without effect
def useless(ctx):
    rng = ctx.rng
    dual = bool(rng.random() < .5)
    probe = est.Scenario(rng, n_steps=1)
    what = str(rng.choice(['no_temperature', 'no_temperature', 'discharge', 'no_hysteresis']))
    paths = gen.param_paths(probe.spec)
    if what == 'no_temperature':
        idle = [p for p in paths if p.endswith('temperature_dependence_factor') or p.endswith('reference_temperature') or 'ocv_ent' in p]
        ctx.obs('no_temperature')
    elif what == 'discharge':
        idle = ['ce']
    else:
        idle = ['h0.gamma']
    idle = [p for p in idle if rng.random() < .7] or idle[:1]
    names = [p for p in paths if p in idle or rng.random() < .15 and 'ce' not in p and 'h0' not in p]
    sc = est.Scenario(rng, n_steps=int(rng.integers(3, 12)), rel=.3, names=names, n_rc=len(probe.spec['rc']), has_c0=probe.spec['c0'] is not None, noise=2e-3,
                      temps='none' if what == 'no_temperature' else None)
    if what == 'discharge':
        q = .2 * float(sc.spec['qt'].flat[0]) * 3600 / len(sc.inputs)  # charge per step
        cur = 0.
        for i, u in enumerate(sc.inputs):
            u['current'] = -float(10 ** rng.uniform(-2, .3)) * float(sc.spec['qt'].flat[0])
            if i:
                u['time'] = sc.inputs[i - 1]['time'] + float(rng.uniform(.2, 1)) * q / max(abs(u['current']), abs(cur))
            cur = u['current']
        sc.state0['soc'][:] = sc.x0[0] = .6
        ctx.obs('discharge')
    elif what == 'no_hysteresis':  # (its size and the voltage of the state itself are zero for good)
        sc.spec['h0']['v'] = sc.spec['h0']['v'] * 0
        sc.mem['h0']['v'] = sc.mem['h0']['v'] * 0
        sc.state0['hyst'][:] = sc.x0[-1] = 0.
        j = sc.nx - 1
        for M in (sc.Px, sc.Qx):
            M[j], M[:, j] = 0., 0.
        ctx.obs('no_hysteresis')
    pos = np.cumsum([0] + sc.sizes)
    cols = np.concatenate([np.arange(pos[k], pos[k + 1]) for k, n in enumerate(sc.names) if n in idle])
    rest = np.setdiff1d(np.arange(sc.na), cols)
    for M in (sc.Pa, sc.Qa):  # they are believed to be independent of the others
        M[np.ix_(cols, rest)] = 0
        M[np.ix_(rest, cols)] = 0
    tun = tunings(rng, 2 * (sc.nx + (0 if dual else sc.na)) + 1, 2 * sc.na + 1, dual)
    sc.simulate(rng, np.append(sc.sx[:-1] * rng.normal(size=sc.nx - 1).clip(-2, 2), 0.), sc.sa * rng.normal(size=sc.na).clip(-2, 2))
    ctx.case(**sc.describe(), dual=dual, idle=idle, tun=tun)
    normalize = bool(rng.random() < .3) and (np.abs(sc.a0) > 1e-3 * sc.sa).all()
    e = build(sc, dual, sc.Px, sc.Pa, sc.Qx, sc.Qa, sc.R, tun, normalize)
    ctx.obs('useless')
    ctx.obs('dual' if dual else 'joint')
    ctx.obs('normalized', int(normalize))
    ctx.obs('useless_params', len(cols))
    P = sc.Pa[np.ix_(cols, cols)].copy()
    tol = 1e-2 if what == 'no_hysteresis' else 5e-4  # (the square root of a singular covariance mixes directions)
    for i in range(1, len(sc.inputs)):
        m, C = e.state.get_mean(), e.state.get_covariance()
        keep = np.array([k for k in range(len(m)) if C[k, k] > 0])
        if not sc.in_domain(m, C) or np.linalg.eigvalsh(est.scaled(C[np.ix_(keep, keep)])).min() < 1e-5:
            break
        h, y = e.step(sc.input(i), sc.measurement(i))
        P = P + sc.Qa[np.ix_(cols, cols)]
        sd = np.sqrt(np.diag(P))
        m, C = h.get_mean()[sc.nx + cols], h.get_covariance()[np.ix_(sc.nx + cols, sc.nx + cols)]
        d = np.abs(m - sc.a0[cols]) / sd
        ctx.check(d.max() <= tol, 'useless-mean', f'step {i}: {idle} have no effect on anything but were moved by {d.max():.2g} standard deviations', got=m, want=sc.a0[cols])
        r = np.abs(C - P) / np.outer(sd, sd)
        ctx.check(r.max() <= tol, 'useless-covariance', f'step {i}: {idle} have no effect on anything but their covariance changes by {r.max():.2g}', got=C, want=P)
        ctx.obs('useless_steps')


# ---------------------------------------------------------------- no time passes
def still(ctx):
    """Without time, noise and information a belief stays what it is"""
    rng = ctx.rng
    dual = bool(rng.random() < .5)
    sc = scenario(rng, need=dual)
    tun = tunings(rng, 2 * (sc.nx + (0 if dual else sc.na)) + 1, 2 * sc.na + 1, dual)
    zx, za = np.zeros((sc.nx, sc.nx)), np.zeros((sc.na, sc.na))
    probe = build(sc, dual, sc.Px, sc.Pa, zx, za, sc.R, tun)
    if not usable(sc, probe):
        return
    R = 3e5 * probe.step(sc.input(0), sc.measurement(0))[1].get_covariance()
    if max(spread(M, R) for M in ((sc.Px, sc.Pa) if dual else (est.blk(sc.Px, sc.Pa),))) > 1e9:
        return
    ctx.case(**sc.describe(), dual=dual, tun=tun)
    e = build(sc, dual, sc.Px, sc.Pa, zx, za, R, tun)
    ctx.obs('still')
    ctx.obs('dual' if dual else 'joint')
    P = est.blk(sc.Px, sc.Pa)
    sd = np.sqrt(np.diag(P))
    for i in range(int(rng.integers(1, 5))):
        u = dict(sc.inputs[0], current=float(rng.uniform(-1, 1)) * sc.inputs[0]['current'])
        v = sc.cell().calculate_terminal_voltage(new_inputs=gen.build_input(u), transient_state=sc.transients(), asoh=sc.asoh())  # what is expected anyway
        h, _ = e.step(gen.build_input(u), v)
        d = np.abs(h.get_mean() - np.concatenate([sc.x0, sc.a0])) / sd
        ctx.check(d.max() <= 2e-4, 'still-mean', f'step {i} without time: the belief moves by {d.max():.2g} standard deviations')
        r = np.abs(h.get_covariance() - P) / np.outer(sd, sd)
        ctx.check(r.max() <= 2e-2, 'still-covariance', f'step {i} without time: the covariance changes by {r.max():.2g}')


def combine(ctx):
    """Measurements at the same moment may be exchanged, or replaced by their average"""
    from moirae.models.ecm.ins_outs import ECMMeasurement
    rng = ctx.rng
    sc = est.Scenario(rng, n_steps=3, rel=.3, names=(), scalar_p=1.)
    for k in ('ocv', 'ent'):
        n = 2 if k == 'ocv' else 1
        v = np.sort(rng.uniform(2.5, 4.2, (1, 2))) if k == 'ocv' else sc.spec[k]['v'][:, :1]
        sc.spec[k].update(v=v, pins=None, style='linear')
    sc.mem = gen.member(sc.spec, 0)
    k = int(rng.integers(2, 6))
    R = sc.R
    tun = est.tuning(rng, 2 * sc.nx + 1)
    zx = np.zeros((sc.nx, sc.nx))
    first, last = sc.inputs[0], sc.inputs[1]
    sc.simulate(rng, sc.sx * rng.normal(size=sc.nx).clip(-2, 2), np.zeros(0))
    ys = sc.volts[1] + np.sqrt(R[0, 0]) * rng.normal(size=k)
    if spread(sc.Px, R) > 1e8:
        return
    ctx.case(**sc.describe(), k=k, tun=tun, ys=ys)
    ctx.obs('combined')

    def run(values, R, Q):
        e = build(sc, False, sc.Px, None, Q, None, R, tun, names=False)
        for v in values:
            e.step(gen.build_input(dict(last, time=first['time'])), ECMMeasurement(terminal_voltage=float(v)))
        return e.state
    a, b, c = run(ys, R, zx), run(ys[::-1], R, zx), run([ys.mean()], R / k, zx)
    sd = np.sqrt(np.diag(a.get_covariance()))
    for other, what in ((b, 'in another order'), (c, 'combined to their average')):
        d = np.abs(a.get_mean() - other.get_mean()) / sd
        ctx.check(d.max() <= 1e-4, 'combined', f'{k} measurements {what}: means differ by {d.max():.2g} standard deviations')
        r = np.abs(a.get_covariance() - other.get_covariance()) / np.outer(sd, sd)
        ctx.check(r.max() <= 1e-4, 'combined', f'{k} measurements {what}: covariances differ by {r.max():.2g}')
    # a little more information never makes it less certain
    P = sc.Px
    ctx.check(np.linalg.eigvalsh(est.scaled(P - a.get_covariance() + 1e-9 * P, P)).min() > -1e-5, 'combined', 'measurements make the belief less certain')


WORKLOADS = [WL('certain', certain, 80, 2500), WL('frozen', frozen, 100, 3000), WL('blind', blind, 60, 1500), WL('useless', useless, 80, 2500), WL('still', still, 120, 2000), WL('combine', combine, 70, 1500)]
