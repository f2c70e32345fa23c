"""C20: the Thevenin adapter hands each member of a batch to the solver faithfully"""
import math
import sys
import types

import numpy as np

from lib.harness import WL

RULE = ('A case is one circuit (0-4 RC pairs, polynomials of random degree), any subset of its parameters, state and inputs carrying a batch, and a few steps. The Thevenin package, absent here, is '
        'replaced by a recording stand-in with the same interface whose solution depends on every parameter, function and initial value it is given; results and the log of what it received are '
        'compared with the same solution for each member worked out from plain numbers. Distinct = circuit, state and inputs.')
REQUIRED = dict(runs=1500, members=1500, steps=400, batched=120, rc_pairs=900, no_rc=30, isothermal=60, voltages=900, ocv_calls=1500, r_calls=1500, c_calls=600, polynomials=900, whole_batch=150,
                simulator_steps=100, unmodified=200, batched_inputs=40, rejected=40, from_asoh=40, mixed_times=30)
ASSUMPTIONS = ['the interface of the stand-in (Model(params), _sv0 and _ptr for the overpotentials, Experiment.add_step, run, solution.vars) is that of the Thevenin package',
               'elapsed times are positive']

LOG = []


def solve(p, eta0, current, dt):
    """Solution at the end of a step of constant (discharge) current: SOC, temperature, overpotentials"""
    soc = p['soc0'] - current * dt / 3600. / p['capacity']
    T0 = p['T_inf']
    mid = (soc + p['soc0']) / 2
    r0 = float(p['R0'](mid, T0))
    heat = current ** 2 * r0 + 1e-2 * current * float(p['ocv'](mid))
    T = T0
    if not p['isothermal']:
        tau = p['mass'] * p['Cp'] / (p['h_therm'] * p['A_therm'])
        T = T0 + heat / (p['h_therm'] * p['A_therm']) * -math.expm1(-dt / tau)
    eta = []
    for j in range(p['num_RC_pairs']):
        R, C = float(p[f'R{j + 1}'](mid, T)), float(p[f'C{j + 1}'](mid, T))
        e = math.exp(-dt / (R * C))
        eta.append(eta0[j] * e + current * R * (1 - e))
    return soc, T, eta


class Experiment:
    def __init__(self, **kwargs):
        self.steps = []

    def add_step(self, mode, value, tspan, limits=None, **kwargs):
        self.steps.append((mode, value, tspan))


class Solution:
    def __init__(self, v):
        self.vars = v


class Model:
    def __init__(self, params=None):
        self.params = dict(params)
        n = self.params['num_RC_pairs']
        self._ptr = dict(soc=0, T_cell=1, hyst=2, eta_j=np.arange(3, 3 + n))
        self._sv0 = np.full(3 + n + 1, 0.)
        self._sv0[0] = self.params['soc0']

    def run(self, exp, **kwargs):
        (mode, value, tspan), = exp.steps
        assert mode == 'current_A', mode
        value = float(np.ravel(value)[0]) if np.size(value) == 1 else None
        span = np.ravel(tspan)
        dt = float(span[0]) if isinstance(tspan, tuple) else float(span[-1] - span[0])
        n = self.params['num_RC_pairs']
        eta0 = [float(x) for x in self._sv0[3:3 + n]]
        soc, T, eta = solve(self.params, eta0, value, dt)
        LOG.append(dict(params=self.params, eta0=eta0, current=value, dt=dt))
        m = 2
        v = dict(time_s=np.linspace(0, dt, m), soc=np.linspace(self.params['soc0'], soc, m), temperature_K=np.linspace(self.params['T_inf'], T, m), voltage_V=np.full(m, np.nan))
        for j in range(n):
            v[f'eta{j + 1}_V'] = np.linspace(eta0[j], eta[j], m)
        return Solution(v)


def library():
    """The adapter, with the stand-in for the solver"""
    if 'thevenin' not in sys.modules:
        m = types.ModuleType('thevenin')
        m.Model, m.Experiment, m.Solution = Model, Experiment, Solution
        sys.modules['thevenin'] = m
    import moirae.models.thevenin as t
    from moirae.models.thevenin import components, ins_outs, state
    return t, components, state, ins_outs


# ------------------------------------------------------------------ circuits as plain numbers
def poly(c, x):
    return sum(a * x ** k for k, a in enumerate(c))


def spec(rng, B, p_batch):
    n = int(rng.choice([0, 1, 2, 3, 4], p=[.15, .25, .25, .2, .15]))

    def num(lo, hi):
        return rng.uniform(lo, hi, (B if rng.random() < p_batch else 1, 1))

    def coeffs(base, spread=.3):
        k = int(rng.integers(1, 5))
        v = base * spread * rng.uniform(-1, 1, (B if rng.random() < p_batch else 1, k)) / k
        v[:, 0] = base * rng.uniform(1, 1.5, len(v))
        return v

    def st(base):
        t = rng.uniform(-1e-3, 1e-3, (B if rng.random() < p_batch else 1, int(rng.integers(1, 4)))) * base
        if t.shape[1] > 2:
            t[:, 2:] *= 1e-2
        return dict(s=coeffs(base), t=t, tref=num(285, 310))
    s = dict(capacity=num(.5, 5), mass=num(.05, .5), c_p=num(500, 1500), h_thermal=num(5, 20), a_therm=num(.1, 1), ocv=coeffs(3.), r=[st(.05) for _ in range(n + 1)],
             c=[st(10 ** rng.uniform(2, 4)) for _ in range(n)])
    x = dict(soc=num(.2, .8), temp=num(285, 310), eta=rng.normal(0, .05, (B if rng.random() < p_batch else 1, n)))
    return s, x


def inputs(rng, B, p_batch, n):
    t = rng.uniform(0, 1e4)
    both = rng.random() < .4
    out = []
    shape = {k: (B if both and rng.random() < p_batch else 1, 1) for k in ('time', 'current', 't_inf')}
    base = np.full(shape['time'], t)
    for _ in range(n + 1):
        cur = rng.normal(0, 2, shape['current'])
        if rng.random() < .15:
            cur[:] = 0
        out.append(dict(time=base.copy(), current=cur, t_inf=rng.uniform(280, 315, shape['t_inf'])))
        base = base + 10 ** rng.uniform(-1, 3, shape['time'])
    return out


def pick(a, b):
    return a[b % len(a)]


def member(s, b):
    """Parameters as the solver has them, with scalar functions"""
    def rt(p):
        sc, tc, tr = pick(p['s'], b), pick(p['t'], b), pick(p['tref'], b)[0]
        return lambda soc, T: poly(sc, soc) + poly(tc, T - tr)
    oc = pick(s['ocv'], b)
    out = dict(num_RC_pairs=len(s['c']), capacity=pick(s['capacity'], b)[0], mass=pick(s['mass'], b)[0], Cp=pick(s['c_p'], b)[0], h_therm=pick(s['h_thermal'], b)[0], A_therm=pick(s['a_therm'], b)[0],
               ocv=lambda soc: poly(oc, soc))
    for j, p in enumerate(s['r']):
        out[f'R{j}'] = rt(p)
    for j, p in enumerate(s['c']):
        out[f'C{j + 1}'] = rt(p)
    return out


def build(s, x):
    t, C, S, I = library()

    def st(p):
        return C.SOCTempPolynomialVariable(soc_coeffs=p['s'].copy(), t_coeffs=p['t'].copy(), t_ref=p['tref'].copy())
    asoh = S.TheveninASOH(**{k: s[k].copy() for k in ('capacity', 'mass', 'c_p', 'h_thermal', 'a_therm')}, ocv=C.SOCPolynomialVariable(coeffs=s['ocv'].copy()), r=tuple(st(p) for p in s['r']),
                          c=tuple(st(p) for p in s['c']))
    return asoh, S.TheveninTransient(**{k: v.copy() for k, v in x.items()})


def inp(u):
    _, _, _, I = library()
    return I.TheveninInput(**{k: v.copy() for k, v in u.items()})


def size(*groups):
    n = 1
    for g in groups:
        for v in g.values():
            for a in (v if isinstance(v, list) else [v]):
                for b in (a.values() if isinstance(a, dict) else [a]):
                    n = max(n, len(b))
    return n


def snap(asoh, x, us):
    return {k: v.copy() for k, v in asoh.iter_parameters(updatable_only=False)}, x.to_numpy().copy(), [u.to_numpy().copy() for u in us]


def intact(ctx, before, asoh, x, us):
    a, b, c = snap(asoh, x, us)
    ctx.check(list(a) == list(before[0]) and all(np.array_equal(a[k], before[0][k]) for k in a) and np.array_equal(b, before[1]) and all(np.array_equal(p, q) for p, q in zip(c, before[2])),
              'modified', 'parameters, state or inputs changed')
    ctx.obs('unmodified')


def expect(s, x, up, un, b, isothermal):
    p = dict(member(s, b), soc0=float(pick(x['soc'], b)[0]), T_inf=float(pick(un['t_inf'], b)[0]), isothermal=isothermal)
    dt = float(pick(un['time'], b)[0] - pick(up['time'], b)[0])
    return p, [float(e) for e in pick(x['eta'], b)] if x['eta'].shape[1] else [], -float(pick(un['current'], b)[0]), dt


def check_log(ctx, log, want, rng):
    """The solver ran once for each member, with its parameters"""
    ctx.check(len(log) == len(want), 'runs', f'the solver ran {len(log)} times for {len(want)} members')
    ctx.obs('runs', len(log))
    left = list(range(len(log)))
    for b, (p, eta0, cur, dt) in enumerate(want):
        why = None
        for i in left:  # in whichever order
            r = log[i]
            q = r['params']
            why = None
            for k in ('num_RC_pairs', 'capacity', 'mass', 'Cp', 'h_therm', 'A_therm', 'soc0', 'T_inf', 'isothermal'):
                if abs(float(q[k]) - float(p[k])) > 1e-9 * max(1, abs(float(p[k]))):
                    why = why or f'{k} is {q[k]} instead of {p[k]}'
            for k, a, w in (('eta', r['eta0'], eta0), ('current', [r['current']], [cur]), ('time', [r['dt']], [dt])):
                if len(a) != len(w) or not np.allclose(a, w, rtol=1e-9, atol=1e-9):
                    why = why or f'{k} is {a} instead of {w}'
            for k in ['ocv'] + [f'R{j}' for j in range(p['num_RC_pairs'] + 1)] + [f'C{j + 1}' for j in range(p['num_RC_pairs'])]:
                for _ in range(2):
                    a = (float(rng.uniform(-.1, 1.1)),) + (() if k == 'ocv' else (float(rng.uniform(270, 330)),))
                    g, w = float(np.ravel(q[k](*a))[0]) if np.size(q[k](*a)) == 1 else np.nan, p[k](*a)
                    if not abs(g - w) <= 1e-9 * max(abs(w), 1e-3):
                        why = why or f'{k}{a} is {g} instead of {w}'
                    ctx.obs({'o': 'ocv_calls', 'R': 'r_calls', 'C': 'c_calls'}[k[0]])
            if why is None:
                left.remove(i)
                break
        ctx.check(why is None, 'solver-input', f'member {b} of {len(want)}: {why}')


def step(ctx):
    t, C, S, I = library()
    rng = ctx.rng
    B = int(rng.choice([1, 2, 3, 5]))
    p_batch = float(rng.choice([0., .3, .7, 1.])) if B > 1 else 0.
    s, x = spec(rng, B, p_batch)
    us = inputs(rng, B, p_batch, int(rng.integers(1, 4)))
    n = size(s, x, us[1])
    if rng.random() < .4:  # the inputs before the first step carry another batch than those after it
        late = us[1]['time'].min()
        us[0]['time'] = late - 10 ** rng.uniform(-1, 3, (n if len(us[1]['time']) == 1 else 1, 1))
        ctx.obs('mixed_times', int(len(us[0]['time']) != len(us[1]['time'])))
        for k in ('current', 't_inf'):
            if rng.random() < .5:
                us[0][k] = us[0][k][:1]
    iso = bool(rng.random() < .4)
    m = t.TheveninModel(isothermal=iso) if iso or rng.random() < .5 else t.TheveninModel()
    asoh, state = build(s, x)
    ctx.case(n=len(s['c']), iso=iso, capacity=s['capacity'], ocv=s['ocv'], soc=x['soc'], current=us[-1]['current'])
    ctx.obs('no_rc', int(not s['c']))
    ctx.obs('isothermal', int(iso))
    ctx.obs('batched_inputs', int(size(*us) > 1))
    for up, un in zip(us, us[1:]):
        n = size(s, x, un)
        ctx.obs('batched', int(n > 1))
        ins = [inp(up), inp(un)]
        before = snap(asoh, state, ins)
        LOG.clear()
        new = m.update_transient_state(ins[0], ins[1], state, asoh)
        log = list(LOG)
        intact(ctx, before, asoh, state, ins)
        want = [expect(s, x, up, un, b, iso) for b in range(n)]
        check_log(ctx, log, want, rng)
        ends = [solve(*w) for w in want]
        ctx.check(isinstance(new, S.TheveninTransient), 'type', f'{type(new)}')
        ctx.close(new.to_numpy(), np.array([[a, T, *e] for a, T, e in ends]), 'new-state', 'state after a step', rtol=1e-9, atol=1e-9)
        ctx.obs('members', n)
        ctx.obs('steps')
        ctx.obs('rc_pairs', n * len(s['c']))
        x = dict(soc=np.array([[e[0]] for e in ends]), temp=np.array([[e[1]] for e in ends]), eta=np.array([e[2] for e in ends]).reshape(n, -1))
        state = new
        voltage(ctx, m, s, x, un, asoh, state)
    # another evaluation gives the same
    a = m.update_transient_state(inp(us[0]), inp(us[1]), build(s, x)[1], asoh).to_numpy()
    b = m.update_transient_state(inp(us[0]), inp(us[1]), build(s, x)[1], asoh).to_numpy()
    ctx.check(np.allclose(a, b, rtol=1e-10, atol=1e-12), 'not-repeatable', 'the same step again')


def voltage(ctx, m, s, x, u, asoh, state):
    n = size(x, dict(ocv=s['ocv'], r=s['r'][:1]), dict(current=u['current']))
    i = inp(u)
    before = snap(asoh, state, [i])
    v = m.calculate_terminal_voltage(i, state, asoh).to_numpy()
    intact(ctx, before, asoh, state, [i])
    want = []
    for b in range(n):
        p = member(s, b)
        soc, T = pick(x['soc'], b)[0], pick(x['temp'], b)[0]
        want.append([p['ocv'](soc) + pick(u['current'], b)[0] * p['R0'](soc, T) - sum(pick(x['eta'], b))])
    ctx.close(v, want, 'voltage', f'terminal voltage of {n} members', rtol=1e-9)
    ctx.obs('voltages', n)


def voltages(ctx):
    """Terminal voltage with any subset batched"""
    t, C, S, I = library()
    rng = ctx.rng
    B = int(rng.choice([1, 2, 4]))
    p_batch = float(rng.choice([.2, .5, 1.])) if B > 1 else 0.
    s, x = spec(rng, B, p_batch)
    u = inputs(rng, B, p_batch, 1)[1]
    ctx.case(ocv=s['ocv'], soc=x['soc'], current=u['current'])
    asoh, state = build(s, x)
    voltage(ctx, t.TheveninModel(), s, x, u, asoh, state)


def polynomials(ctx):
    t, C, S, I = library()
    rng = ctx.rng
    B = int(rng.choice([1, 2, 5]))
    s, _ = spec(rng, B, .6 if B > 1 else 0.)
    p = s['r'][0]
    ctx.case(ocv=s['ocv'], s=p['s'], t=p['t'], tref=p['tref'])
    V = C.SOCPolynomialVariable(coeffs=s['ocv'].copy())
    R = C.SOCTempPolynomialVariable(soc_coeffs=p['s'].copy(), t_coeffs=p['t'].copy(), t_ref=p['tref'].copy())
    nv, nr = len(s['ocv']), max(len(p[k]) for k in p)
    for _ in range(4):
        b = int(rng.integers(0, B))
        shape = [(), (int(rng.integers(1, 5)),)][int(rng.integers(2))]
        soc, T = rng.uniform(-.2, 1.2, shape), rng.uniform(270, 330, shape)
        if shape == () and rng.random() < .5:
            soc, T = float(soc), float(T)
        m = member(s, b)
        ctx.close(V(soc, batch_id=b), m['ocv'](soc), 'polynomial', f'SOC, member {b}', rtol=1e-10)
        ctx.close(R(soc, T, batch_id=b), m['R0'](soc, T), 'polynomial', f'SOC and temperature, member {b}', rtol=1e-10)
        if B == 1 or (nv == 1 and shape == ()):
            ctx.close(np.ravel(V(soc)), np.ravel(m['ocv'](soc)), 'polynomial', 'SOC', rtol=1e-10)
        ctx.obs('polynomials', 2)
        # all members, at one SOC or each at its own
        for per_member in (False, True):
            soc, T = (rng.uniform(0, 1, B), rng.uniform(270, 330, B)) if per_member else (rng.uniform(0, 1, 1), rng.uniform(270, 330, 1))
            n = max(nv, len(soc))
            ctx.close(np.ravel(V(soc)), [member(s, k)['ocv'](soc[k % len(soc)]) for k in range(n)], 'polynomial', 'SOC, whole batch', rtol=1e-10)
            n = max(nr, len(soc))
            ctx.close(np.ravel(R(soc, T)), [member(s, k)['R0'](soc[k % len(soc)], T[k % len(soc)]) for k in range(n)], 'polynomial', 'SOC and temperature, whole batch', rtol=1e-10)
            ctx.obs('whole_batch', 2)


def simulate(ctx):
    """Over the steps of a simulation, with states from templates; malformed circuits"""
    from moirae.simulator import Simulator
    t, C, S, I = library()
    rng = ctx.rng
    B = int(rng.choice([1, 1, 3]))
    s, x = spec(rng, B, .6 if B > 1 else 0.)
    us = inputs(rng, 1, 0, int(rng.integers(2, 6)))
    asoh, state = build(s, x)
    ctx.case(n=len(s['c']), ocv=s['ocv'], steps=len(us))
    k = {}
    if rng.random() < .6:
        k['soc'] = float(rng.uniform(0, 1))
    if rng.random() < .6:
        k['temp'] = float(rng.uniform(280, 310))
    z = S.TheveninTransient.from_asoh(asoh, **k)
    ctx.close(z.to_numpy(), [[k.get('soc', 0.), k.get('temp', 298.)] + [0.] * len(s['c'])], 'from-asoh', f'{k}', rtol=1e-14)
    ctx.obs('from_asoh')
    if rng.random() < .5:
        state = z
        x = dict(soc=np.array([[k.get('soc', 0.)]]), temp=np.array([[k.get('temp', 298.)]]), eta=np.zeros((1, len(s['c']))))
    sim = Simulator(cell_model=t.TheveninModel(), asoh=asoh, transient_state=state, initial_input=inp(us[0]), keep_history=bool(rng.random() < .5))
    for up, un in zip(us, us[1:]):
        new, y = sim.step(inp(un))
        n = size(s, x, un)
        ends = [solve(*expect(s, x, up, un, b, False)) for b in range(n)]
        x = dict(soc=np.array([[e[0]] for e in ends]), temp=np.array([[e[1]] for e in ends]), eta=np.array([e[2] for e in ends]).reshape(n, -1))
        ctx.close(new.to_numpy(), np.concatenate([x['soc'], x['temp'], x['eta']], axis=1), 'simulation', 'state', rtol=1e-8, atol=1e-9)
        v = [[member(s, b)['ocv'](x['soc'][b, 0]) + un['current'][0, 0] * member(s, b)['R0'](x['soc'][b, 0], x['temp'][b, 0]) - x['eta'][b].sum()] for b in range(n)]
        ctx.close(y.to_numpy(), v, 'simulation', 'voltage', rtol=1e-8)
        ctx.obs('simulator_steps')
    r, c = list(asoh.r), list(asoh.c)
    for bad in (dict(r=r + r[:1], c=c), dict(r=r, c=c + r[:1])):
        ctx.raises(ValueError, lambda: S.TheveninASOH(r=tuple(bad['r']), c=tuple(bad['c'])), 'accepted', f'{len(bad["r"])} R with {len(bad["c"])} C')
        ctx.obs('rejected')
    ctx.raises(ValueError, lambda: S.TheveninASOH(r=(), c=()), 'accepted', 'no resistors')


WORKLOADS = [WL('step', step, 800, 60000), WL('voltages', voltages, 600, 40000), WL('polynomials', polynomials, 400, 20000), WL('simulate', simulate, 250, 15000)]
