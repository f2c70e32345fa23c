"""Generators of circuits, states and schedules, and builders of the corresponding objects of /repo.

A circuit "spec" is a plain dictionary where every parameter is a 2D array whose first dimension is the batch (1 or B).
"""
import copy

import numpy as np

STYLES = ['linear', 'linear', 'cubic', 'quadratic', 'slinear', 'nearest', 'nearest-up', 'previous', 'next', 'zero']
SMOOTH = ['linear', 'linear', 'linear', 'cubic', 'quadratic', 'slinear']


def _curve(rng, base, spread, n, style, pins, positive=True):
    """Smooth-ish values around base which stay positive on [-0.3, 1.3] also when extrapolated"""
    from .ref import interp
    for _ in range(50):
        if style in ('cubic', 'quadratic') and n > 2:
            x = np.linspace(0, 1, n) if pins is None else pins
            c = rng.uniform(-1, 1, 3) * [1, .6, .3]
            v = base * (1 + spread * (c[0] * (x - .5) + c[1] * (x - .5) ** 2 + c[2] * np.sin(3 * x)))
        else:
            v = base * (1 + spread * rng.uniform(-1, 1, n))
        g = [interp(dict(v=v, pins=pins, style=style), s) for s in np.linspace(-.3, 1.3, 33)]
        if not positive or min(g) > 0.05 * base:
            return v
    return np.full(n, base, dtype=float)


def soc_param(rng, base, spread=.5, B=1, styles=SMOOTH, nmax=8, scalar_p=.35, positive=True):
    if rng.random() < scalar_p:
        return dict(v=np.array([[base * (1 + spread * rng.uniform(-1, 1) * .9)] for _ in range(B)]), pins=None, style='linear')
    style = str(rng.choice(styles))
    nmin = {'cubic': 4, 'quadratic': 3}.get(style, 2)
    n = int(rng.integers(nmin, max(nmin + 1, nmax + 1)))
    pins = None
    if rng.random() < .4:
        pins = np.linspace(0, 1, n) + rng.uniform(-.3, .3, n) / n
        pins = np.sort(pins)
    v = np.array([_curve(rng, base, spread, n, style, pins, positive) for _ in range(B)])
    if pins is not None and rng.random() < .15:  # points may be listed in any order
        o = rng.permutation(n)
        pins, v = pins[o], v[:, o]
    return dict(v=v, pins=pins, style=style)


def scalar(rng, lo, hi, B=1):
    return rng.uniform(lo, hi, (B, 1))


def zero_some(rng, v, value=0., p=.2):
    """Give some members (not all of them) of a batched parameter a special value"""
    if len(v) > 1 and rng.random() < p:
        v[rng.choice(len(v), int(rng.integers(1, len(v))), replace=False)] = value
    return v


def temperature(rng, lo=-20., hi=60.):
    """Temperature in Celsius, with an accent on values which look like 'nothing' or equal references"""
    u = rng.random()
    return 0. if u < .12 else 25. if u < .18 else float(rng.uniform(lo, hi))


# Every parameter of a circuit which can carry a batch, by its name in the library
def param_paths(spec):
    out = ['q_t.base_values', 'ce', 'ocv.ocv_ref.base_values', 'ocv.ocv_ref.reference_temperature', 'ocv.ocv_ent.base_values',
           'r0.base_values', 'r0.temperature_dependence_factor']
    if spec['c0'] is not None:
        out.append('c0.base_values')
    for i in range(len(spec['rc'])):
        out += [f'rc_elements.{i}.r.base_values', f'rc_elements.{i}.r.temperature_dependence_factor', f'rc_elements.{i}.c.base_values']
    return out + ['h0.base_values', 'h0.gamma']


def locate(spec, path):
    """(dict, key) holding the values of a named parameter in the spec"""
    t = path.split('.')
    if path == 'q_t.base_values':
        return spec, 'qt'
    if path == 'ce':
        return spec, 'ce'
    if t[0] == 'ocv':
        d = spec['ocv'] if t[1] == 'ocv_ref' else spec['ent']
    elif t[0] == 'rc_elements':
        d = spec['rc'][int(t[1])][t[2]]
    else:
        d = spec[t[0]]
    return d, {'base_values': 'v', 'reference_temperature': 'tref', 'temperature_dependence_factor': 'tdf', 'gamma': 'gamma'}[t[-1]]


def circuit(rng, B=1, batched=None, n_rc=None, has_c0=None, styles=SMOOTH, tdf=True, ce=None, const_rc=False, scalar_p=.35):
    """Random circuit. ``batched``: None (nothing), 'all', or a probability that a parameter carries the batch"""
    n_rc = int(rng.integers(0, 4)) if n_rc is None else n_rc
    has_c0 = bool(rng.random() < .5) if has_c0 is None else has_c0

    def res(base, sp=None):
        p = soc_param(rng, base, B=B, styles=styles, scalar_p=scalar_p if sp is None else sp)
        p['tref'] = float(rng.choice([25., rng.uniform(0, 40), rng.uniform(0, 40), 0.]))
        p['tdf'] = zero_some(rng, scalar(rng, .001, .02, B)) if tdf and rng.random() < .8 else np.zeros((B, 1))
        return p

    qt = 10 ** rng.uniform(-1, 2)
    vb = rng.uniform(2, 4)
    ocv = soc_param(rng, vb, .3, B, styles, scalar_p=.1)
    ocv['tref'] = zero_some(rng, scalar(rng, 10, 40, B)) if rng.random() < .88 else np.zeros((B, 1))
    fast = rng.random() < .12  # RC elements with time constants down to milliseconds
    spec = dict(
        qt=qt * rng.uniform(.7, 1.3, (B, 1)),
        ce=(zero_some(rng, rng.uniform(.8, 1., (B, 1)) + .1 * (rng.random() < .1), 1.) if rng.random() < .8 else np.ones((B, 1)))
        if ce is None else np.full((B, 1), ce),
        ocv=ocv,
        ent=soc_param(rng, .003, .9, B, styles, positive=False),
        r0=res(10 ** rng.uniform(-3, -.5)),
        c0=soc_param(rng, qt * 10 ** rng.uniform(2, 5), .5, B, styles, scalar_p=scalar_p) if has_c0 else None,
        rc=[dict(r=res(10 ** rng.uniform(-3, -.5), 1. if const_rc else None),
                 c=soc_param(rng, 10 ** (rng.uniform(-1, 2) if fast else rng.uniform(2, 5)), .5, B, styles,
                             scalar_p=1. if const_rc else scalar_p))
            for _ in range(n_rc)],
        h0=soc_param(rng, .05, .9, B, styles, scalar_p=1. if const_rc else scalar_p),
    )
    spec['h0']['gamma'] = zero_some(rng, scalar(rng, 0., 60., B)) if rng.random() < .85 else np.zeros((B, 1))
    if B > 1 and batched != 'all':
        for path in param_paths(spec):
            if batched is None or rng.random() > batched:
                d, k = locate(spec, path)
                d[k] = d[k][:1]
    return spec


def spec_batch(spec):
    return max(np.shape(d[k])[0] for d, k in (locate(spec, p) for p in param_paths(spec)))


def member(spec, b):
    """Spec of one member with the leading dimension removed (scalars become floats, values 1D)"""
    out = copy.deepcopy(spec)
    for path in param_paths(out):
        d, k = locate(out, path)
        a = d[k]
        row = a[b if a.shape[0] > 1 else 0]
        d[k] = row.copy() if k == 'v' else float(row[0])
    return out


def member_batched(spec, b):
    """Spec of one member which keeps the (length-one) batch dimension"""
    out = copy.deepcopy(spec)
    for path in param_paths(out):
        d, k = locate(out, path)
        a = d[k]
        i = b if a.shape[0] > 1 else 0
        d[k] = a[i:i + 1].copy()
    return out


def _kw(p):
    return dict(base_values=p['v'].copy(), soc_pinpoints=None if p['pins'] is None else p['pins'].copy(),
                interpolation_style=p['style'])


def build_asoh(spec):
    from moirae.models.ecm.advancedSOH import ECMASOH
    from moirae.models.ecm.components import (MaxTheoreticalCapacity, Resistance, Capacitance, RCComponent, ReferenceOCV,
                                              EntropicOCV, OpenCircuitVoltage, HysteresisParameters)

    def res(p):
        return Resistance(**_kw(p), reference_temperature=p['tref'], temperature_dependence_factor=p['tdf'].copy())

    return ECMASOH(
        q_t=MaxTheoreticalCapacity(base_values=spec['qt'].copy()), ce=spec['ce'].copy(),
        ocv=OpenCircuitVoltage(ocv_ref=ReferenceOCV(**_kw(spec['ocv']), reference_temperature=spec['ocv']['tref'].copy()),
                               ocv_ent=EntropicOCV(**_kw(spec['ent']))),
        r0=res(spec['r0']), c0=None if spec['c0'] is None else Capacitance(**_kw(spec['c0'])),
        rc_elements=tuple(RCComponent(r=res(e['r']), c=Capacitance(**_kw(e['c']))) for e in spec['rc']),
        h0=HysteresisParameters(**_kw(spec['h0']), gamma=spec['h0']['gamma'].copy()))


# ------------------------------------------------------------------ states
def state(rng, spec, B=1, batched=None, lo=.05, hi=.95, fresh=False):
    """State spec with 2D arrays; ``batched``: None, 'all' or probability per field"""
    qmax = float(np.max(spec['qt']))
    s = dict(soc=rng.uniform(lo, hi, (B, 1)),
             q0=None if spec['c0'] is None else rng.normal(0, qmax * 1000, (B, 1)),
             i_rc=rng.normal(0, qmax, (B, len(spec['rc']))),
             hyst=rng.normal(0, .03, (B, 1)))
    for k, special in (('soc', (0., 1.)), ('q0', (0., 0., 3e-4)), ('i_rc', (0., 0., 2e-4)), ('hyst', (0., 0., -1e-5))):
        if s[k] is not None and s[k].shape[1] and rng.random() < .15:
            v = float(rng.choice(special))
            if k != 'soc' or lo <= v <= hi:
                i = int(rng.integers(s[k].shape[1]))
                s[k][:, i] = v if rng.random() < .4 else zero_some(rng, s[k][:, i:i + 1], v, 1.)[:, 0]
    if fresh:
        for k in ('q0', 'i_rc', 'hyst'):
            if s[k] is not None:
                s[k] = np.zeros_like(s[k])
    if B > 1 and batched != 'all':
        for k in list(s):
            if s[k] is not None and (batched is None or rng.random() > batched):
                s[k] = s[k][:1]
    return s


def state_member(s, b):
    def pick(a):
        return a[b if a.shape[0] > 1 else 0]
    return dict(soc=float(pick(s['soc'])[0]), q0=None if s['q0'] is None else float(pick(s['q0'])[0]),
                i_rc=[float(x) for x in pick(s['i_rc'])], hyst=float(pick(s['hyst'])[0]))


def state_member_batched(s, b):
    def pick(a):
        i = b if a.shape[0] > 1 else 0
        return a[i:i + 1].copy()
    return {k: None if v is None else pick(v) for k, v in s.items()}


def build_state(s):
    from moirae.models.ecm.transient import ECMTransientVector
    return ECMTransientVector(soc=s['soc'].copy(), q0=None if s['q0'] is None else s['q0'].copy(), i_rc=s['i_rc'].copy(), hyst=s['hyst'].copy())


def state_matrix(s, B=None):
    """What the state looks like as an array"""
    B = B or max(v.shape[0] for v in s.values() if v is not None)
    return np.concatenate([np.broadcast_to(s[k], (B, s[k].shape[1])) for k in ('soc', 'q0', 'i_rc', 'hyst') if s[k] is not None], axis=1)


# ------------------------------------------------------------------ inputs
def build_input(d):
    from moirae.models.ecm import ECMInput
    return ECMInput(time=d['time'], current=d['current'], temperature=d['temperature'])


def schedule(rng, spec, n, soc0=.5, temps=None, crate=2., t0=0., rest_p=.2, repeat_p=.05, mode='constant', lo=.1, hi=.9,
             hold_p=.35, dt_range=(-1.5, 3.3)):
    """n+1 inputs (dictionaries). Currents keep the SOC of (unbatched) ``spec`` within [lo, hi] approximately.

    The blocks hold a current, ramp it, reverse it, rest, and repeat timestamps.
    """
    qt = float(np.min(spec['qt']))
    temp_mode = rng.choice(['none', 'const', 'vary']) if temps is None else temps
    T = temperature(rng, -5, 50)
    t, soc = t0, soc0
    out = []
    cur = 0. if rng.random() < .5 else float(rng.normal() * qt)
    for i in range(n + 1):
        if i:
            dt = 0. if rng.random() < repeat_p else float(10 ** rng.uniform(*dt_range))
            prev = out[-1]['current']
            u = rng.random()
            if u < rest_p:
                cur = 0.
            elif u < rest_p + hold_p:
                cur = prev
            elif u < rest_p + hold_p + .1:
                cur = -prev
            elif u < rest_p + hold_p + .15:
                cur = float(rng.choice([-1, 1])) * qt * 10 ** rng.uniform(-9, -3)
            else:
                cur = float(rng.normal() * qt * crate * 10 ** rng.uniform(-2, 0))
            # keep within the window: bound the interval by what may flow through
            worst = max(abs(prev), abs(cur), 1e-12)
            room = (hi - soc) if (prev if mode == 'constant' else prev + cur) > 0 else (soc - lo)
            dt = min(dt, max(room, 0.) * qt * 3600. / worst)
            moved = dt * (prev if mode == 'constant' else (prev + cur) / 2) / (3600. * qt)
            # turn around if close to the boundary
            if (soc + moved > hi - .02 and cur > 0) or (soc + moved < lo + .02 and cur < 0):
                cur = -cur
                moved = dt * (prev if mode == 'constant' else (prev + cur) / 2) / (3600. * qt)
            t += dt
            soc += moved
        if temp_mode == 'vary':
            T = float(np.clip(T + rng.normal() * 2, -20, 60)) if rng.random() < .9 else temperature(rng)
        out.append(dict(time=float(t), current=float(cur), temperature=None if temp_mode == 'none' else float(T)))
    return out


def describe(spec):
    return dict(rc=len(spec['rc']), c0=spec['c0'] is not None, ah=round(float(spec['qt'][0, 0]), 3),
                ocv=f"{spec['ocv']['style']}x{spec['ocv']['v'].shape[1]}", batch=spec_batch(spec),
                r0=round(float(spec['r0']['v'].flat[0]), 5))
