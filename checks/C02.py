"""C02: RC currents and hysteresis follow the closed-form solutions of their differential equations.

Monitors: (a) closed-form reference per step, (b) numerical integration of the differential equations as a second, independent reference
on part of the cases, (c) invariant monitors (bounds, finiteness) on long histories, (d) subdivision oracle.
"""
import math

import numpy as np

from lib import ecm, gen, ref
from lib.harness import WL

RULE = ('One case = one random circuit with up to 4 RC elements and hysteresis, and a number of single steps, a schedule of 30-300 steps, or '
        'an interval cut in pieces. Non-trivial if the circuit has an RC element or hysteresis with a non-zero rate, and time passes.')
REQUIRED = {'steps': 1500, 'ramp_cross_zero': 100, 'ramp_to_zero': 100, 'ramp_from_zero': 100, 'rest': 100, 'zero_dt': 50, 'rc_values': 1000,
            'hyst_moved': 500, 'ode_checks': 20, 'subdivisions': 60, 'history_steps': 800, 'huge_dt': 50}
MODES = ('constant', 'linear')


def _pair(rng, spec):
    prev, new = ecm.random_prev_new(rng, spec, None)
    u = rng.random()
    if u < .1:  # very long intervals, whatever happens to the SOC
        new['time'] = prev['time'] + float(10 ** rng.uniform(4, 7))
    elif u < .2:
        prev['time'], new['time'] = 0., float(10 ** rng.uniform(-3, -1))
    return prev, new


def _note(ctx, prev, new, mode):
    a, b = prev['current'], new['current']
    ctx.obs('steps')
    ctx.obs('zero_dt', int(prev['time'] == new['time']))
    ctx.obs('huge_dt', int(new['time'] - prev['time'] > 1e4))
    if a == b == 0:
        ctx.obs('rest')
    elif mode == 'linear':
        ctx.obs('ramp_cross_zero', int(a * b < 0))
        ctx.obs('ramp_to_zero', int(b == 0))
        ctx.obs('ramp_from_zero', int(a == 0))


def _rc_tol(sp, s, prev, new):
    """Rounding allowed for: the closed form of a ramp subtracts terms of size (change of current) tau / dt"""
    dt = max(new['time'] - prev['time'], 1e-12)
    taus = [ref.resistance(e['r'], s['soc'], prev['temperature']) * ref.interp(e['c'], s['soc']) for e in sp['rc']] or [0.]
    return 1e-9 + (abs(prev['current']) + abs(new['current'])) * (1e-7 + 1e-15 * max(taus) / dt)


def _bounds(ctx, sp, s, prev, new, mode, hyst, irc):
    M = abs(ref.interp(sp['h0'], s['soc']))
    I = [prev['current'], new['current']] if mode == 'linear' else [prev['current']]
    lims = [s['hyst']] + [M * np.sign(i) for i in I if i != 0]
    tol = 1e-12 + 1e-9 * max(map(abs, lims))
    ctx.check(np.isfinite(hyst) and min(lims) - tol <= hyst <= max(lims) + tol, 'hyst-bounds',
              f'hysteresis {hyst} outside of the range of {lims} ({prev} -> {new}, {mode})')
    if all(i == 0 for i in I):
        ctx.check(abs(hyst - s['hyst']) <= 1e-13 + 1e-12 * abs(s['hyst']), 'hyst-rest', f'hysteresis moved at rest: {s["hyst"]} -> {hyst}')
    J = [prev['current'], new['current']] if mode == 'linear' else [new['current']]
    for i0, i1 in zip(s['i_rc'], irc):
        lo, hi = min(J + [i0]), max(J + [i0])
        tol = _rc_tol(sp, s, prev, new) + 1e-7 * max(abs(lo), abs(hi))
        ctx.check(np.isfinite(i1) and lo - tol <= i1 <= hi + tol, 'rc-bounds', f'RC current {i1} outside of [{lo}, {hi}] ({prev} -> {new}, {mode})')


def _ode(sp, s, prev, new, mode, n=400):
    """Fourth-order Runge-Kutta integration of the differential equations, in pieces where the current keeps its sign"""
    dt = new['time'] - prev['time']
    a, b = prev['current'], new['current']
    qt = 3600. * sp['qt']
    k = sp['h0']['gamma'] * ref.efficiency(sp, prev) / qt
    M = ref.interp(sp['h0'], s['soc'])

    def run(f, x, t0, t1):
        h = (t1 - t0) / n
        for i in range(n):
            t = t0 + i * h
            k1 = f(t, x); k2 = f(t + h / 2, x + h / 2 * k1); k3 = f(t + h / 2, x + h / 2 * k2); k4 = f(t + h, x + h * k3)
            x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        return x

    cur = (lambda t: a + (b - a) * t / dt) if mode == 'linear' else None
    irc = []
    for i0, rc in zip(s['i_rc'], sp['rc']):
        tau = ref.resistance(rc['r'], s['soc'], prev['temperature']) * ref.interp(rc['c'], s['soc'])
        irc.append((run(lambda t, x: ((cur(t) if cur else b) - x) / tau, i0, 0, dt), dt / tau))
    parts = [(0, dt)]
    if mode == 'linear' and a * b < 0:
        tc = dt * a / (a - b)
        parts = [(0, tc), (tc, dt)]
    h, stiff = s['hyst'], k * max(abs(a), abs(b)) * dt
    for t0, t1 in parts:
        mid = cur((t0 + t1) / 2) if cur else a
        h = run(lambda t, x: k * abs(cur(t) if cur else a) * (np.sign(mid) * M - x), h, t0, t1)
    return irc, h, stiff


def step(ctx):
    rng = ctx.rng
    mode = str(rng.choice(MODES))
    spec = gen.circuit(rng, n_rc=int(rng.integers(0, 5)))
    asoh, m = gen.build_asoh(spec), ecm.model(mode)
    sp = gen.member(spec, 0)
    for _ in range(15):
        st = gen.state(rng, spec, lo=-.05, hi=1.05)
        s = gen.state_member(st, 0)
        prev, new = _pair(rng, spec)
        out = m.update_transient_state(previous_inputs=gen.build_input(prev), new_inputs=gen.build_input(new),
                                       transient_state=gen.build_state(st), asoh=asoh)
        _note(ctx, prev, new, mode)
        want = ref.ecm_step(sp, s, prev, new, mode)
        scale = abs(prev['current']) + abs(new['current'])
        ctx.obs('rc_values', len(want['i_rc']))
        ctx.close(out.i_rc, [want['i_rc']] if len(want['i_rc']) else np.zeros((1, 0)), 'rc', f'RC currents after {prev} -> {new} ({mode}) from {s["i_rc"]}',
                  rtol=1e-7, atol=_rc_tol(sp, s, prev, new))
        ctx.close(out.hyst, [[want['hyst']]], 'hyst', f'hysteresis after {prev} -> {new} ({mode}) from {s["hyst"]}, gamma={sp["h0"]["gamma"]}, ce={sp["ce"]}',
                  rtol=1e-8, atol=1e-12)
        ctx.obs('hyst_moved', int(abs(want['hyst'] - s['hyst']) > 1e-9))
        _bounds(ctx, sp, s, prev, new, mode, float(out.hyst[0, 0]), [float(x) for x in out.i_rc[0]])
        if new['time'] == prev['time']:
            ctx.close(out.i_rc, [s['i_rc']] if s['i_rc'] else np.zeros((1, 0)), 'zero-dt', 'RC currents moved without time passing', rtol=1e-12, atol=1e-12)
            ctx.close(out.hyst, [[s['hyst']]], 'zero-dt', 'hysteresis moved without time passing', rtol=1e-12, atol=1e-13)
        elif rng.random() < .05:
            irc, h, stiff = _ode(sp, s, prev, new, mode)
            ctx.obs('ode_checks')
            for j, (x, st_) in enumerate(irc):
                if st_ < 20:
                    ctx.close(out.i_rc[0, j], x, 'rc-ode', f'RC current after {prev} -> {new} ({mode}) against numerical integration', rtol=1e-4, atol=1e-6 + 1e-4 * scale)
            if stiff < 20:
                ctx.close(out.hyst[0, 0], h, 'hyst-ode', f'hysteresis after {prev} -> {new} ({mode}) against numerical integration', rtol=1e-4, atol=1e-6)
        ctx.case(nontrivial=bool(spec['rc'] or sp['h0']['gamma'] > 0) and new['time'] > prev['time'], mode=mode, prev=prev, new=new, **gen.describe(spec))


def history(ctx):
    """Long histories: every recorded step obeys the closed form and the bounds, given the recorded state before it"""
    from moirae.simulator import Simulator
    rng = ctx.rng
    mode = str(rng.choice(MODES))
    spec = gen.circuit(rng, n_rc=int(rng.integers(0, 4)))
    st = gen.state(rng, spec, lo=.4, hi=.6, fresh=bool(rng.random() < .5))
    n = int(rng.integers(30, 300 if ctx.thorough else 120))
    inputs = gen.schedule(rng, spec, n, soc0=.5, mode=mode)
    sim = Simulator(cell_model=ecm.model(mode), asoh=gen.build_asoh(spec), transient_state=gen.build_state(st),
                    initial_input=gen.build_input(inputs[0]), keep_history=True)
    sim.evolve([gen.build_input(i) for i in inputs[1:]])
    sp, s = gen.member(spec, 0), gen.state_member(st, 0)
    for k in range(n):
        prev, new = inputs[k], inputs[k + 1]
        h = sim.transient_history[k + 1]
        want = ref.ecm_step(sp, s, prev, new, mode)
        scale = abs(prev['current']) + abs(new['current'])
        ctx.close(h.i_rc[0], want['i_rc'], 'rc', f'RC currents at step {k + 1} of a history ({mode}, {prev} -> {new})', rtol=1e-7, atol=_rc_tol(sp, s, prev, new))
        ctx.close(h.hyst[0, 0], want['hyst'], 'hyst', f'hysteresis at step {k + 1} of a history ({mode}, {prev} -> {new})', rtol=1e-8, atol=1e-11)
        _bounds(ctx, sp, s, prev, new, mode, float(h.hyst[0, 0]), [float(x) for x in h.i_rc[0]])
        _note(ctx, prev, new, mode)
        ctx.obs('history_steps')
        s = dict(soc=float(h.soc[0, 0]), q0=None if h.q0 is None else float(h.q0[0, 0]), i_rc=[float(x) for x in h.i_rc[0]], hyst=float(h.hyst[0, 0]))
    ctx.case(mode=mode, n=n, last=inputs[-1], **gen.describe(spec))


def split(ctx):
    """Parameters which do not depend on SOC: cutting an interval changes nothing"""
    rng = ctx.rng
    mode = str(rng.choice(MODES))
    spec = gen.circuit(rng, const_rc=True, n_rc=int(rng.integers(1, 4)), ce=1. if mode == 'linear' else None)
    st = gen.state(rng, spec)
    asoh, m = gen.build_asoh(spec), ecm.model(mode)
    qt = float(spec['qt'][0, 0])
    for _ in range(5):
        a, b = float(rng.normal() * qt), float(rng.normal() * qt)
        if rng.random() < .15:
            a = 0.
        elif rng.random() < .15:
            b = 0.
        dt = float(min(10 ** rng.uniform(0, 3.5), .6 * 3600 * qt / max(abs(a), abs(b), 1e-9)))
        fr = [0.] + list(np.sort(rng.uniform(0, 1, int(rng.integers(1, 8))))) + [1.]
        T = None if rng.random() < .3 else float(rng.uniform(0, 50))

        def go(current):
            x = gen.build_state(st)
            for f, g in zip(fr[:-1], fr[1:]):
                x = m.update_transient_state(previous_inputs=gen.build_input(dict(time=f * dt, current=current(f), temperature=T)),
                                             new_inputs=gen.build_input(dict(time=g * dt, current=current(g), temperature=T)), transient_state=x, asoh=asoh)
            return x

        whole = m.update_transient_state(previous_inputs=gen.build_input(dict(time=0., current=a, temperature=T)),
                                         new_inputs=gen.build_input(dict(time=dt, current=b, temperature=T)), transient_state=gen.build_state(st), asoh=asoh)
        msg = f'after {a} A to {b} A in {dt} s ({mode}) cut at {fr}'
        tol = dict(rtol=1e-6, atol=1e-8 + 1e-7 * (abs(a) + abs(b)))
        if mode == 'linear':
            x = go(lambda f: a + (b - a) * f)
            ctx.close(x.i_rc, whole.i_rc, 'split', 'RC currents ' + msg, **tol)
            ctx.close(x.hyst, whole.hyst, 'split', 'hysteresis ' + msg, rtol=1e-6, atol=1e-9)
        else:
            # RC elements see the new current over the whole interval, the hysteresis the previous one
            ctx.close(go(lambda f: b if f > 0 else a).i_rc, whole.i_rc, 'split', 'RC currents ' + msg, **tol)
            ctx.close(go(lambda f: a if f < 1 else b).hyst, whole.hyst, 'split', 'hysteresis ' + msg, rtol=1e-6, atol=1e-9)
        ctx.obs('subdivisions')
        ctx.case(mode=mode, a=a, b=b, dt=dt, n=len(fr))


WORKLOADS = [WL('step', step, 350, 8000), WL('history', history, 60, 900), WL('split', split, 80, 1500)]
