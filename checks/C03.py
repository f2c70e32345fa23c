"""C03: the terminal voltage is the sum of the circuit contributions (reference monitor, and separation oracles)."""
import numpy as np

from lib import ecm, gen, ref
from lib.harness import WL

RULE = ('One case = one random circuit topology and parameterisation with 10 states/inputs, or a simulated history. Non-trivial if at least two of '
        'capacitor, RC element, hysteresis, temperature correction contribute.')
REQUIRED = {'voltages': 2000, 'with_c0': 300, 'with_rc': 600, 'with_temperature': 800, 'without_temperature': 200, 'soc_outside': 150,
            'separations': 500, 'history_voltages': 800, 'no_rc': 100, 'zero_celsius': 100}


def _voltage(m, st, new, asoh):
    out = m.calculate_terminal_voltage(new_inputs=gen.build_input(new), transient_state=gen.build_state(st), asoh=asoh)
    return out.terminal_voltage


def single(ctx):
    rng = ctx.rng
    spec = gen.circuit(rng, n_rc=int(rng.integers(0, 5)), styles=gen.SMOOTH + ['nearest', 'slinear'])
    asoh = gen.build_asoh(spec)
    sp = gen.member(spec, 0)
    m = ecm.model(str(rng.choice(['constant', 'linear'])))
    for _ in range(10):
        st = gen.state(rng, spec, **(dict(lo=-.25, hi=1.25) if rng.random() < .9 else dict(lo=-1.5, hi=2.5)))
        s = gen.state_member(st, 0)
        new = dict(time=float(rng.uniform(0, 1e5)), current=float(rng.normal(0, sp['qt'])) if rng.random() < .8 else 0.,
                   temperature=None if rng.random() < .25 else gen.temperature(rng, -30, 70))
        v = _voltage(m, st, new, asoh)
        want = ref.ecm_voltage(sp, s, new)
        tol = dict(rtol=1e-9, atol=1e-9 * (1 + abs(want) + sum(abs(x) for x in s['i_rc'])))
        ctx.close(v, [[want]], 'voltage', f'terminal voltage of {gen.describe(spec)} in state {s} with {new}', **tol)
        ctx.obs('voltages')
        ctx.obs('with_c0', int(s['q0'] is not None))
        ctx.obs('with_rc', int(bool(s['i_rc'])))
        ctx.obs('no_rc', int(not s['i_rc']))
        ctx.obs('with_temperature' if new['temperature'] is not None else 'without_temperature')
        ctx.obs('soc_outside', int(not 0 <= s['soc'] <= 1))
        ctx.obs('zero_celsius', int(new['temperature'] == 0))
        # Separation: each part contributes on its own, in proportion
        v0 = float(v[0, 0])
        st2 = {k: None if x is None else x.copy() for k, x in st.items()}
        st2['hyst'] = st2['hyst'] + .125
        ctx.close(_voltage(m, st2, new, asoh), [[v0 + .125]], 'hysteresis-part', 'hysteresis adds to the voltage as it is', rtol=1e-9, atol=1e-9)
        d = dict(new, current=new['current'] + 1.)
        ctx.close(_voltage(m, st, d, asoh), [[v0 + ref.resistance(sp['r0'], s['soc'], new['temperature'])]], 'r0-part', 'one more Ampere adds R0', rtol=1e-8, atol=1e-8)
        d = dict(new, time=new['time'] + 100.)
        ctx.close(_voltage(m, st, d, asoh), v, 'time', 'the voltage does not depend on time', rtol=0, atol=1e-14)
        if s['i_rc']:
            j = int(rng.integers(len(s['i_rc'])))
            st2 = {k: None if x is None else x.copy() for k, x in st.items()}
            st2['i_rc'][0, j] += 1.
            ctx.close(_voltage(m, st2, new, asoh), [[v0 + ref.resistance(sp['rc'][j]['r'], s['soc'], new['temperature'])]], 'rc-part',
                      f'one more Ampere in RC element {j} adds its resistance', rtol=1e-8, atol=1e-8)
        ctx.obs('separations')
        ctx.case(nontrivial=(s['q0'] is not None) + bool(s['i_rc']) + (new['temperature'] is not None) + 1 >= 2, **gen.describe(spec), new=new)


def history(ctx):
    """Every voltage a simulator records belongs to the state and inputs recorded with it"""
    from moirae.simulator import Simulator
    rng = ctx.rng
    mode = str(rng.choice(['constant', 'linear']))
    spec = gen.circuit(rng)
    st = gen.state(rng, spec, lo=.4, hi=.6)
    n = int(rng.integers(20, 100))
    inputs = gen.schedule(rng, spec, n, soc0=.5, mode=mode)
    sim = Simulator(cell_model=ecm.model(mode), asoh=gen.build_asoh(spec), transient_state=gen.build_state(st),
                    initial_input=gen.build_input(inputs[0]), keep_history=True)
    outs = sim.evolve([gen.build_input(i) for i in inputs[1:]])
    sp = gen.member(spec, 0)
    for k in range(n + 1):
        h = sim.transient_history[k]
        s = dict(soc=float(h.soc[0, 0]), q0=None if h.q0 is None else float(h.q0[0, 0]), i_rc=[float(x) for x in h.i_rc[0]], hyst=float(h.hyst[0, 0]))
        want = ref.ecm_voltage(sp, s, inputs[k])
        tol = dict(rtol=1e-9, atol=1e-9 * (1 + abs(want) + sum(abs(x) for x in s['i_rc'])))
        ctx.close(sim.measurement_history[k].terminal_voltage, [[want]], 'voltage', f'voltage at step {k} of a history', **tol)
        if k:
            ctx.close(outs[k - 1].terminal_voltage, [[want]], 'voltage', f'voltage returned at step {k}', **tol)
        ctx.obs('history_voltages')
    ctx.case(n=n, last=inputs[-1], **gen.describe(spec))


WORKLOADS = [WL('single', single, 450, 12000), WL('history', history, 50, 1200)]
