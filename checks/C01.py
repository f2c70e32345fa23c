"""C01: charge bookkeeping of the ECM.

Monitors: (a) per-step reference for SOC and capacitor charge, (b) offline checker over the event log of whole schedules
(conservation: end point = start + sum of what every interval delivered), (c) subdivision and repeated-timestamp oracles.
"""
import numpy as np

from lib import ecm, gen, ref
from lib.harness import WL

RULE = ('One case = one random circuit (batch of 1-4 in capacity/efficiency/state), current behaviour and either one step, a schedule of '
        '20-400 inputs, or an interval cut into pieces. Non-trivial if charge was delivered and a capacitor or efficiency below one is '
        'present, or the schedule has charge, discharge and rest intervals.')
REQUIRED = {'steps': 1500, 'charge_intervals': 300, 'discharge_intervals': 300, 'rest_starts': 50, 'zero_dt': 30, 'with_c0': 100,
            'sign_changes': 100, 'subdivisions': 100, 'far_outside': 200, 'fast_logging': 60, 'days': 40}
MODES = ('constant', 'linear')


def _expected(spec, state, prev, new, mode):
    q = ref.delivered(prev, new, mode)
    soc = state['soc'] + ref.efficiency(spec, prev) * q / (3600. * spec['qt'])
    return soc, (None if state['q0'] is None else state['q0'] + q), q


def _note(ctx, prev, new):
    ctx.obs('steps')
    ctx.obs('discharge_intervals' if prev['current'] < 0 else 'rest_starts' if prev['current'] == 0 else 'charge_intervals')
    ctx.obs('zero_dt', int(prev['time'] == new['time']))
    ctx.obs('fast_logging', int(0 < new['time'] - prev['time'] < .01))
    ctx.obs('days', int(new['time'] - prev['time'] > 86400))
    ctx.obs('sign_changes', int(prev['current'] * new['current'] < 0))


def step(ctx):
    rng = ctx.rng
    mode = str(rng.choice(MODES))
    B = int(rng.choice([1, 1, 2, 3, 4]))
    spec = gen.circuit(rng, B, batched=None if B == 1 else .5)
    lo, hi = (-.1, 1.1) if rng.random() < .75 else (-4., 5.)  # nothing stops the bookkeeping at the ends of the range
    st = gen.state(rng, spec, B, batched=None if B == 1 else .5, lo=lo, hi=hi)
    far = bool((np.abs(st['soc'] - .5) > 1.2).any())
    asoh = gen.build_asoh(spec)
    m = ecm.model(mode)
    for _ in range(12):
        prev, new = ecm.random_prev_new(rng, spec, mode)
        out = m.update_transient_state(previous_inputs=gen.build_input(prev), new_inputs=gen.build_input(new),
                                       transient_state=gen.build_state(st), asoh=asoh)
        _note(ctx, prev, new)
        ctx.obs('with_c0', int(st['q0'] is not None))
        ctx.obs('far_outside', int(far))
        ctx.check((out.q0 is None) == (st['q0'] is None), 'q0-presence', 'series capacitor charge appeared or vanished')
        for b in range(B):
            sp, s = gen.member(spec, b), gen.state_member(st, b)
            soc, q0, q = _expected(sp, s, prev, new, mode)
            ctx.close(ecm.col(out, 'soc', B)[b], [soc], 'soc', f'SOC after {prev} -> {new} ({mode}, ce={sp["ce"]})', rtol=1e-9, atol=1e-12)
            if q0 is not None:
                ctx.close(ecm.col(out, 'q0', B)[b], [q0], 'q0', f'capacitor charge after {prev} -> {new} ({mode}, ce={sp["ce"]})',
                          rtol=1e-9, atol=1e-9 * (1 + abs(s['q0'])))
            if prev['time'] == new['time']:
                ctx.close(ecm.col(out, 'soc', B)[b], [s['soc']], 'repeat', 'SOC moved without time passing', rtol=0, atol=1e-14)
        ctx.case(mode=mode, prev=prev, new=new, **gen.describe(spec))


def schedule(ctx):
    """Whole histories through the simulator; the verdict comes from the recorded history only"""
    from moirae.simulator import Simulator
    rng = ctx.rng
    mode = str(rng.choice(MODES))
    B = int(rng.choice([1, 1, 3]))
    spec = gen.circuit(rng, B, batched=None if B == 1 else .4)
    st = gen.state(rng, spec, B, batched=None if B == 1 else .4, lo=.4, hi=.6, fresh=True)
    n = int(rng.integers(20, 400 if ctx.thorough else 150))
    inputs = gen.schedule(rng, spec, n, soc0=.5, mode=mode, t0=float(rng.choice([0, 0, 1e6, 1.6e9])))
    rec = ecm.recorder(mode)
    sim = Simulator(cell_model=rec, asoh=gen.build_asoh(spec), transient_state=gen.build_state(st),
                    initial_input=gen.build_input(inputs[0]), keep_history=True)
    sim.evolve([gen.build_input(i) for i in inputs[1:]])
    ctx.check(len(sim.transient_history) == n + 1, 'history', 'one state per input')
    members = [(gen.member(spec, b), gen.state_member(st, b)) for b in range(B)]
    total_q = 0.
    total_s = [s['soc'] for _, s in members]
    absq = 0.
    for k in range(n):
        prev, new = inputs[k], inputs[k + 1]
        _note(ctx, prev, new)
        q = ref.delivered(prev, new, mode)
        total_q += q
        absq += abs(q)
        h = sim.transient_history[k + 1]
        for b, (sp, s) in enumerate(members):
            total_s[b] += ref.efficiency(sp, prev) * q / (3600. * sp['qt'])
            ctx.close(ecm.col(h, 'soc', B)[b], [total_s[b]], 'soc-total', f'SOC after step {k + 1} of the schedule ({mode})', rtol=1e-8, atol=1e-9)
            if s['q0'] is not None:
                ctx.obs('with_c0')
                ctx.close(ecm.col(h, 'q0', B)[b], [s['q0'] + total_q], 'q0-total', f'capacitor charge after step {k + 1} ({mode})',
                          rtol=1e-8, atol=1e-9 * (1 + absq))
    # Discharging and charging cover all the intervals: with unit efficiency the SOC change is the charge over the capacity
    ups = [e for e in rec.log if e['op'] == 'update']
    ctx.check(len(ups) == n, 'history', f'{len(ups)} updates of the state for {n} inputs')
    ctx.case(mode=mode, n=n, last=inputs[-1], **gen.describe(spec))


def split(ctx):
    rng = ctx.rng
    mode = str(rng.choice(MODES))
    spec = gen.circuit(rng)
    st = gen.state(rng, spec)
    asoh, m = gen.build_asoh(spec), ecm.model(mode)
    qt = float(spec['qt'][0, 0])
    for _ in range(6):
        a = float(rng.normal() * qt) if rng.random() < .85 else 0.
        b = float(rng.normal() * qt)
        if mode == 'linear' and a * b < 0:
            b = -b  # keeps its direction
        if mode == 'linear' and a == 0 and rng.random() < .5:
            b = abs(b)
        # a ramp from rest into discharge counts as starting at rest only for its first piece: efficiency would apply to that piece only
        if mode == 'linear' and a == 0:
            b = abs(b)
        dt = float(min(10 ** rng.uniform(0, 3), .4 * 3600 * qt / max(abs(a), abs(b), 1e-9)))
        n = int(rng.integers(2, 12))
        cuts = np.sort(rng.uniform(0, 1, n - 1))
        if rng.random() < .3:
            cuts = np.sort(np.append(cuts, cuts[0]))  # with a repeated timestamp
        fr = [0.] + list(cuts) + [1.]
        T = None if rng.random() < .3 else float(rng.uniform(0, 50))

        def inp(f):
            cur = (a if f < 1 else b) if mode == 'constant' else a + (b - a) * f
            return gen.build_input(dict(time=f * dt, current=cur, temperature=T))

        whole = m.update_transient_state(previous_inputs=inp(0), new_inputs=inp(1.), transient_state=gen.build_state(st), asoh=asoh)
        x = gen.build_state(st)
        for f, g in zip(fr[:-1], fr[1:]):
            x = m.update_transient_state(previous_inputs=inp(f), new_inputs=inp(g), transient_state=x, asoh=asoh)
        ctx.obs('subdivisions')
        ctx.close(x.soc, whole.soc, 'split', f'SOC after an interval ({a} A to {b} A in {dt} s, {mode}) cut at {fr}', rtol=1e-9, atol=1e-11)
        if st['q0'] is not None:
            ctx.close(x.q0, whole.q0, 'split', f'capacitor charge after an interval ({a} A to {b} A in {dt} s, {mode}) cut at {fr}',
                      rtol=1e-9, atol=1e-9 * (1 + dt * abs(a)))
        ctx.case(mode=mode, a=a, b=b, dt=dt, n=n)


WORKLOADS = [WL('step', step, 250, 4000), WL('schedule', schedule, 60, 900), WL('split', split, 80, 1500)]
