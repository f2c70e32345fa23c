"""C04: members of a batch evolve independently.

Metamorphic monitors: every member of a batched evaluation against the same member alone (through the same code), against an independent
scalar reference, and against the batch permuted, truncated or with the other members replaced.
"""
import numpy as np

from lib import ecm, gen, ref
from lib.harness import WL

RULE = ('One case = one random circuit, batch size 2-6 (with an accent on sizes equal to the number of RC elements or SOC points) and a subset of '
        'health parameters and state fields that carry the batch (none, one, random, all). Non-trivial if something is batched.')
REQUIRED = {'members': 2000, 'only_one_parameter': 60, 'only_state': 25, 'only_asoh': 20, 'size_equals_rc': 25, 'permutations': 300,
            'sim_steps': 300, 'components': 300, 'distinct_members': 800}
MODES = ('constant', 'linear')


def _case(rng, ctx):
    B = int(rng.choice([2, 3, 4, 5, 6]))
    n_rc = B if rng.random() < .3 and B <= 4 else int(rng.integers(0, 4))
    u = rng.random()
    spec = gen.circuit(rng, B, batched='all', n_rc=n_rc)
    st = gen.state(rng, spec, B, batched='all')
    paths = gen.param_paths(spec)
    fields = [k for k in st if st[k] is not None]
    if u < .3:  # a single parameter
        keep, keep_s = {str(rng.choice(paths))}, set()
        ctx.obs('only_one_parameter')
    elif u < .4:  # a single field of the state
        keep, keep_s = set(), {str(rng.choice(fields))}
        ctx.obs('only_state')
    elif u < .5:
        keep, keep_s = set(), set(fields)
        ctx.obs('only_state')
    elif u < .62:
        keep, keep_s = set(paths), set()
        ctx.obs('only_asoh')
    elif u < .72:
        keep, keep_s = set(paths), set(fields)
    else:
        p = rng.uniform(.1, .9)
        keep = {x for x in paths if rng.random() < p}
        keep_s = {x for x in fields if rng.random() < p}
    for path in paths:
        if path not in keep:
            d, k = gen.locate(spec, path)
            d[k] = d[k][:1]
    for k in fields:
        if k not in keep_s:
            st[k] = st[k][:1]
    ctx.obs('size_equals_rc', int(B == n_rc))
    return B, spec, st, keep, keep_s


def _full(out, B, msg, ctx):
    a = out.to_numpy()
    ctx.check(a.ndim == 2 and a.shape[0] in (1, B), 'batch-size', f'{msg}: batch of {a.shape} instead of {B}')
    return np.broadcast_to(a, (B, a.shape[1]))


def _eval(m, spec, st, prev, new):
    asoh = gen.build_asoh(spec)
    x = m.update_transient_state(previous_inputs=gen.build_input(prev), new_inputs=gen.build_input(new), transient_state=gen.build_state(st), asoh=asoh)
    v0 = m.calculate_terminal_voltage(new_inputs=gen.build_input(prev), transient_state=gen.build_state(st), asoh=asoh)
    v1 = m.calculate_terminal_voltage(new_inputs=gen.build_input(new), transient_state=x, asoh=asoh)
    return x, v0, v1


def _take(spec, st, order):
    """Reorder / truncate / repeat the members of the batched quantities"""
    import copy
    spec, st = copy.deepcopy(spec), copy.deepcopy(st)
    for path in gen.param_paths(spec):
        d, k = gen.locate(spec, path)
        if d[k].shape[0] > 1:
            d[k] = d[k][order]
    for k in st:
        if st[k] is not None and st[k].shape[0] > 1:
            st[k] = st[k][order]
    return spec, st


TOL = dict(rtol=1e-9, atol=1e-10)


def _scale_tol(s, prev, new):
    m = abs(prev['current']) + abs(new['current']) + abs(s['q0'] or 0)
    return dict(rtol=1e-7, atol=1e-9 + 1e-7 * m)


def step(ctx):
    rng = ctx.rng
    mode = str(rng.choice(MODES))
    m = ecm.model(mode)
    B, spec, st, keep, keep_s = _case(rng, ctx)
    names = f'batch of {B} in {sorted(keep)[:6]} and state {sorted(keep_s)}, {len(spec["rc"])} RC'
    for _ in range(3):
        prev, new = ecm.random_prev_new(rng, spec, mode, extreme=False)
        new['time'] = max(new['time'], prev['time'] + .05) if new['time'] > prev['time'] else new['time']
        x, v0, v1 = _eval(m, spec, st, prev, new)
        X, V0, V1 = (_full(o, B, f'{names}, {mode}', ctx) for o in (x, v0, v1))
        # what must carry the batch
        for f in keep_s:
            ctx.check(getattr(x, f).shape[0] == B, 'batch-size', f'{f} lost the batch it came with: {names}')
        if 'soc' in keep_s or 'ocv.ocv_ref.base_values' in keep:
            ctx.check(v0.batch_size == B, 'batch-size', f'voltage of {names} has batch size {v0.batch_size}')
        if 'q_t.base_values' in keep or 'soc' in keep_s:
            ctx.check(x.batch_size == B and v1.batch_size == B, 'batch-size', f'state of {names} has batch size {x.batch_size}')
        for b in range(B):
            ctx.obs('members')
            ctx.obs('distinct_members', int(b > 0 and bool((X[b] != X[0]).any())))
            sp, s = gen.member(spec, b), gen.state_member(st, b)
            want = ref.ecm_step(sp, s, prev, new, mode)
            tol = _scale_tol(s, prev, new)
            ctx.close(X[b], ref.state_vec(want), 'member-reference', f'state of member {b}: {names}, {prev} -> {new} ({mode})', **tol)
            ctx.close(V0[b, 0], ref.ecm_voltage(sp, s, prev), 'member-voltage', f'voltage of member {b}: {names}', **tol)
            ctx.close(V1[b, 0], ref.ecm_voltage(sp, want, new), 'member-voltage', f'new voltage of member {b}: {names}', **tol)
            x1, a0, a1 = _eval(m, gen.member_batched(spec, b), gen.state_member_batched(st, b), prev, new)
            for got, alone, what in ((X, x1, 'state'), (V0, a0, 'voltage'), (V1, a1, 'new voltage')):
                ctx.close(got[b:b + 1], alone.to_numpy(), 'member-alone', f'{what} of member {b} differs from that of the member alone: {names} ({mode})', **TOL)
        # order, number and other members
        perm = rng.permutation(B)
        if rng.random() < .5:
            perm = rng.integers(0, B, int(rng.integers(2, 7)))
        x2, b0, b1 = _eval(m, *_take(spec, st, perm), prev, new)
        n = len(perm)
        for got, other, what in ((X, x2, 'state'), (V0, b0, 'voltage'), (V1, b1, 'new voltage')):
            ctx.close(_full(other, n, names, ctx), got[perm], 'permutation', f'{what} after selecting members {perm}: {names} ({mode})', **TOL)
        ctx.obs('permutations')
        ctx.case(nontrivial=bool(keep or keep_s), B=B, rc=len(spec['rc']), keep=sorted(keep), state=sorted(keep_s), mode=mode, prev=prev, new=new)


def simulate(ctx):
    from moirae.simulator import Simulator
    rng = ctx.rng
    mode = str(rng.choice(MODES))
    B, spec, st, keep, keep_s = _case(rng, ctx)
    st['soc'] = rng.uniform(.45, .55, st['soc'].shape)
    n = int(rng.integers(10, 40))
    inputs = gen.schedule(rng, spec, n, soc0=.5, mode=mode, lo=.25, hi=.75, dt_range=(-.5, 3.3))

    def run(sp, s):
        sim = Simulator(cell_model=ecm.model(mode), asoh=gen.build_asoh(sp), transient_state=gen.build_state(s),
                        initial_input=gen.build_input(inputs[0]), keep_history=True)
        sim.evolve([gen.build_input(i) for i in inputs[1:]])
        return sim.transient_history, sim.measurement_history

    T, V = run(spec, st)
    for b in range(B):
        t1, v1 = run(gen.member_batched(spec, b), gen.state_member_batched(st, b))
        for k in range(n + 1):
            tol = dict(rtol=1e-7, atol=1e-8 * (1 + abs(inputs[k]['current']) + np.abs(t1[k].to_numpy()).max() * 1e-3))
            ctx.close(_full(T[k], B, 'simulation', ctx)[b:b + 1], t1[k].to_numpy(), 'simulation', f'state of member {b} at step {k}, batch in {sorted(keep)[:5]} {sorted(keep_s)}', **tol)
            ctx.close(_full(V[k], B, 'simulation', ctx)[b:b + 1], v1[k].to_numpy(), 'simulation', f'voltage of member {b} at step {k}, batch in {sorted(keep)[:5]} {sorted(keep_s)}', **tol)
            ctx.obs('sim_steps')
    ctx.case(nontrivial=bool(keep or keep_s), B=B, rc=len(spec['rc']), keep=sorted(keep), state=sorted(keep_s), mode=mode, n=n)


def components(ctx):
    """Parameters evaluated at scalar, 1D and batched SOCs: entry (i, j) belongs to parameter member i and SOC member j"""
    rng = ctx.rng
    B, spec, _, keep, _ = _case(rng, ctx)
    asoh = gen.build_asoh(spec)
    S, D = int(rng.choice([1, B, 2, 3])), int(rng.integers(1, 6))
    soc = rng.uniform(-.1, 1.1, (S, D))
    temp = None if rng.random() < .3 else gen.temperature(rng)
    todo = [('ocv', lambda q: asoh.ocv(soc=q, temp=temp), lambda sp, x: ref.ocv(sp, x, temp), ['ocv.']),
            ('r0', lambda q: asoh.r0.get_value(soc=q, temp=temp), lambda sp, x: ref.resistance(sp['r0'], x, temp), ['r0.']),
            ('h0', lambda q: asoh.h0.get_value(soc=q), lambda sp, x: ref.interp(sp['h0'], x), ['h0.base'])]
    for j, e in enumerate(asoh.rc_elements):
        todo.append((f'tau{j}', lambda q, e=e: e.time_constant(soc=q, temp=temp),
                     lambda sp, x, j=j: ref.resistance(sp['rc'][j]['r'], x, temp) * ref.interp(sp['rc'][j]['c'], x), [f'rc_elements.{j}.']))
    if asoh.c0 is not None:
        todo.append(('c0', lambda q: asoh.c0.get_value(soc=q), lambda sp, x: ref.interp(sp['c0'], x), ['c0.']))
    for name, f, r, prefix in todo:
        batched = any(k.startswith(tuple(prefix)) for k in keep)
        got = f(soc)
        ctx.check(got.ndim == 3 and got.shape[1:] == (S, D) and got.shape[0] in ((1, B) if batched else (1,)), 'component-shape',
                  f'{name} at SOCs {soc.shape} with batch {B} in {sorted(keep)[:5]} has shape {got.shape}')
        want = np.array([[[r(gen.member(spec, b), float(x)) for x in row] for row in soc] for b in range(B)])
        ctx.close(np.broadcast_to(got, want.shape), want, 'component', f'{name} at SOCs {soc.shape} with batch {B} in {sorted(keep)[:5]}', rtol=1e-9, atol=1e-12)
        ctx.obs('components')
    e = np.broadcast_to(asoh.get_theoretical_energy(temperature=temp), (B, 1)) if True else None
    for b in range(B):
        one = gen.build_asoh(gen.member_batched(spec, b)).get_theoretical_energy(temperature=temp)
        ctx.close(e[b:b + 1], one, 'energy', f'energy of member {b}', rtol=1e-9)
    ctx.case(nontrivial=bool(keep), B=B, S=S, D=D, keep=sorted(keep), rc=len(spec['rc']))


WORKLOADS = [WL('step', step, 300, 6000), WL('simulate', simulate, 50, 700), WL('components', components, 120, 2500)]
