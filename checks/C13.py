"""C13: a simulation is the composition of model steps, and its record is complete"""
import numpy as np

from lib import ecm, gen, ref, toy
from lib.harness import WL

RULE = ('A case is one system (equivalent circuit or a model with vector-valued inputs, states and outputs; unbatched or with any subset of parameters and states carrying '
        'a batch) and one list of inputs, simulated step by step, all at once, and in random pieces, with and without history, with and without degradation. Every state, output and '
        'record is compared with reference models of one member at a time (lib/ref.py, lib/toy.py). Distinct = system and inputs.')
REQUIRED = dict(member_steps=6000, frames=60, datasets=100, batched=30, toy_systems=25, circuits=30, history_entries=2000, rechecked_entries=2000, long_runs=3, degrading=12,
                columns=500, no_history=30, unmodified=60, continued=15, updatable_marked=50)
ASSUMPTIONS = ['inputs are not batched and keep the same set of fields throughout a run']


class Circuit:
    """An equivalent circuit, its inputs, and its reference"""

    def __init__(self, rng, B, n, special=None):
        self.mode = str(rng.choice(['constant', 'linear']))
        batched = None if B == 1 else ['all', float(rng.uniform(.05, .9))][int(rng.integers(2))]
        self.spec = gen.circuit(rng, B, batched=batched)
        self.st = gen.state(rng, self.spec, B, batched=batched, lo=.4, hi=.6)
        if B > 1 and batched != 'all':  # something which certainly shows in the outputs
            self.spec['r0']['v'] = np.repeat(self.spec['r0']['v'][:1], B, axis=0) * rng.uniform(.5, 1.5, (B, 1))
        first = gen.member_batched(self.spec, 0)
        first['qt'] = np.array([[self.spec['qt'].min()]])
        self.u = gen.schedule(rng, first, n, soc0=.5, mode=self.mode, t0=float(rng.choice([0., 1e4])), lo=.2, hi=.8)
        self.B, self.key = B, 'r0.base_values'

    def model(self):
        return ecm.model(self.mode)

    def asoh(self):
        return gen.build_asoh(self.spec)

    def state(self):
        return gen.build_state(self.st)

    def input(self, u):
        return gen.build_input(u)

    def names(self):
        n = len(self.spec['rc'])
        return (['time', 'current'] + ([] if self.u[0]['temperature'] is None else ['temperature']),
                ['soc'] + ([] if self.st['q0'] is None else ['q0']) + (['i_rc'] if n == 1 else [f'i_rc[{i}]' for i in range(n)]) + ['hyst'], ['terminal_voltage'])

    def inputs(self):
        return np.array([[u['time'], u['current']] + ([] if u['temperature'] is None else [u['temperature']]) for u in self.u])

    def run(self, b, fade=None):
        """(states, outputs, values of the degrading parameter) of one member"""
        m, s = gen.member(self.spec, b), gen.state_member(self.st, b)
        X, Y, A = [ref.state_vec(s)], [[ref.ecm_voltage(m, s, self.u[0])]], [m['r0']['v'].copy()]
        for up, un in zip(self.u, self.u[1:]):
            s = ref.ecm_step(m, s, up, un, self.mode)
            y = ref.ecm_voltage(m, s, un)
            X.append(ref.state_vec(s))
            Y.append([y])
            if fade:
                m['r0']['v'] = m['r0']['v'] * fade(un['current'], s['soc'], y)
            A.append(m['r0']['v'].copy())
        return np.array(X), np.array(Y), np.array(A)

    def scale(self, X):
        qt = float(np.max(self.spec['qt']))
        cur = max(abs(u['current']) for u in self.u) + qt
        return np.array([1.] + ([] if self.st['q0'] is None else [np.abs(X[:, 1]).max() + qt * 3600]) + [cur] * len(self.spec['rc']) + [.1])

    def describe(self):
        return dict(gen.describe(self.spec), mode=self.mode, n=len(self.u), last=self.u[-1])


class ToySystem:
    def __init__(self, rng, B, n):
        self.s = toy.spec(rng, B, 'all' if B == 1 or rng.random() < .4 else float(rng.uniform(0, .8)))
        if B > 1 and all(len(v) == 1 for v in self.s.values()):
            self.s['offset'] = np.repeat(self.s['offset'], B, axis=0) * rng.uniform(.5, 1.5, (B, 1))
        self.u = toy.schedule(rng, n)
        self.B, self.key = B, 'offset'

    def model(self):
        return toy.classes()['Toy']()

    def asoh(self):
        return toy.build(self.s)[0]

    def state(self):
        return toy.build(self.s)[1]

    def input(self, u):
        return toy.inp(u)

    def names(self):
        n = self.s['x'].shape[1]
        return ['time', 'current', 'load[0]', 'load[1]'], (['x'] if n == 1 else [f'x[{i}]' for i in range(n)]) + ['z'], ['terminal_voltage', 'extra[0]', 'extra[1]']

    def inputs(self):
        return np.array([[u['time'], u['current'], *u['load']] for u in self.u])

    def run(self, b, fade=None):
        m = toy.member(self.s, b)
        s = dict(x=m['x'], z=m['z'])
        X, Y, A = [np.concatenate([s['x'], s['z']])], [toy.output(m, s, self.u[0])], [m['offset'].copy()]
        for up, un in zip(self.u, self.u[1:]):
            s = toy.step(m, s, up, un)
            y = toy.output(m, s, un)
            X.append(np.concatenate([s['x'], s['z']]))
            Y.append(y)
            if fade:
                m['offset'] = m['offset'] * fade(un['current'], s['x'][0], y[0])
            A.append(m['offset'].copy())
        return np.array(X), np.array(Y), np.array(A)

    def scale(self, X):
        return np.abs(X).max(axis=0) + 1.

    def describe(self):
        return dict(toy={k: v.shape for k, v in self.s.items()}, n=len(self.u), last=self.u[-1])


def fade(cur, s, y):
    return 1. - 1e-3 * np.tanh(cur) ** 2 - 1e-4 * np.tanh(s) + 1e-4 * np.cos(y)


def degradation(key):
    from moirae.models.base import DegradationModel

    class Fade(DegradationModel):
        def update_asoh(self, previous_asoh, new_inputs, new_transients, new_measurements):
            out = previous_asoh.model_copy(deep=True)
            f = fade(new_inputs.current, new_transients.to_numpy()[:, :1], new_measurements.terminal_voltage)
            out.set_value(key, _value(previous_asoh, key) * f)
            return out
    return Fade()


def _value(asoh, key):
    return dict(asoh.iter_parameters(updatable_only=False))[key]


def rows(a, B):
    a = np.asarray(a, float)
    return np.broadcast_to(a, (B,) + a.shape[1:])


def snap(sim):
    return [[x.to_numpy().copy() for x in h] for h in (sim.input_history, sim.transient_history, sim.measurement_history)] + \
        [[ecm.asoh_snap(a) for a in sim.asoh_history]]


def make(ctx, B=None, n=None):
    rng = ctx.rng
    B = (1 if rng.random() < .35 else int(rng.integers(2, 6))) if B is None else B
    n = int(rng.integers(1, 25)) if n is None else n
    if rng.random() < .6:
        s = Circuit(rng, B, n)
        ctx.obs('circuits')
    else:
        s = ToySystem(rng, B, n)
        ctx.obs('toy_systems')
    ctx.obs('batched', int(B > 1))
    return s


def simulator(s, deg, keep, objs=None):
    from moirae.simulator import Simulator
    a, st, u0 = objs or (s.asoh(), s.state(), s.input(s.u[0]))
    kw = dict(degradation_model=degradation(s.key)) if deg else {}
    if keep or deg:
        kw['keep_history'] = keep
    return Simulator(cell_model=s.model(), asoh=a, transient_state=st, initial_input=u0, **kw)


class Truth:
    def __init__(self, s, deg):
        self.s = s
        r = [s.run(b, fade if deg else None) for b in range(s.B)]
        self.X, self.Y, self.A = (np.stack([m[i] for m in r], axis=1) for i in range(3))  # step, member, value
        self.U = s.inputs()
        self.sx = np.max([s.scale(m[0]) for m in r], axis=0)
        self.sy = np.abs(self.Y).max(axis=(0, 1)) + 1 + (0 if isinstance(s, ToySystem) else np.max(np.abs(self.X[..., 1:-1]), initial=0.) * 1e-3)

    def state(self, ctx, got, k, label):
        got = rows(got.to_numpy(), self.s.B)
        ctx.check(got.shape == self.X[k].shape, 'state-shape', f'{label}: {got.shape} instead of {self.X[k].shape}')
        ctx.check((np.abs(got - self.X[k]) <= 1e-7 * self.sx).all(), 'state', f'{label}: states', got=got, want=self.X[k])
        ctx.obs('member_steps', self.s.B)

    def output(self, ctx, got, k, label):
        got = rows(got.to_numpy(), self.s.B)
        ctx.check((np.abs(got - self.Y[k]) <= 1e-7 * self.sy).all(), 'output', f'{label}: outputs', got=got, want=self.Y[k])

    def health(self, ctx, asoh, k, label, orig):
        vals = dict(asoh.iter_parameters(updatable_only=False))
        ctx.close(rows(vals[self.s.key], self.s.B), self.A[k], 'health', f'{label}: {self.s.key}', rtol=1e-9)
        for n, v in orig.items():
            if n != self.s.key:
                ctx.check(np.array_equal(vals[n], v), 'health', f'{label}: {n} changed', got=vals[n], want=v)


def verify_history(ctx, s, T, sim, orig, upto):
    n = upto + 1
    for name in ('input_history', 'transient_history', 'measurement_history', 'asoh_history'):
        ctx.check(len(getattr(sim, name)) == n, 'history-length', f'{name} holds {len(getattr(sim, name))} entries after {upto} steps')
    for k in range(n):
        ctx.close(sim.input_history[k].to_numpy(), T.U[k:k + 1], 'input-history', f'inputs of step {k}', rtol=0, atol=0)
        T.state(ctx, sim.transient_history[k], k, f'history, step {k}')
        T.output(ctx, sim.measurement_history[k], k, f'history, step {k}')
        T.health(ctx, sim.asoh_history[k], k, f'history, step {k}', orig)
        ctx.obs('history_entries')


def verify_frame(ctx, s, T, df, upto):
    un, xn, yn = s.names()
    ctx.check(set(df.columns) == {'batch', *un, *xn, *yn}, 'columns', f'columns {list(df.columns)}')
    ctx.check([c for c in df.columns if c != 'batch'] == un + xn + yn, 'column-order', f'columns {list(df.columns)}')
    ctx.check(len(df) == s.B * (upto + 1), 'frame-rows', f'{len(df)} rows for {s.B} members and {upto + 1} steps')
    ctx.check(sorted(set(df['batch'])) == list(range(s.B)), 'batch-labels', f'labels {set(df["batch"])}')
    for b in range(s.B):
        verify_table(ctx, s, T, df[df['batch'] == b], b, upto, {})
    ctx.obs('frames')


def verify_table(ctx, s, T, g, b, upto, rename):
    un, xn, yn = s.names()
    n = upto + 1
    ctx.check(len(g) == n, 'frame-rows', f'{len(g)} rows for member {b} after {upto} steps')
    for j, c in enumerate(un):
        ctx.close(g[rename.get(c, c)].to_numpy(), T.U[:n, j], 'input-column', f'{c} of member {b}', rtol=0, atol=0)
    for j, c in enumerate(xn):
        ctx.check((np.abs(g[rename.get(c, c)].to_numpy() - T.X[:n, b, j]) <= 1e-7 * T.sx[j]).all(), 'state-column', f'{c} of member {b}', got=g[rename.get(c, c)].to_numpy(), want=T.X[:n, b, j])
    for j, c in enumerate(yn):
        ctx.check((np.abs(g[rename.get(c, c)].to_numpy() - T.Y[:n, b, j]) <= 1e-7 * T.sy[j]).all(), 'output-column', f'{c} of member {b}', got=g[rename.get(c, c)].to_numpy(), want=T.Y[:n, b, j])
    ctx.obs('columns', len(un) + len(xn) + len(yn))


def verify_datasets(ctx, s, T, sim, upto):
    un, xn, yn = s.names()
    rename = {'time': 'test_time', 'terminal_voltage': 'voltage'}
    for extra in (False, True):
        sets = sim.to_batdata(extra_columns=extra) if extra or ctx.rng.random() < .5 else sim.to_batdata()
        ctx.check(len(sets) == s.B, 'datasets', f'{len(sets)} datasets for {s.B} members')
        for b, d in enumerate(sets):
            g = d.tables['raw_data']
            ctx.check('batch' not in g.columns, 'dataset-columns', f'{list(g.columns)}')
            want = {rename.get(c, c) for c in un + xn + yn}
            ctx.check(set(g.columns) == want, 'dataset-columns', f'columns {list(g.columns)} instead of {want}')
            verify_table(ctx, s, T, g, b, upto, rename)
            if extra:
                ctx.check(set(un + xn + yn) - {'time', 'terminal_voltage'} <= set(d.schemas['raw_data'].column_names), 'schema', 'columns missing from the schema')
                ctx.check(len(d.validate()) == 0, 'schema', f'dataset does not follow its schema: {d.validate()}')
            ctx.obs('datasets')


def compose(ctx, s=None, n=None):
    rng = ctx.rng
    s = make(ctx, n=n) if s is None else s
    deg = bool(rng.random() < .3)
    ctx.obs('degrading', int(deg))
    ctx.case(**s.describe(), deg=deg)
    T = Truth(s, deg)
    N = len(s.u) - 1
    objs = [s.asoh(), s.state()] + [s.input(u) for u in s.u]
    if rng.random() < .5:  # which parameters are to be estimated has nothing to do with which ones change
        for p in rng.choice(objs[0].all_names, int(rng.integers(1, 4))):
            objs[0].mark_updatable(str(p))
        ctx.obs('updatable_marked')
    orig = ecm.asoh_snap(objs[0])
    before = [x.to_numpy().copy() for x in objs[1:]]
    # step by step, keeping a record
    sim = simulator(s, deg, True, objs[:3])
    T.output(ctx, sim.measurement, 0, 'initial')
    T.state(ctx, sim.transient, 0, 'initial')
    verify_history(ctx, s, T, sim, orig, 0)
    seen = snap(sim)
    cut = int(rng.integers(0, N + 1))
    for k in range(1, cut + 1):
        x, y = sim.step(objs[2 + k])
        T.state(ctx, x, k, f'step {k}')
        T.output(ctx, y, k, f'step {k}')
        T.state(ctx, sim.transient, k, f'attributes, step {k}')
        T.output(ctx, sim.measurement, k, f'attributes, step {k}')
        T.health(ctx, sim.asoh, k, f'attributes, step {k}', orig)
        ctx.close(sim.previous_input.to_numpy(), T.U[k:k + 1], 'previous-input', f'step {k}', rtol=0, atol=0)
        for h, lst in zip(seen[:3], (sim.input_history, sim.transient_history, sim.measurement_history)):
            h.append(lst[-1].to_numpy().copy())
        seen[3].append(ecm.asoh_snap(sim.asoh_history[-1]))
    if cut:
        verify_frame(ctx, s, T, sim.to_dataframe(), cut)
    # the rest all at once
    outs = sim.evolve(objs[3 + cut:])
    ctx.obs('continued', int(0 < cut < N))
    ctx.check(len(outs) == N - cut, 'evolve-length', f'{len(outs)} outputs for {N - cut} inputs')
    for k, y in enumerate(outs, cut + 1):
        T.output(ctx, y, k, f'evolve, step {k}')
    T.state(ctx, sim.transient, N, 'after evolving')
    T.output(ctx, sim.measurement, N, 'after evolving')
    verify_history(ctx, s, T, sim, orig, N)
    # the record of earlier steps is what it was then
    later = snap(sim)
    for h, g in zip(seen, later):
        for k, v in enumerate(h):
            same = np.array_equal(v, g[k]) if isinstance(v, np.ndarray) else all(np.array_equal(v[p], g[k][p]) for p in v)
            ctx.check(same, 'history-altered', f'record of step {k} changed afterwards')
            ctx.obs('rechecked_entries')
    df = sim.to_dataframe()
    verify_frame(ctx, s, T, df, N)
    verify_datasets(ctx, s, T, sim, N)
    # what users do with the compiled tables does not come back
    for c in df.columns:
        df[c] = -1
    verify_frame(ctx, s, T, sim.to_dataframe(), N)
    # without history, in pieces
    sim = simulator(s, deg, False, (objs[0], objs[1], objs[2]))
    T.output(ctx, sim.measurement, 0, 'no history, initial')
    T.state(ctx, sim.transient, 0, 'no history, initial')
    ctx.close(sim.previous_input.to_numpy(), T.U[:1], 'previous-input', 'no history, initial', rtol=0, atol=0)
    k = 0
    while k < N:
        m = int(rng.integers(0, 4))
        if m == 0:
            x, y = sim.step(objs[3 + k])
            T.state(ctx, x, k + 1, f'no history, step {k + 1}')
            got = [y]
        else:
            got = sim.evolve(objs[3 + k:3 + k + m])
        for y in got:
            k += 1
            T.output(ctx, y, k, f'no history, step {k}')
        if got:
            T.state(ctx, sim.transient, k, f'no history, attributes, step {k}')
            T.output(ctx, sim.measurement, k, f'no history, attributes, step {k}')
            T.health(ctx, sim.asoh, k, f'no history, step {k}', orig)
            ctx.close(sim.previous_input.to_numpy(), T.U[k:k + 1], 'previous-input', f'no history, step {k}', rtol=0, atol=0)
    T.state(ctx, sim.transient, N, 'no history')
    T.health(ctx, sim.asoh, N, 'no history', orig)
    ctx.raises(Exception, sim.to_dataframe, 'no-history-frame', 'data frame without history')
    ctx.raises(Exception, sim.to_batdata, 'no-history-frame', 'datasets without history')
    ctx.obs('no_history')
    # nothing of the user's changed
    for x, v in zip(objs[1:], before):
        ctx.check(np.array_equal(x.to_numpy(), v), 'argument-modified', 'a state or input given to the simulator changed')
    now = ecm.asoh_snap(objs[0])
    ctx.check(all(np.array_equal(now[p], orig[p]) for p in orig), 'argument-modified', 'the health parameters given to the simulator changed')
    ctx.obs('unmodified')


def long(ctx):
    ctx.obs('long_runs')
    compose(ctx, n=int(ctx.rng.integers(100, 250)))


def reuse(ctx):
    """Inputs edited after a step, and the same input object used again, leave the record as it was"""
    rng = ctx.rng
    s = make(ctx, n=int(rng.integers(3, 12)))
    ctx.case(**s.describe(), reuse=True)
    T = Truth(s, False)
    u = s.input(s.u[0])
    sim = simulator(s, False, True, (s.asoh(), s.state(), u))
    orig = ecm.asoh_snap(s.asoh())
    for k in range(1, len(s.u)):
        u.from_numpy(s.input(s.u[k]).to_numpy())  # one object for all steps
        x, y = sim.step(u)
        T.state(ctx, x, k, f'step {k} with an input used again')
        T.output(ctx, y, k, f'step {k} with an input used again')
    verify_history(ctx, s, T, sim, orig, len(s.u) - 1)
    verify_frame(ctx, s, T, sim.to_dataframe(), len(s.u) - 1)
    ctx.obs('unmodified')


WORKLOADS = [WL('compose', compose, 220, 5000), WL('long', long, 8, 150), WL('reuse', reuse, 60, 1500)]
