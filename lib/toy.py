"""A small cell model with vector-valued inputs, states, outputs and parameters, and degradation models, written against the public base classes.

Each comes with a plain-number reference acting on one member of a batch.
"""
import numpy as np

_C = {}


def classes():
    if _C:
        return _C
    from moirae.models.base import (GeneralContainer, HealthVariable, InputQuantities, OutputQuantities, CellModel, ListParameter, ScalarParameter)

    class Part(HealthVariable):
        rate: ListParameter
        scale: ScalarParameter = 1.

    class Health(HealthVariable):
        offset: ScalarParameter
        part: Part
        spare: ListParameter = [0., 0.]

    class State(GeneralContainer):
        x: ListParameter
        z: ScalarParameter

    class In(InputQuantities):
        load: ListParameter = [0., 0.]

    class Out(OutputQuantities):
        extra: ListParameter

    class Toy(CellModel):
        def update_transient_state(self, previous_inputs, new_inputs, transient_state, asoh):
            dt = new_inputs.time - previous_inputs.time
            x = transient_state.x * np.exp(-asoh.part.rate * dt) + asoh.part.scale * previous_inputs.current * dt * 1e-2
            z = transient_state.z + (previous_inputs.current + 2 * new_inputs.current) * asoh.offset * .1 + new_inputs.load[:, :1] - .5 * previous_inputs.load[:, 1:]
            return State(x=x, z=z)

        def calculate_terminal_voltage(self, new_inputs, transient_state, asoh):
            v = asoh.offset + transient_state.x.sum(axis=1, keepdims=True) + .3 * transient_state.z * np.tanh(new_inputs.current)
            e = transient_state.x[:, :1] * asoh.part.scale
            B = max(len(v), len(e))
            return Out(terminal_voltage=v, extra=np.concatenate([np.broadcast_to(a, (B, 1)) for a in (e, transient_state.z)], axis=1))

    _C.update(Part=Part, Health=Health, State=State, In=In, Out=Out, Toy=Toy)
    return _C


def spec(rng, B=1, batched=None):
    n = int(rng.integers(1, 4))
    s = dict(offset=rng.uniform(1, 3, (B, 1)), rate=rng.uniform(.01, .3, (B, n)), scale=rng.uniform(.5, 2, (B, 1)), x=rng.normal(size=(B, n)), z=rng.normal(size=(B, 1)))
    if B > 1 and batched != 'all':
        keep = str(rng.choice(['offset', 'rate', 'scale', 'x', 'z']))
        for k in s:
            if k != keep and rng.random() > (batched or 0.):
                s[k] = s[k][:1]
    return s


def schedule(rng, n):
    t = np.cumsum(np.concatenate([[rng.choice([0., 50.])], rng.uniform(0, 5, n)]))
    return [dict(time=float(v), current=float(rng.normal()), load=rng.normal(size=2)) for v in t]


def build(s):
    c = classes()
    a = c['Health'](offset=s['offset'].copy(), part=c['Part'](rate=s['rate'].copy(), scale=s['scale'].copy()))
    return a, c['State'](x=s['x'].copy(), z=s['z'].copy())


def inp(u):
    return classes()['In'](time=u['time'], current=u['current'], load=u['load'].copy())


def member(s, b):
    return {k: np.array(v[b if len(v) > 1 else 0], float) for k, v in s.items()}


def step(m, st, up, un):
    dt = un['time'] - up['time']
    x = st['x'] * np.exp(-m['rate'] * dt) + m['scale'][0] * up['current'] * dt * 1e-2
    z = st['z'] + (up['current'] + 2 * un['current']) * m['offset'][0] * .1 + un['load'][0] - .5 * up['load'][1]
    return dict(x=x, z=z)


def output(m, st, u):
    v = m['offset'][0] + st['x'].sum() + .3 * st['z'][0] * np.tanh(u['current'])
    return np.array([v, st['x'][0] * m['scale'][0], st['z'][0]])
