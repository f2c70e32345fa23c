"""Driving the equivalent circuit model of /repo and recording what it does"""
import numpy as np

from . import gen, ref


def model(mode):
    from moirae.models.ecm import EquivalentCircuitModel
    return EquivalentCircuitModel(current_behavior=mode)


def recorder(mode):
    """An equivalent circuit model which keeps a log of the calls it receives (event recorder at its boundary)"""
    from moirae.models.ecm import EquivalentCircuitModel

    class Recorder(EquivalentCircuitModel):
        def __init__(self):
            super().__init__(current_behavior=mode)
            self.log = []

        def update_transient_state(self, previous_inputs, new_inputs, transient_state, asoh):
            ev = dict(op='update', prev=snap(previous_inputs), new=snap(new_inputs), before=transient_state.to_numpy().copy(), asoh=asoh_snap(asoh))
            out = super().update_transient_state(previous_inputs=previous_inputs, new_inputs=new_inputs, transient_state=transient_state, asoh=asoh)
            ev['after'] = out.to_numpy().copy()
            self.log.append(ev)
            return out

        def calculate_terminal_voltage(self, new_inputs, transient_state, asoh):
            ev = dict(op='voltage', new=snap(new_inputs), state=transient_state.to_numpy().copy(), asoh=asoh_snap(asoh))
            out = super().calculate_terminal_voltage(new_inputs=new_inputs, transient_state=transient_state, asoh=asoh)
            ev['out'] = out.to_numpy().copy()
            self.log.append(ev)
            return out

    return Recorder()


def snap(x):
    return x.to_numpy().copy()


def asoh_snap(asoh):
    """All values of a set of health parameters as a dictionary of copies"""
    return {k: v.copy() for k, v in asoh.iter_parameters(updatable_only=False)}


def arr(state, field):
    """Values of one field of a container, as (batch, length)"""
    return np.asarray(getattr(state, field), float)


def col(state, field, B):
    return np.broadcast_to(arr(state, field), (B, arr(state, field).shape[1]))


def random_prev_new(rng, spec, mode, extreme=True):
    """Pair of inputs for a single step, with an accent on special cases"""
    qt = float(np.min(spec['qt']))
    t0 = float(rng.choice([0., rng.uniform(0, 1e5), 1.6e9]))
    kind = int(rng.integers(0, 8))
    a, b = rng.normal(0, qt, 2)
    if kind == 0:
        b = a
    elif kind == 1:
        a = 0.
    elif kind == 2:
        b = 0.
    elif kind == 3:
        b = -a * rng.uniform(.1, 3)
    elif kind == 4:
        b = a * rng.uniform(.1, 3)
    elif kind == 5:
        a = b = 0.
    dt = float(10 ** rng.uniform(-2, 3.2))
    u = rng.random()
    if u < .08:
        dt = 0.
    elif u < .16:
        dt = float(10 ** rng.uniform(-5, -2))  # fast logging
    elif u < .22:
        dt = float(10 ** rng.uniform(4.5, 6.5))  # days between records: only small currents can flow that long
        scale = min(1., .5 * qt * 3600 / max(abs(a), abs(b), 1e-12) / dt)
        a, b = a * scale, b * scale
    if extreme and rng.random() < .1:
        a, b = a * 1e-8, b * 1e-8
    # do not empty or overfill the cell by far more than once
    lim = .5 * qt * 3600 / max(abs(a), abs(b), 1e-12)
    dt = min(dt, lim)
    T = None if rng.random() < .25 else (gen.temperature(rng), gen.temperature(rng))
    prev = dict(time=t0, current=float(a), temperature=None if T is None else float(T[0]))
    new = dict(time=t0 + dt, current=float(b), temperature=None if T is None else float(T[1]))
    if rng.random() < .2:
        prev['current'], new['current'] = float(np.round(prev['current'])), float(np.round(new['current']))
    return prev, new
