"""C07: parameters and states survive JSON.

Round-trip monitors: the object read back is compared, field by field, flag by flag, and through the physics (bit for bit), with the one
written; at random points in a history of evaluations, simulations, edits and updates.
"""
import json

import numpy as np

from checks import C05
from lib import ecm, gen
from lib.harness import WL

RULE = ('One case = one random circuit (any batch), container or tree of health variables, written and read at 3-6 points of a random history of uses. '
        'Non-trivial if it holds SOC grids, batches or flags.')
REQUIRED = {'round_trips': 500, 'after_use': 100, 'with_grids': 150, 'batched': 200, 'flagged': 150, 'physics': 200, 'containers': 200, 'trees': 100}


def _params(hv):
    return {k: v for k, v in hv.iter_parameters(updatable_only=False)}


def same_hv(ctx, a, b, msg, path=''):
    """Recursive comparison of two health variables"""
    from moirae.models.base import HealthVariable
    ctx.check(type(a) is type(b), 'type', f'{msg}: {path or "object"} became {type(b).__name__}')
    ctx.check(a.updatable == b.updatable, 'updatable', f'{msg}: flags of {path or "object"} {a.updatable} became {b.updatable}')
    for name in type(a).model_fields:
        if name == 'updatable':
            continue
        x, y, p = getattr(a, name), getattr(b, name), f'{path}.{name}'
        if isinstance(x, HealthVariable):
            ctx.check(isinstance(y, HealthVariable), 'type', f'{msg}: {p} became {y}')
            same_hv(ctx, x, y, msg, p)
        elif isinstance(x, (tuple, list)):
            ctx.check(len(x) == len(y), 'value', f'{msg}: {p} has {len(y)} members')
            for i, (u, v) in enumerate(zip(x, y)):
                same_hv(ctx, u, v, msg, f'{p}.{i}')
        elif isinstance(x, dict):
            ctx.check(list(x) == list(y), 'value', f'{msg}: {p} has members {list(y)}')
            for k in x:
                same_hv(ctx, x[k], y[k], msg, f'{p}.{k}')
        elif isinstance(x, np.ndarray):
            ctx.check(isinstance(y, np.ndarray) and x.shape == y.shape and np.array_equal(x, y), 'value', f'{msg}: {p} was {x} and became {y}')
        else:
            ctx.check(x is y or x == y, 'value', f'{msg}: {p} was {x} and became {y}')


def trip(rng, x):
    if rng.random() < .6:
        return type(x).model_validate_json(x.model_dump_json())
    return type(x).model_validate(json.loads(json.dumps(x.model_dump(mode='json'))))


def circuit(ctx):
    from moirae.simulator import Simulator
    rng = ctx.rng
    B = int(rng.integers(1, 5))
    spec = gen.circuit(rng, B, batched=.4, styles=gen.SMOOTH + ['nearest', 'zero'])
    st = gen.state(rng, spec, B, batched=.4, lo=.4, hi=.6)
    asoh = gen.build_asoh(spec)
    used = False
    trace = []
    inputs = gen.schedule(rng, spec, 6, soc0=.5, lo=.3, hi=.7)
    for k in range(int(rng.integers(3, 7))):
        before = {n: v.copy() for n, v in _params(asoh).items()}
        back = trip(rng, asoh)
        msg = f'circuit after {trace}'
        same_hv(ctx, asoh, back, msg)
        for n, v in _params(asoh).items():
            ctx.check(np.array_equal(v, before[n]), 'write-changes', f'{msg}: writing changed {n}')
        ctx.check(back.batch_size == asoh.batch_size and back.all_names == asoh.all_names and back.updatable_names == asoh.updatable_names, 'names', f'{msg}: names or batch size changed')
        ctx.obs('round_trips')
        ctx.obs('after_use', int(used))
        ctx.obs('with_grids', int(any(p['pins'] is not None for p in (spec['ocv'], spec['r0'], spec['h0'], spec['ent']))))
        ctx.obs('batched', int(asoh.batch_size > 1))
        ctx.obs('flagged', int(len(asoh.updatable_names) > 0))
        # Physics: bit for bit, on copies so that the comparison itself counts as no use
        x, y = asoh.model_copy(deep=True), back.model_copy(deep=True)
        T = None if rng.random() < .3 else float(rng.uniform(0, 40))
        q = rng.uniform(-.1, 1.1, (3, 4))
        fs = [lambda a: a.ocv(q, temp=T), lambda a: a.r0.get_value(q, temp=T), lambda a: a.h0.get_value(q), lambda a: a.get_theoretical_energy(temperature=T),
              lambda a: np.array([float(a.r0.reference_temperature)] + [float(e.r.reference_temperature) for e in a.rc_elements])]
        fs += [lambda a, i=i: a.rc_elements[i].time_constant(q, temp=T) for i in range(len(x.rc_elements))]
        if x.c0 is not None:
            fs.append(lambda a: a.c0.get_value(q))
        for i, f in enumerate(fs):
            u, v = f(x), f(y)
            ctx.check(np.shape(u) == np.shape(v) and np.allclose(u, v, rtol=1e-10, atol=1e-12), 'physics', f'{msg}: evaluation {i} differs after reading back')
        r = []
        for a in (x, y):
            sim = Simulator(cell_model=ecm.model('linear' if k % 2 else 'constant'), asoh=a, transient_state=gen.build_state(st),
                            initial_input=gen.build_input(inputs[0]), keep_history=True)
            sim.evolve([gen.build_input(i) for i in inputs[1:]])
            r.append((sim.transient_history, sim.measurement_history))
        for u, v in zip(r[0][0] + r[0][1], r[1][0] + r[1][1]):
            ctx.check(np.allclose(u.to_numpy(), v.to_numpy(), rtol=1e-9, atol=1e-10), 'physics', f'{msg}: simulation differs after reading back')
        ctx.obs('physics')
        # The states of that simulation too
        for c in (r[0][0][-1], r[0][1][-1], gen.build_state(st), gen.build_input(inputs[-1])):
            d = trip(rng, c)
            ctx.check(type(d) is type(c) and d.all_names == c.all_names and d.batch_size == c.batch_size and np.array_equal(c.to_numpy(), d.to_numpy()), 'container',
                      f'{c!r} became {d!r}')
            for f in c.all_fields:
                u, v = getattr(c, f), getattr(d, f)
                ctx.check((u is None) == (v is None) and (u is None or u.shape == v.shape), 'container', f'{f} of {c!r} became {v!r}')
            ctx.obs('containers')
        # Go on using it
        op = str(rng.choice(['evaluate', 'simulate', 'mark', 'mark_all', 'update', 'set', 'reload', 'copy']))
        trace.append(op)
        if op == 'evaluate':
            asoh.ocv(.4, temp=20.), asoh.r0.get_value([.1, .5], temp=10), asoh.h0.get_value(.3), [e.time_constant(.3) for e in asoh.rc_elements]
            used = True
        elif op == 'simulate':
            m = ecm.model('constant')
            s = m.update_transient_state(previous_inputs=gen.build_input(inputs[0]), new_inputs=gen.build_input(inputs[1]), transient_state=gen.build_state(st), asoh=asoh)
            m.calculate_terminal_voltage(new_inputs=gen.build_input(inputs[1]), transient_state=s, asoh=asoh)
            used = True
        elif op == 'mark':
            for n in rng.choice(asoh.all_names, 2):
                asoh.mark_updatable(str(n))
        elif op == 'mark_all':
            asoh.mark_all_updatable(recurse=bool(rng.random() < .7))
        elif op == 'update':
            for n in rng.choice(asoh.all_names, 2):
                asoh.mark_updatable(str(n))
            v = asoh.get_parameters()
            asoh.update_parameters(v * rng.uniform(.95, 1., v.shape))
        elif op == 'set':
            n = str(rng.choice(['ce', 'q_t.base_values', 'h0.gamma']))
            asoh.set_value(n, float(rng.uniform(.5, 1)) * float(_params(asoh)[n].max()))
        elif op == 'reload':
            asoh = trip(rng, asoh)
        elif op == 'copy':
            asoh = asoh.model_copy(deep=True)
    ctx.case(B=B, trace=trace, **gen.describe(spec))


def trees(ctx):
    rng = ctx.rng
    B = int(rng.integers(1, 5))
    _, hv, node = C05.build_tree(rng, B, concrete=True)
    for k in range(3):
        back = trip(rng, hv)
        same_hv(ctx, hv, back, f'tree {hv.all_names}')
        ctx.check(back.all_names == hv.all_names and back.batch_size == hv.batch_size and np.array_equal(back.get_parameters(), hv.get_parameters()), 'names', 'names or values changed')
        ctx.obs('round_trips')
        ctx.obs('trees')
        ctx.obs('batched', int(hv.batch_size > 1))
        names = hv.all_names
        if not names:
            break
        for n in rng.choice(names, 2):
            hv.mark_updatable(str(n))
        v = hv.get_parameters()
        hv.update_parameters(v + rng.normal(size=v.shape) * 10. ** rng.integers(-12, 12))
    ctx.case(nontrivial=len(hv.all_names) > 1, names=hv.all_names, B=B)


def templates(ctx):
    from moirae.models.ecm import ECMASOH, ECMTransientVector
    rng = ctx.rng
    n, c = int(rng.integers(0, 4)), bool(rng.random() < .5)
    a = ECMASOH.provide_template(has_C0=c, num_RC=n, OCV=None if rng.random() < .5 else rng.uniform(3, 4, 7), R0=rng.uniform(.01, .1, int(rng.integers(1, 4))))
    for _ in range(2):
        b = trip(rng, a)
        same_hv(ctx, a, b, 'template')
        for s in (0., .3, 1., [.1, .2]):
            ctx.check(np.allclose(a.ocv(s, temp=30), b.ocv(s, temp=30), rtol=1e-10) and np.allclose(a.r0.get_value(s), b.r0.get_value(s), rtol=1e-10), 'physics', 'template evaluates differently after reading back')
        ctx.obs('round_trips')
        ctx.obs('after_use', int(_))
    t = ECMTransientVector.from_asoh(a)
    u = trip(rng, t)
    ctx.check(np.array_equal(t.to_numpy(), u.to_numpy()) and t.all_names == u.all_names, 'container', f'{t!r} became {u!r}')
    ctx.case(n=n, c=c, v=a.ocv.ocv_ref.base_values)


WORKLOADS = [WL('circuit', circuit, 120, 1800), WL('trees', trees, 150, 2500), WL('templates', templates, 40, 300)]
