"""C18: computations are repeatable, and never alter or share what users passed in"""
import copy

import numpy as np

from checks import C13, C16, C20
from checks.C11 import diag_op
from lib import ecm, est, gen, toy
from lib.harness import WL

RULE = ('A case is a set of computations (stepping a model by hand, simulators, filters, joint and dual estimators, losses) and the objects they start from. Each is run alone on fresh objects; then '
        'all of them are created from the very same objects and run in a random interleaving, repeated, and run again while everything the user holds is overwritten. Every trace has to be that '
        'of the run alone and every object of the user has to keep its value. Other cases create objects by templates, defaults, copies and from common arrays, overwrite one and look at '
        'the others, or snapshot the arguments of single calls. Distinct = circuit, computations and order.')
REQUIRED = dict(alone_steps=400, interleaved_steps=400, tampered_steps=300, arguments_frozen=600, repeated_runs=25, kinds_model=10, kinds_sim=10, kinds_filter=10, kinds_joint=10, kinds_dual=10,
                kinds_loss=8, shared_wrappers=8, converters=8, returned_kept=300, fresh_objects=300, from_arrays=60, pure_calls=600, repeated_calls=600, batched_sims=20, in_place_degradation=5,
                results_overwritten=200)
ASSUMPTIONS = ['datasets given to losses are kept by reference and not overwritten meanwhile', 'the SOC grid filled in on first use is not a change of the parameters']


# ------------------------------------------------------------------ snapshots
def freeze(o):
    """Plain copy of everything observable of an object"""
    import pandas as pd
    from pydantic import BaseModel
    if isinstance(o, np.ndarray):
        return ('array', o.shape, o.astype(float).copy() if o.dtype.kind in 'biuf' else o.copy())
    if isinstance(o, BaseModel):
        d = {k: getattr(o, k) for k in type(o).model_fields}
        if d.get('soc_pinpoints', 0) is None and 'base_values' in d:  # evenly spaced unless given, and written down on first use
            d['soc_pinpoints'] = np.linspace(0, 1, np.shape(d['base_values'])[-1])
        return (type(o).__name__, {k: freeze(v) for k, v in d.items()})
    if isinstance(o, dict):
        return {k: freeze(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [freeze(v) for v in o])
    if isinstance(o, (set, frozenset)):
        return ('set', sorted(o))
    if isinstance(o, pd.DataFrame):
        return ('frame', list(map(str, o.columns)), list(o.index), o.copy(deep=True))
    return o


def alike(a, b, tol=0.):
    """Whether two snapshots agree; relative to the largest value of each array"""
    import pandas as pd
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return False
        if a.dtype.kind != 'f':
            return bool((a == b).all())
        m = np.abs(a[np.isfinite(a)]).max(initial=0.)
        return bool(np.isclose(a, b, rtol=tol, atol=tol * m, equal_nan=True).all())
    if isinstance(a, dict):
        return set(a) == set(b) and all(alike(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, pd.DataFrame):
        return a.equals(b)
    if isinstance(a, float):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * abs(a)
    return a == b


def where(a, b, tol, path=''):
    """First place in which two snapshots differ"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b or not alike(a[k], b[k], tol):
                return where(a[k], b.get(k), tol, f'{path}.{k}')
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not alike(x, y, tol):
                return where(x, y, tol, f'{path}[{i}]' if not (isinstance(x, (dict, list)) and i == 1) else path)
    return f'{path}: {a} -> {b}'


class Guard:
    """Snapshots of what a user holds"""

    def __init__(self, ctx, **objs):
        self.ctx, self.objs = ctx, objs
        self.before = {k: freeze(v) for k, v in objs.items()}

    def verify(self, kind, label):
        for k, v in self.objs.items():
            now = freeze(v)
            self.ctx.check(alike(self.before[k], now), kind, f'{label}: {k} was changed at {where(self.before[k], now, 0.)[:200]}')
            self.ctx.obs('arguments_frozen')


def tamper(o, rng, seen=None):
    """Overwrite everything mutable which can be reached from an object, in place and through its interface"""
    from pydantic import BaseModel
    from moirae.models.base import HealthVariable, GeneralContainer
    seen = set() if seen is None else seen
    if id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        if o.dtype.kind in 'iuf' and o.flags.writeable:
            o[...] = o * 3 + 7
    elif isinstance(o, BaseModel):
        for k in type(o).model_fields:
            tamper(getattr(o, k), rng, seen)
        if isinstance(o, HealthVariable):
            (o.mark_all_fixed if rng.random() < .5 else o.mark_all_updatable)()
        if isinstance(o, GeneralContainer) and rng.random() < .5:
            o.from_numpy(o.to_numpy() + 1.)
        if isinstance(o, GeneralContainer) and rng.random() < .5:
            for k, f in type(o).model_fields.items():
                if not f.is_required() and f.default is None:
                    setattr(o, k, None if getattr(o, k) is not None else np.ones((1, 1)))
    elif isinstance(o, dict):
        for v in o.values():
            tamper(v, rng, seen)
        for k in list(o):
            if isinstance(o[k], (float, int)):
                o[k] = .77
    elif isinstance(o, (list, tuple)):
        for v in o:
            tamper(v, rng, seen)
        if isinstance(o, list) and o:
            o.reverse()
    elif isinstance(o, set):
        o.clear()


# ------------------------------------------------------------------ computations
class Plan:
    """Everything needed to set up the computations of one case: plain data, and the choice of computations"""

    def __init__(self, ctx):
        rng = ctx.rng
        self.sc = sc = est.Scenario(rng, n_steps=int(rng.integers(3, 9)), rel=.3, order='any', noise=1e-3, temps=str(rng.choice(['const', 'vary'])))
        self.kw = sc.joint_covs(rng)[0]
        self.tun = est.tuning(rng, 2 * (sc.nx + sc.na) + 1)
        self.tuns = dict(transient=est.tuning(rng, 2 * sc.nx + 1), asoh=est.tuning(rng, 2 * max(sc.na, 1) + 1))
        self.normalize = bool(rng.random() < .3) and 'covariance_joint' in self.kw
        self.op = [diag_op(rng, 10 * np.concatenate([sc.sx, sc.sa]))[0], diag_op(rng, 10 * sc.sx)[0]] if rng.random() < .4 else None
        self.default_args = bool(rng.random() < .3)
        self.keep = bool(rng.random() < .7)
        self.in_place = bool(rng.random() < .3)
        self.cands = C16.candidates(sc, rng, len(sc.inputs))
        self.data = C16.dataset(ctx, sc)[0]
        self.hostile = False  # whether distributions made for a filter are overwritten after use

    def objects(self):
        """What the user holds, newly made"""
        sc = self.sc
        names = list(sc.names)
        return dict(cell=sc.cell(), asoh=sc.asoh(), x=sc.transients(), u=[sc.input(i) for i in range(len(sc.inputs))], y=[sc.measurement(i) for i in range(len(sc.inputs))],
                    kw=copy.deepcopy(self.kw), tun=copy.deepcopy(self.tun), tuns=copy.deepcopy(self.tuns), names=names, ops=copy.deepcopy(self.op),
                    covs=[sc.Px.copy(), sc.Pa.copy(), sc.Qx.copy(), sc.Qa.copy(), sc.R.copy()], cands=np.array(self.cands).copy(), x0=sc.transients().to_numpy()[0].copy())

    def wrappers(self, o):
        from moirae.estimators.online.utils.model import JointCellModelWrapper, CellModelWrapper, DegradationModelWrapper
        args = dict(cell_model=o['cell'], asoh=o['asoh'], transients=o['x'], inputs=o['u'][0])
        c = [{}, {}] if o['ops'] is None else [dict(converters=dict(hidden_conversion_operator=op)) for op in o['ops']]
        out = dict(joint=JointCellModelWrapper(**args, asoh_inputs=tuple(o['names']), **c[0]), cell=CellModelWrapper(**args, **c[1]))
        if self.sc.na:
            out['asoh'] = DegradationModelWrapper(**args, asoh_inputs=tuple(o['names']))
        return out


class Model:
    """Stepping a cell model by hand"""

    def __init__(self, plan, o, w=None):
        self.m, self.x, self.a, self.u = o['cell'], o['x'], copy.deepcopy(o['asoh']), copy.deepcopy(o['u'][0])

    def step(self, o, i):
        u = o['u'][i]
        new = self.m.update_transient_state(self.u, u, self.x, self.a)
        self.x, self.u = copy.deepcopy(new), copy.deepcopy(u)
        return new, self.m.calculate_terminal_voltage(u, self.x, self.a)

    def final(self):
        return self.x


class Sim:
    def __init__(self, plan, o, w=None):
        from moirae.models.base import DegradationModel
        from moirae.simulator import Simulator

        class Grow(DegradationModel):
            """Changes the parameters it is given in place, and returns them"""
            def update_asoh(self, previous_asoh, new_inputs, new_transients, new_measurements):
                previous_asoh.r0.base_values *= 1.01
                previous_asoh.ocv.ocv_ref.base_values += 1e-3
                return previous_asoh
        kw = dict(degradation_model=Grow()) if plan.in_place else {}
        self.keep = plan.keep
        self.s = Simulator(cell_model=o['cell'], asoh=o['asoh'], transient_state=o['x'], initial_input=o['u'][0], keep_history=plan.keep, **kw)

    def step(self, o, i):
        return self.s.step(o['u'][i])

    def final(self):
        return [self.s.asoh] + ([self.s.to_dataframe().to_numpy().astype(float), self.s.asoh_history] if self.keep else [])


class Filter:
    def __init__(self, plan, o, w=None):
        from moirae.estimators.online.filters.distributions import DeltaDistribution, MultivariateGaussian
        from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter
        self.hostile = plan.hostile
        w = plan.wrappers(o)['cell']  # its own: a dual estimator keeps the health parameters it estimates in its wrapper
        self.h = MultivariateGaussian(mean=o['x0'], covariance=o['covs'][0])
        if o['ops'] is not None:
            self.h = self.h.convert(o['ops'][1], inverse=True)
        self.c = DeltaDistribution(mean=o['u'][0].to_numpy().ravel())
        f = np.eye(plan.sc.nx) if o['ops'] is None else None
        Q = o['covs'][2] if f is not None else o['ops'][1].inverse_transform_covariance(o['covs'][2], np.zeros(plan.sc.nx))
        self.f = UnscentedKalmanFilter(w, self.h, self.c, covariance_process_noise=Q, covariance_sensor_noise=o['covs'][4], **({} if plan.default_args else o['tuns']['transient']))
        if plan.hostile:
            tamper([self.h, self.c], np.random.default_rng(0))  # the filter's own copies are what counts

    def step(self, o, i):
        from moirae.estimators.online.filters.distributions import DeltaDistribution
        u, y = DeltaDistribution(mean=o['u'][i].to_numpy().ravel()), DeltaDistribution(mean=o['y'][i].to_numpy().ravel())
        before = freeze([u, y])
        out = self.f.step(new_controls=u, measurements=y)
        self.changed = not alike(before, freeze([u, y]))
        if self.hostile:
            tamper([u, y], np.random.default_rng(0))
        return out

    def final(self):
        return self.f.hidden


class Online:
    def step(self, o, i):
        return self.e.step(o['u'][i], o['y'][i])

    def final(self):
        return [self.e.state, *self.e.get_estimated_state()]


class Joint(Online):
    def __init__(self, plan, o, w=None):
        from moirae.estimators.online.joint import JointEstimator
        fa = {} if plan.default_args else dict(filter_args=o['tun'])
        if w is None and o['ops'] is None and list(plan.sc.names) == list(o['asoh'].updatable_names):
            self.e = JointEstimator.initialize_unscented_kalman_filter(o['cell'], o['asoh'], o['x'], o['u'][0], **o['kw'], **fa, normalize_asoh=plan.normalize)
        else:
            self.e = JointEstimator.initialize_ukf_from_wrapper(joint_wrapper=(w or plan.wrappers(o))['joint'], **o['kw'], **fa)


class Dual(Online):
    def __init__(self, plan, o, w=None):
        from moirae.estimators.online.dual import DualEstimator
        Px, Pa, Qx, Qa, R = o['covs']
        kw = dict(covariance_transient=Px, covariance_asoh=Pa, transient_covariance_process_noise=Qx, asoh_covariance_process_noise=Qa, covariance_sensor_noise=R)
        if not plan.default_args:
            kw['filter_args'] = o['tuns']
        if w is None and o['ops'] is None and list(plan.sc.names) == list(o['asoh'].updatable_names):
            self.e = DualEstimator.initialize_unscented_kalman_filter(o['cell'], o['asoh'], o['x'], o['u'][0], **kw, normalize_asoh=plan.normalize)
        else:
            w = w or plan.wrappers(o)
            self.e = DualEstimator.initialize_ukf_from_wrappers(transient_wrapper=w['cell'], asoh_wrapper=w['asoh'], **kw)


class Loss:
    def __init__(self, plan, o, w=None):
        from moirae.estimators.offline.loss import MeanSquaredLoss
        self.l = MeanSquaredLoss(o['cell'], o['asoh'], o['x'], plan.data)
        self.before = freeze(self.guess())

    def guess(self):
        return [self.l.get_x0(), self.l.state, self.l.asoh]

    def step(self, o, i):
        out = self.l(o['cands'][i:i + 1 + i % 2]), self.l.get_x0()
        self.changed = not alike(self.before, freeze(self.guess()))
        return out

    def final(self):
        return self.l.get_x0()


KINDS = dict(model=Model, sim=Sim, filter=Filter, joint=Joint, dual=Dual, loss=Loss)
TOL = 1e-12
TOLS = dict(filter=1e-8, joint=1e-8, dual=1e-8)  # round-off, amplified by differences; it depends on where arrays happen to be in memory


def alone(ctx, plan, kind, kinds=KINDS):
    """(trace of frozen results, final state): on fresh objects, by itself"""
    o = plan.objects()
    p = kinds[kind](plan, o)
    trace = []
    assert not plan.hostile
    for i in range(1, len(plan.sc.inputs)):
        try:
            trace.append(freeze(p.step(o, i)))
        except (np.linalg.LinAlgError, FloatingPointError, ValueError):  # left its domain: nothing to be repeated from here
            ctx.obs('stopped')
            break
        ctx.obs('alone_steps')
    else:
        trace.append(freeze(p.final()))
    return trace


def choose(ctx, plan):
    rng = ctx.rng
    pool = [k for k in KINDS if not (k == 'dual' and not plan.sc.na)]
    names = [str(k) for k in rng.choice(pool, int(rng.integers(2, 5)))]
    if rng.random() < .5:
        names.append(names[0])
    for k in set(names):
        ctx.obs(f'kinds_{k}')
    ctx.obs('converters', int(plan.op is not None))
    ctx.obs('in_place_degradation', int(plan.in_place and 'sim' in names))
    return names


def interleave(ctx):
    """Several computations created from the same objects, in any order of steps"""
    rng = ctx.rng
    plan = Plan(ctx)
    names = choose(ctx, plan)
    ctx.case(**plan.sc.describe(), kinds=names)
    want = {k: alone(ctx, plan, k) for k in set(names)}
    o = plan.objects()
    plan.hostile = bool(rng.random() < .5)
    guard = Guard(ctx, **{k: v for k, v in o.items() if k != 'cell'}, data=plan.data.tables['raw_data'])
    w = None
    if rng.random() < .4:
        w = plan.wrappers(o)
        ctx.obs('shared_wrappers')
    late = rng.random() < .5  # some are created while others are already running
    progs = [[k, None if late and j else KINDS[k](plan, o, w), 0, []] for j, k in enumerate(names)]
    order = np.concatenate([[j] * (len(want[p[0]])) for j, p in enumerate(progs)]).astype(int)
    rng.shuffle(order)
    kept = []
    for j in order:
        p = progs[j]
        if p[1] is None:
            p[1] = KINDS[p[0]](plan, o, w)
        p[2] += 1
        r = p[1].final() if p[2] == len(plan.sc.inputs) else p[1].step(o, p[2])
        f = freeze(r)
        ref = want[p[0]][p[2] - 1]
        ctx.check(alike(ref, f, TOLS.get(p[0], TOL)), 'interleaved', f'{p[0]} number {j} gives another result in step {p[2]} when run with {names}: {where(ref, f, TOLS.get(p[0], TOL))[:300]}')
        ctx.obs('interleaved_steps')
        ctx.check(not getattr(p[1], 'changed', False), 'argument-changed', 'controls or measurements given to a filter, or the initial guess a loss was made with, were changed')
        kept.append((p[0], r, f))
    guard.verify('argument-changed', f'after {names}')
    for k, r, f in kept:
        ctx.check(alike(f, freeze(r)), 'returned-changed', f'what {k} returned was changed by later steps: {where(f, freeze(r), 0.)[:300]}')
        ctx.obs('returned_kept')
    # and once more, from the very same objects
    k = str(rng.choice(names))
    p = KINDS[k](plan, o, w)
    for i, ref in enumerate(want[k], 1):
        f = freeze(p.final() if i == len(plan.sc.inputs) else p.step(o, i))
        ctx.check(alike(ref, f, TOLS.get(k, TOL)), 'repeated', f'{k} gives another result in step {i} when repeated: {where(ref, f, TOLS.get(k, TOL))[:300]}')
    ctx.obs('repeated_runs')
    guard.verify('argument-changed', f'after repeating {k}')


def overwritten(ctx):
    """A computation does not depend on what happens later to the objects it was created from, fed with, or returned"""
    rng = ctx.rng
    plan = Plan(ctx)
    names = choose(ctx, plan)
    ctx.case(**plan.sc.describe(), kinds=names, tampered=True)
    for k in dict.fromkeys(names):
        plan.hostile = False
        want = alone(ctx, plan, k)
        plan.hostile = True
        o = plan.objects()
        p = KINDS[k](plan, o)
        if k == 'model':  # which keeps nothing: only what it returns and is given in each step
            p.x = copy.deepcopy(p.x)
        tamper({n: v for n, v in o.items() if n not in ('u', 'y', 'cell', 'cands')}, rng)
        tamper([o['u'][0], o['y'][0]], rng)
        for i, ref in enumerate(want, 1):
            if i == len(plan.sc.inputs):
                f = freeze(p.final())
            else:
                r = p.step(o, i)
                f = freeze(r)
                tamper([o['u'][i], o['y'][i], *([o['cands'][i]] if k == 'loss' and i % 2 == 0 and i + 1 == len(o['cands']) else [])], rng)
                if k not in ('sim',):
                    tamper(list(r), rng)
                    ctx.obs('results_overwritten')
                if k in ('joint', 'dual') and rng.random() < .5:
                    tamper(list(p.final()), rng)
            ctx.check(alike(ref, f, TOLS.get(k, TOL)), 'shared', f'{k}: result of step {i} depends on objects overwritten by the user: {where(ref, f, TOLS.get(k, TOL))[:300]}')
            ctx.obs('tampered_steps')


def simulators(ctx):
    """Simulators of batched systems from the same objects, with different schedules"""
    from moirae.simulator import Simulator
    rng = ctx.rng
    s = C13.make(ctx, n=int(rng.integers(4, 12)))
    ctx.case(**s.describe(), sims=True)
    m, a, x = s.model(), s.asoh(), s.state()
    u = [s.input(v) for v in s.u]
    deg = C13.degradation(s.key) if rng.random() < .5 else None
    kw = dict() if deg is None else dict(degradation_model=deg)
    scheds = [list(range(1, len(u)))]
    for _ in range(int(rng.integers(1, 3))):
        scheds.append(sorted(rng.choice(np.arange(1, len(u)), int(rng.integers(1, len(u))), replace=False)))
    keep = bool(rng.random() < .6)
    want = []
    for sch in scheds:
        sim = Simulator(cell_model=s.model(), asoh=s.asoh(), transient_state=s.state(), initial_input=s.input(s.u[0]), keep_history=True, **kw)
        want.append([freeze(sim.step(s.input(s.u[i]))) for i in sch] + [freeze([sim.asoh, sim.transient, sim.measurement]), freeze(sim.to_dataframe())])
    guard = Guard(ctx, asoh=a, state=x, inputs=u)
    sims = [[Simulator(cell_model=m, asoh=a, transient_state=x, initial_input=u[0], keep_history=keep, **kw), 0] for _ in scheds]
    if rng.random() < .5:  # the user goes on with other things
        tamper([a, x, u[0]], rng)
        guard = Guard(ctx, asoh=a, state=x, inputs=u)
    order = np.concatenate([[j] * len(sc) for j, sc in enumerate(scheds)]).astype(int)
    rng.shuffle(order)
    kept = []
    for j in order:
        sim, n = sims[j]
        r = sim.step(u[scheds[j][n]])
        f = freeze(r)
        ctx.check(alike(want[j][n], f, TOL), 'interleaved', f'simulator {j} differs in step {n} from its run alone: {where(want[j][n], f, TOL)[:300]}')
        kept.append((r, f))
        sims[j][1] += 1
        ctx.obs('interleaved_steps')
    for j, (sim, _) in enumerate(sims):
        f = freeze([sim.asoh, sim.transient, sim.measurement])
        ctx.check(alike(want[j][-2], f, TOL), 'interleaved', f'simulator {j} ends in another state: {where(want[j][-2], f, TOL)[:300]}')
        if keep:
            before = freeze([sim.input_history, sim.transient_history, sim.asoh_history, sim.measurement_history])
            got = freeze(sim.to_dataframe())
            ctx.check(want[j][-1][1:3] == got[1:3] and np.allclose(want[j][-1][3], got[3], rtol=1e-12), 'interleaved', f'record of simulator {j} differs')
            for b in sim.to_batdata(extra_columns=bool(rng.random() < .5)):
                b.tables['raw_data'].iloc[:, :] = -1.
            ctx.check(alike(before, freeze([sim.input_history, sim.transient_history, sim.asoh_history, sim.measurement_history])), 'shared', 'exported data share memory with the history')
            got2 = freeze(sim.to_dataframe())
            ctx.check(alike(got, got2), 'repeated', 'exporting twice differs')
    for r, f in kept:
        ctx.check(alike(f, freeze(r)), 'returned-changed', f'what a simulator returned was changed by later steps: {where(f, freeze(r), 0.)[:300]}')
        ctx.obs('returned_kept')
    guard.verify('argument-changed', 'after simulations')
    ctx.obs('batched_sims', int(s.B > 1))


# ------------------------------------------------------------------ objects
def independent(ctx, objs, label, rng):
    """Overwriting any of these leaves the others as they were"""
    objs = list(objs)
    for i in rng.permutation(len(objs))[:3]:
        before = [freeze(v) for v in objs]
        tamper(objs[i], rng)
        for j, v in enumerate(objs):
            if j != i:
                ctx.check(alike(before[j], freeze(v)), 'shared', f'{label}: overwriting object {i} changed object {j} at {where(before[j], freeze(v), 0.)[:200]}')
        ctx.obs('fresh_objects', len(objs))


def fresh(ctx):
    """Templates, defaults and copies"""
    from moirae.models.ecm.advancedSOH import ECMASOH
    from moirae.models.ecm.components import MaxTheoreticalCapacity, Resistance, OpenCircuitVoltage, ReferenceOCV, EntropicOCV, HysteresisParameters, Capacitance, RCComponent
    from moirae.models.ecm.ins_outs import ECMInput, ECMMeasurement
    from moirae.models.ecm.transient import ECMTransientVector
    from moirae.models.utils import NoDegradation
    from moirae.estimators.online.filters.base import ModelWrapperConverters
    from moirae.estimators.online.filters.conversions import LinearConversionOperator
    from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
    from moirae.estimators.online.filters.kalman.unscented import UKFTuningParameters
    from moirae.estimators.online.dual import DualUKFTuningParameters
    rng = ctx.rng
    spec = gen.circuit(rng)
    n = int(rng.integers(0, 4))
    c0 = bool(rng.random() < .5)
    ctx.case(**gen.describe(spec), n=n, capacitor=c0)
    # templates with and without options given as arrays
    arr = dict(OCV=np.linspace(3, 4, 6), R0=np.linspace(.01, .02, 4), C0=np.array([1000., 2000.]), H0=np.array([.01, .02, .03]))
    R, C = np.array([.01, .02]), np.array([2000., 3000., 4000.])
    kw = {k: v for k, v in arr.items() if rng.random() < .5}
    if n and rng.random() < .6:
        kw['RC'] = [(R, C)] * n
    before = freeze([arr, R, C])
    temps = [ECMASOH.provide_template(has_C0=c0, num_RC=n, **kw) for _ in range(2)]
    ctx.check(alike(before, freeze([arr, R, C])), 'argument-changed', 'arrays given to the template were changed')
    parts = list(temps[0].rc_elements) + [temps[0].r0, temps[0].ocv, temps[0].q_t, temps[0].h0]
    independent(ctx, [*parts, temps[1], arr, R, C], 'template', rng)
    one, two = (ECMTransientVector.provide_template(has_C0=c0, num_RC=n, **({} if rng.random() < .5 else dict(soc=.4, i_rc=np.arange(1., n + 1)))) for _ in range(2))
    independent(ctx, [one, two, ECMTransientVector.from_asoh(temps[1]), ECMTransientVector(), ECMTransientVector()], 'transient template', rng)
    # defaults
    mk = lambda: ECMASOH(q_t=MaxTheoreticalCapacity(base_values=1.), ocv=OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=[3., 4.])), r0=Resistance(base_values=.1))
    first = freeze(mk())
    independent(ctx, [mk(), mk(), mk()], 'default fields', rng)
    ctx.check(alike(first, freeze(mk())), 'defaults-changed', f'default fields of health parameters changed: {where(first, freeze(mk()), 0.)}')
    for make, label in ((lambda: ModelWrapperConverters.defaults(), 'converters'), (lambda: UKFTuningParameters.defaults(), 'tuning'), (lambda: DualUKFTuningParameters.defaults(), 'dual tuning'),
                        (lambda: LinearConversionOperator(), 'linear operator'), (lambda: MultivariateGaussian(), 'distribution'), (lambda: ECMInput(), 'input'), (lambda: Resistance(base_values=1.), 'resistance'),
                        (lambda: EntropicOCV(), 'entropic OCV'), (lambda: HysteresisParameters(base_values=1.), 'hysteresis'), (lambda: OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=[3., 4.])), 'OCV')):
        first = freeze(make())
        independent(ctx, [make(), make()], label, rng)
        if label == 'dual tuning':
            d = make()
            for v in d.values():
                v['alpha_param'] = .123
        ctx.check(alike(first, freeze(make())), 'defaults-changed', f'default {label} changed')
    # copies
    a = gen.build_asoh(spec)
    pool = gen.param_paths(spec)
    names = [str(v) for v in rng.choice(pool, min(3, len(pool)), replace=False)]
    for k in names:
        a.mark_updatable(k)
    v = a.get_parameters()
    val = np.repeat(v, 3, axis=0) * rng.uniform(.9, 1.1, (3, 1))
    keep = val.copy()
    cs = [a.model_copy(deep=True), a.make_copy(v), a.make_copy(val), NoDegradation().update_asoh(a), copy.deepcopy(a)]
    ctx.check(np.array_equal(val, keep), 'argument-changed', 'make_copy changed its values')
    independent(ctx, [a, *cs, val, v], 'copies of health parameters', rng)
    x = gen.build_state(gen.state(rng, spec))
    w = x.to_numpy()
    val = np.repeat(w, 3, axis=0) * 1.1
    xs = [x.model_copy(deep=True), x.make_copy(w), x.make_copy(val), x.make_copy(val[1])]
    independent(ctx, [x, *xs, w, val], 'copies of states', rng)
    y = gen.build_state(gen.state(rng, spec))
    buf = np.array(y.to_numpy()) + 1
    y.from_numpy(buf)
    independent(ctx, [y, buf], 'state loaded from an array', rng)
    a2 = gen.build_asoh(spec)
    for k in names:
        a2.mark_updatable(k)
    buf = a2.get_parameters() * 1.01
    a2.update_parameters(buf)
    one = np.array([[.9]])
    a2.set_value('ce', one)
    independent(ctx, [a2, buf, one], 'parameters set from an array', rng)
    g = MultivariateGaussian(mean=rng.normal(size=3), covariance=np.diag([1., 2., 3.]))
    from moirae.estimators.online.filters.conversions import IdentityConversionOperator
    op = [IdentityConversionOperator(), LinearConversionOperator(multiplicative_array=np.ones(3))][int(rng.integers(2))]
    independent(ctx, [g, g.convert(op), g.convert(op, inverse=True), g.combine_with([]), g.model_copy(deep=True), g.get_mean(), g.get_covariance()], 'distributions', rng)
    d = DeltaDistribution(mean=rng.normal(size=3))
    independent(ctx, [d, d.convert(op), d.combine_with([]), d.get_mean(), d.get_covariance()], 'point distributions', rng)
    _ = (ECMMeasurement, Capacitance, RCComponent)


def arrays(ctx):
    """Objects made from the same arrays do not share them"""
    from moirae.models.ecm.components import Resistance, ReferenceOCV, Capacitance, RCComponent, MaxTheoreticalCapacity, HysteresisParameters, EntropicOCV
    from moirae.models.ecm.ins_outs import ECMInput, ECMMeasurement
    from moirae.models.ecm.transient import ECMTransientVector
    from moirae.estimators.online.filters.conversions import LinearConversionOperator
    from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
    from moirae.extractors.ecm import OCVExtractor
    C20.library()
    from moirae.models.thevenin.components import SOCPolynomialVariable
    rng = ctx.rng
    n, B = int(rng.integers(2, 6)), int(rng.choice([1, 1, 3]))
    v = rng.uniform(1, 2, (B, n)) if rng.random() < .7 else rng.uniform(1, 2, n)
    pins, sq, vec, one = np.linspace(0, 1, n), np.diag(rng.uniform(1, 2, n)), rng.normal(size=n), rng.uniform(1, 2, (B, 1))
    ctx.case(n=n, B=B, v=v)
    sets = dict(
        parameters=([v, pins, one], lambda: [Resistance(base_values=v, soc_pinpoints=pins), Resistance(base_values=v, temperature_dependence_factor=one), ReferenceOCV(base_values=v, soc_pinpoints=pins),
                                             Capacitance(base_values=v), RCComponent(r=Resistance(base_values=v), c=Capacitance(base_values=v)), HysteresisParameters(base_values=v, gamma=one),
                                             MaxTheoreticalCapacity(base_values=one), EntropicOCV(base_values=one), toy.classes()['Part'](rate=v, scale=one)]),
        containers=([v, one], lambda: [ECMTransientVector(soc=one, i_rc=v), ECMTransientVector(soc=one, i_rc=v, hyst=one), ECMInput(time=one[:1], current=one[:1]), ECMMeasurement(terminal_voltage=one),
                                       toy.classes()['State'](x=v, z=one)]),
        distributions=([vec, sq], lambda: [MultivariateGaussian(mean=vec, covariance=sq), MultivariateGaussian(mean=vec, covariance=sq), DeltaDistribution(mean=vec), DeltaDistribution(mean=vec),
                                           LinearConversionOperator(multiplicative_array=sq, additive_array=vec), LinearConversionOperator(multiplicative_array=vec)]),
        extractors=([pins], lambda: [OCVExtractor(1., soc_points=pins).__dict__, OCVExtractor(1., soc_points=pins).__dict__]),
        polynomials=([v], lambda: [SOCPolynomialVariable(coeffs=v), SOCPolynomialVariable(coeffs=v)]))
    for label, (given, build) in sets.items():
        objs = build()
        independent(ctx, [*objs, *given], label, rng)
        ctx.obs('from_arrays')
        v, pins, sq, vec, one = rng.uniform(1, 2, v.shape), np.linspace(0, 1, n), np.diag(rng.uniform(1, 2, n)), rng.normal(size=n), rng.uniform(1, 2, (B, 1))
        given = None


# ------------------------------------------------------------------ single calls
def single_calls(ctx, given=None):
    """(label, function, arguments) of single calls; those given share model, health parameters, and operators with others"""
    from moirae.estimators.online.filters.kalman.utils import ensure_positive_semi_definite, calculate_gain_matrix
    from moirae.estimators.online.filters.kalman.unscented import assemble_unscented_estimate_from_samples, compute_unscented_covariance
    from moirae.estimators.online.utils.model import convert_vals_model_to_filter
    from moirae.models.ecm.utils import hysteresis_solver_const_sign, realistic_fake_ocv
    from checks import C10
    rng = ctx.rng
    calls = []
    new_given = given is None
    given = {} if given is None else given
    B = given.setdefault('B', int(rng.choice([1, 1, 2, 4])))
    bt = given.setdefault('bt', None if B == 1 else ['all', float(rng.uniform(.1, .9))][int(rng.integers(2))])
    spec = given['spec'] if 'spec' in given else given.setdefault('spec', gen.circuit(rng, B, batched=bt))
    st = gen.state(rng, spec, B, batched=bt)
    mode = given.setdefault('mode', str(rng.choice(['constant', 'linear'])))
    m, a, x = given.setdefault('m', ecm.model(mode)), given.setdefault('a', gen.build_asoh(spec)), gen.build_state(st)
    prev, new = (gen.build_input(u) for u in ecm.random_prev_new(rng, spec, mode))
    if rng.random() < .15:  # nothing happens
        new = copy.deepcopy(prev)
    if new_given:
        ctx.case(**gen.describe(spec), mode=mode, st=st)
    calls += [('update_transient_state', lambda p, u, s, h: m.update_transient_state(previous_inputs=p, new_inputs=u, transient_state=s, asoh=h), (prev, new, x, a)),
              ('calculate_terminal_voltage', lambda u, s, h: m.calculate_terminal_voltage(new_inputs=u, transient_state=s, asoh=h), (new, x, a))]
    for k, c in (('r0', a.r0), ('c0', a.c0), *((f'rc{i}', c) for i, c in enumerate(a.rc_elements))):
        if c is None:
            continue
        soc = rng.uniform(0, 1, (int(rng.integers(1, 4)), int(rng.integers(1, 4))))
        T = rng.uniform(0, 40, (1, 1)) if rng.random() < .5 else float(rng.uniform(0, 40))
        if k[:2] == 'rc':
            calls.append((f'{k}.time_constant', lambda c, s, t: c.time_constant(s, t), (c, soc, T)))
        elif k == 'c0':
            calls.append((f'{k}.get_value', lambda c, s: c.get_value(s), (c, soc)))
        else:
            calls.append((f'{k}.get_value', lambda c, s, t: c.get_value(s, t), (c, soc, T)))
    calls.append(('ocv', lambda c, s, t: c(soc=s, temp=t), (a.ocv, rng.uniform(0, 1, (1, 3)), float(rng.uniform(0, 40)) if rng.random() < .7 else None)))
    calls.append(('energy', lambda h: h.get_theoretical_energy(), (a,)))
    calls.append(('h0', lambda h, s: h.get_value(s), (a.h0, rng.uniform(0, 1, 3))))
    calls.append(('capacity', lambda q: [np.array(q.value), np.array(q.amp_hour)], (a.q_t,)))
    calls.append(('names', lambda h: [list(h.all_names), list(h.expand_names(h.all_names)), h.batch_size, h.num_updatable], (a,)))
    calls.append(('to_numpy', lambda s: s.to_numpy().copy(), (x,)))
    calls.append(('dump', lambda s, u: [s.model_dump_json(), u.model_dump_json()], (x, new)))
    # numerics
    n, o = given.setdefault('n', int(rng.integers(1, 6))), int(rng.integers(1, 4))
    C = C10.spd(rng, n)
    bad = C - .8 * np.eye(n) * np.linalg.eigvalsh(C).max()
    calls.append(('ensure_positive_semi_definite', ensure_positive_semi_definite, (C if rng.random() < .4 else bad,)))
    calls.append(('calculate_gain_matrix', lambda a, b: calculate_gain_matrix(cov_xy=a, cov_y=b), (rng.normal(size=(n, o)), C10.spd(rng, o))))
    w = rng.normal(size=2 * n + 1)
    w = w / w.sum()
    S = rng.normal(size=(2 * n + 1, n))
    calls.append(('unscented', lambda s, a, b: assemble_unscented_estimate_from_samples(samples=s, mean_weights=a, cov_weights=b), (S, w, rng.normal(size=2 * n + 1))))
    calls.append(('unscented covariance', lambda b, s, t: compute_unscented_covariance(cov_weights=b, array0=s, array1=t), (w, S, rng.normal(size=(2 * n + 1, o)))))
    calls.append(('convert_vals', convert_vals_model_to_filter, (gen.build_input(dict(time=1., current=2., temperature=None)), C10.spd(rng, 2))))
    calls.append(('fake ocv', realistic_fake_ocv, (rng.uniform(0, 1, 5),)))
    h = rng.uniform(-1, 1, (B, 1))
    calls.append(('hysteresis', hysteresis_solver_const_sign, (h, rng.uniform(0, 1, (B, 1)), rng.uniform(0, 1, (B, 1)), 1., np.array([[1.]]), np.array([[.2]]))))
    op = given.setdefault('op', diag_op(rng, np.ones(n))[0])
    for f in ('transform_samples', 'inverse_transform_samples'):
        calls.append((f, lambda s, q, f=f: getattr(q, f)(s), (rng.normal(size=(3, n)), op)))
    for f in ('transform_covariance', 'inverse_transform_covariance'):
        calls.append((f, lambda c, s, q, f=f: getattr(q, f)(c, s), (C, rng.normal(size=n), op)))
    from moirae.estimators.online.filters.distributions import MultivariateGaussian
    g = MultivariateGaussian(mean=rng.normal(size=n), covariance=C.copy())
    calls.append(('convert', lambda d, q: [d.convert(q), d.convert(q, inverse=True), d.combine_with((d, d))], (g, op)))
    return calls


def pure(ctx):
    """Single calls leave their arguments alone, give new objects, and the same result when repeated"""
    rng = ctx.rng
    for label, fn, args in single_calls(ctx):
        guard = Guard(ctx, args=list(args))
        r1 = fn(*args)
        guard.verify('argument-changed', label)
        f1 = freeze(r1)
        r2 = fn(*args)
        ctx.check(alike(f1, freeze(r2), TOL), 'repeated', f'{label} gives another result when repeated: {where(f1, freeze(r2), TOL)[:300]}')
        ctx.check(alike(f1, freeze(r1)), 'returned-changed', f'{label}: the first result was changed by repeating')
        ctx.obs('pure_calls')
        # on copies of the arguments, after all the other calls
        r3 = fn(*copy.deepcopy(args))
        ctx.check(alike(f1, freeze(r3), TOL), 'repeated', f'{label} gives another result on copies of its arguments: {where(f1, freeze(r3), TOL)[:300]}')
        ctx.obs('repeated_calls')
        if label in ('update_transient_state', 'calculate_terminal_voltage', 'convert', 'ocv', 'h0'):
            tamper(r1, rng)
            guard.verify('shared', f'{label}: overwriting the result')
            ctx.check(alike(f1, freeze(r2)), 'shared', f'{label}: two results share memory')


WORKLOADS = [WL('interleave', interleave, 60, 1500), WL('overwritten', overwritten, 60, 1500), WL('simulators', simulators, 60, 1500), WL('fresh', fresh, 30, 600), WL('arrays', arrays, 20, 400),
             WL('pure', pure, 60, 1500)]
