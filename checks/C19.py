"""C19: parameters depending on SOC and temperature evaluate to their definition"""
import numpy as np

from lib import gen, ref
from lib.harness import WL

RULE = ('A case is one component (resistance, capacitance, OCV, entropic OCV, hysteresis, RC pair, capacity or a whole set of health parameters from scratch or template) with random values, grids, '
        'styles and batches, evaluated at scalar, 1D and 2D SOCs inside, at and beyond its grid, with and without temperature, before and after edits. Every entry of every result is compared with '
        'scalar references. Distinct = component and its values.')
REQUIRED = dict(entries=12000, at_points=1200, outside=2000, styles=100, ties=50, single_value=60, default_grid=80, own_grid=60, unsorted_grid=3, batched=150, scalar_soc=150, list_soc=60, soc_1d=200,
                soc_2d=200, no_temperature=80, temperatures=200, edited=100, regridded=60, re_referenced=40, capacity=60, energy=60, energy_reversed=10, templates=80, state_templates=60, template_rejected=30, rc_pairs=40, unmodified=200,
                defaults=6, bare=20, energy_beyond=10)
ASSUMPTIONS = ['"previous" below and "next" above the grid have no value to return and are not judged', 'the energy may be off by the error of a trapezoidal rule with 100 points']
STYLES = ['linear', 'cubic', 'quadratic', 'slinear', 'nearest', 'nearest-up', 'previous', 'next', 'zero', 'linear']


def param(rng, B, base=None, spread=.5, styles=STYLES):
    base = float(10 ** rng.uniform(-3, 4)) if base is None else base
    if rng.random() < .2:
        return dict(v=base * (1 + spread * rng.uniform(-1, 1, (B, 1))), pins=None, style=str(rng.choice(styles)))
    style = str(rng.choice(styles))
    n = int(rng.integers({'cubic': 4, 'quadratic': 3}.get(style, 2), 13))
    pins = None
    if rng.random() < .5:
        pins = np.linspace(0, 1, n) + rng.uniform(-.35, .35, n) / n
        if rng.random() < .3:
            pins = np.sort(rng.choice(np.arange(1, 40), n, replace=False)) / 40
    return dict(v=base * (1 + spread * rng.uniform(-1, 1, (B, n))), pins=pins, style=style)


def note(ctx, p):
    if p['v'].shape[1] == 1:
        ctx.obs('single_value')
    else:
        ctx.obs('styles')
        ctx.obs('default_grid' if p['pins'] is None else 'own_grid')
        if p['pins'] is not None and (np.diff(p['pins']) < 0).any():
            ctx.obs('unsorted_grid')
    ctx.obs('batched', int(len(p['v']) > 1))


def kw(ctx, p, B=None):
    """Keyword arguments for the component, in the forms users write them"""
    rng = ctx.rng
    v = p['v'].copy()
    if len(v) == 1 and rng.random() < .5:
        v = v[0] if v.shape[1] > 1 or rng.random() < .5 else float(v[0, 0])
        if not isinstance(v, float) and rng.random() < .3:
            v = v.tolist()
    out = dict(base_values=v)
    if p['pins'] is not None:
        out['soc_pinpoints'] = p['pins'].copy()
    if p['style'] != 'linear' or rng.random() < .5:
        out['interpolation_style'] = p['style']
    return out


def socs(ctx, p, rng):
    """Random SOCs as given and as (batch, number) array"""
    x = np.linspace(0, 1, max(2, p['v'].shape[1])) if p['pins'] is None else np.asarray(p['pins'])
    lo, hi = x.min(), x.max()
    left, right = (lo if p['style'] == 'previous' else lo - .4), (hi if p['style'] == 'next' else hi + .4)
    if p['v'].shape[1] == 1:
        left, right = -.5, 1.5

    def draw():
        u = rng.random()
        if u < .25:
            return float(rng.choice(x))
        if u < .45:
            return float(rng.uniform(left, right))
        return float(rng.uniform(lo, hi))
    kind = int(rng.integers(5))
    n = int(rng.choice([1, 2, int(rng.integers(3, 9))]))
    if kind == 0:
        s = draw()
        ctx.obs('scalar_soc')
        return (s if rng.random() < .7 else np.float64(s) if rng.random() < .5 else np.array(s)), np.array([[s]])
    if kind in (1, 2):
        s = [draw() for _ in range(n)]
        ctx.obs('soc_1d')
        ctx.obs('list_soc', int(kind == 2))
        return (s if kind == 2 else np.array(s)), np.array([s])
    b = int(rng.choice([1, 2, int(rng.integers(3, 6))]))
    s = np.array([[draw() for _ in range(n)] for _ in range(b)])
    ctx.obs('soc_2d')
    return s.copy(), s


def tie(p, s):
    """Whether a nearest-neighbour interpolation is undecided (up to rounding) here, or a step happens"""
    x = np.sort(np.linspace(0, 1, p['v'].shape[1]) if p['pins'] is None else np.asarray(p['pins']))
    if p['v'].shape[1] == 1:
        return False
    if p['style'].startswith('nearest'):
        d = np.sort(np.abs(x - s))
        return abs(d[1] - d[0]) < 1e-9
    if p['style'] in ('previous', 'next', 'zero'):
        d = np.abs(x - s).min()
        return 0 < d < 1e-9
    return False


def table(ctx, p, S):
    """Reference of shape (parameter batch, SOC batch, number), and where it is decided"""
    out = np.array([[[ref.interp(dict(p, v=v), s) for s in row] for row in S] for v in p['v']])
    x = np.linspace(0, 1, p['v'].shape[1]) if p['pins'] is None else np.asarray(p['pins'])
    ctx.obs('outside', int(((S < x.min()) | (S > x.max())).sum()))
    ctx.obs('at_points', int(np.isin(S, x).sum()))
    return out, ~np.array([[[tie(p, s) for s in row] for row in S] for _ in p['v']])


def compare(ctx, got, want, ok, kind, msg, scale, **detail):
    got = np.asarray(got)
    ctx.check(got.shape == want.shape, f'{kind}-shape', f'{msg}: {got.shape} instead of {want.shape}', **detail)
    d = np.abs(got - want)
    good = (d <= 1e-9 * np.abs(want) + 1e-9 * scale) | ~ok.all(axis=0)
    ctx.check(good.all(), kind, msg, got=got, want=want, **detail)
    ctx.obs('entries', got.size)


def values(ctx):
    """Interpolation alone, in every component which offers it"""
    from moirae.models.ecm import components as C
    from moirae.models.ecm.utils import SOCInterpolatedHealth
    rng = ctx.rng
    B = int(rng.choice([1, 1, 2, 4]))
    p = param(rng, B)
    if p['pins'] is not None and rng.random() < .15 and p['style'] not in ('cubic', 'quadratic', 'zero'):
        o = rng.permutation(len(p['pins']))
        p['pins'], p['v'] = p['pins'][o], p['v'][:, o]
    note(ctx, p)
    cls = [C.Resistance, C.Capacitance, C.ReferenceOCV, C.EntropicOCV, C.HysteresisParameters, SOCInterpolatedHealth][int(rng.integers(6))]
    c = cls(**kw(ctx, p))
    ctx.case(cls=cls.__name__, style=p['style'], pins=p['pins'], v=p['v'])
    for _ in range(5):
        s, S = socs(ctx, p, rng)
        keep = np.array(s)
        before = c.base_values.copy()
        got = c.get_value(s)
        want, ok = table(ctx, p, S)
        compare(ctx, got, want, ok, 'value', f'{cls.__name__}, {p["style"]} at {np.shape(s)}', np.abs(p['v']).max(), soc=s, pins=p['pins'], v=p['v'])
        ctx.check(np.array_equal(np.array(s), keep) and np.array_equal(c.base_values, before), 'modified', 'evaluation changed SOC or parameter')
        ctx.obs('unmodified')
        # results are the caller's
        got *= np.nan
        ctx.check(np.isfinite(c.base_values).all(), 'aliased', 'changing the result changes the parameter')
        if rng.random() < .4:  # other values, possibly of another batch size, on the same grid
            v = p['v'][:1] * rng.uniform(.5, 1.5, (int(rng.choice([1, 3])), p['v'].shape[1]))
            if rng.random() < .5:
                c.base_values = v.copy()
            else:
                c.mark_updatable('base_values')
                c.update_parameters(v.copy(), ['base_values'])
            p = dict(p, v=v)
            ctx.obs('edited')
        if rng.random() < .3 and p['v'].shape[1] > 1:  # another grid or another style for the same values
            n = p['v'].shape[1]
            if rng.random() < .6:
                pins = np.linspace(.02, .97, n) + rng.uniform(-.3, .3, n) / n
                if p['pins'] is not None and rng.random() < .5:
                    c.soc_pinpoints[...] = pins
                else:
                    c.soc_pinpoints = pins.copy()
                p = dict(p, pins=pins)
            else:
                p = dict(p, style=str(rng.choice([t for t in STYLES if n >= {'cubic': 4, 'quadratic': 3}.get(t, 2)])))
                if p['pins'] is not None and (np.diff(p['pins']) < 0).any():
                    p = dict(p, style='linear')
                c.interpolation_style = p['style']
            ctx.obs('regridded')


def ties(ctx):
    """Halfway between points, 'nearest' takes the lower and 'nearest-up' the upper one"""
    from moirae.models.ecm.components import Capacitance
    rng = ctx.rng
    pins = np.sort(rng.choice(np.arange(33), int(rng.integers(2, 9)), replace=False)) / 32
    v = rng.normal(size=len(pins))
    mid = (pins[1:] + pins[:-1]) / 2
    ctx.case(pins=pins, v=v)
    for style, want in (('nearest', v[:-1]), ('nearest-up', v[1:])):
        c = Capacitance(base_values=v.copy(), soc_pinpoints=pins.copy(), interpolation_style=style)
        ctx.close(c.get_value(mid), want[None, None], 'tie', f'{style} halfway', rtol=1e-14)
        ctx.obs('ties')


def temps(rng):
    T = gen.temperature(rng, -30, 70)
    u = rng.random()
    return (T if u < .4 else np.array([[T]]) if u < .7 else np.array([T]) if u < .85 else [T]), T


def thermal(ctx):
    """Resistances, OCV and RC pairs with temperature"""
    from moirae.models.ecm import components as C
    rng = ctx.rng
    B = int(rng.choice([1, 2, 4]))

    def maybe(v):
        return v if rng.random() < .5 else v[:1]

    def res():
        p = param(rng, B, 10 ** rng.uniform(-3, 0))
        p['v'] = maybe(p['v'])
        p['tref'] = 25. if rng.random() < .3 else gen.temperature(rng, -10, 60)
        p['tdf'] = maybe(gen.zero_some(rng, rng.uniform(-.02, .05, (B, 1)))) if rng.random() < .8 else np.zeros((1, 1))
        note(ctx, p)
        return p

    def make(p):
        k = kw(ctx, p)
        if p['tref'] != 25. or rng.random() < .5:
            k['reference_temperature'] = p['tref']
        if p['tdf'].any() or rng.random() < .5:
            k['temperature_dependence_factor'] = p['tdf'].copy()
        return C.Resistance(**k)

    def factor(p, T):
        return np.ones((1, 1, 1)) if T is None else np.exp(-p['tdf'][:, :, None] * (T - p['tref']))
    r, rc_c = res(), param(rng, B, 10 ** rng.uniform(2, 4))
    rc_c['v'] = maybe(rc_c['v'])
    ocv, ent = param(rng, B, 3.5, .2), param(rng, B, .005, 1.)
    ocv['v'], ent['v'] = maybe(ocv['v']), maybe(ent['v'])
    tref = maybe(rng.uniform(0, 50, (B, 1))) if rng.random() < .7 else np.full((1, 1), 25.)
    no_ent = rng.random() < .15
    ctx.obs('defaults', int(no_ent))
    ctx.case(r=r['v'], tdf=r['tdf'], ocv=ocv['v'], ent=ent['v'], tref=tref)
    R = make(r)
    RC = C.RCComponent(r=make(r), c=C.Capacitance(**kw(ctx, rc_c)))
    o = dict(ocv_ref=C.ReferenceOCV(**kw(ctx, ocv), **({} if (tref == 25.).all() and rng.random() < .5 else dict(reference_temperature=tref.copy()))))
    if not no_ent:
        o['ocv_ent'] = C.EntropicOCV(**kw(ctx, ent))
    V = C.OpenCircuitVoltage(**o)
    for turn in range(4):
        if turn and rng.random() < .4:  # another reference or factor for the same values
            what = int(rng.integers(3))
            if what == 0:
                r['tref'] = float(rng.uniform(-10, 60))
                R.reference_temperature = RC.r.reference_temperature = r['tref']
            elif what == 1:
                r['tdf'] = rng.uniform(-.02, .05, r['tdf'].shape)
                R.temperature_dependence_factor = r['tdf'].copy()
                RC.r.temperature_dependence_factor = r['tdf'].copy()
            else:
                tref = rng.uniform(0, 50, tref.shape)
                V.ocv_ref.reference_temperature = tref.copy()
            ctx.obs('re_referenced')
        t, T = (None, None) if rng.random() < .25 else temps(rng)
        ctx.obs('no_temperature' if T is None else 'temperatures')
        label = f'at {T} C'
        args = lambda s: dict(soc=s) if t is None and rng.random() < .5 else dict(soc=s, temp=t)  # noqa: E731
        # resistance
        s, S = socs(ctx, r, rng)
        want, ok = table(ctx, r, S)
        want = want * factor(r, T)
        compare(ctx, R.get_value(**args(s)), want, ok, 'resistance', label, np.abs(want).max(), soc=s, r=r)
        # RC pair: stay where both styles are defined
        s, S = socs(ctx, dict(r, style='previous'), rng)
        S = np.clip(S, .02, .98)
        r1, ok1 = table(ctx, r, S)
        c1, ok2 = table(ctx, rc_c, S)
        x = [np.asarray(p['pins']) for p in (r, rc_c) if p['pins'] is not None and p['v'].shape[1] > 1]
        if all(a.min() < S.min() and a.max() > S.max() for a in x):
            s = S.copy()
            r1 = r1 * factor(r, T)
            compare(ctx, RC.time_constant(**args(s)), r1 * c1, ok1 & ok2, 'time-constant', label, np.abs(r1 * c1).max(), soc=s)
            a, b = RC.get_value(**args(s))
            compare(ctx, a, r1, ok1, 'rc-resistance', label, np.abs(r1).max(), soc=s)
            compare(ctx, b, c1, ok2, 'rc-capacitance', label, np.abs(c1).max(), soc=s)
            ctx.obs('rc_pairs')
        # OCV
        s, S = socs(ctx, dict(ocv, style='previous'), rng)
        S = np.clip(S, .02, .98)
        v, ok1 = table(ctx, ocv, S)
        e, ok2 = table(ctx, ent, S)
        x = [np.asarray(p['pins']) for p in (ocv, ent) if p['pins'] is not None and p['v'].shape[1] > 1]
        if all(a.min() < S.min() and a.max() > S.max() for a in x):
            s = S.copy() if rng.random() < .6 or S.size > 1 else float(S[0, 0])
            want = v if T is None else v + (T - tref[:, :, None]) * (0 * e[:1] if no_ent else e)
            compare(ctx, V.get_value(**args(s)) if rng.random() < .6 else V(**args(s)), want, ok1 & ok2, 'ocv', label, np.abs(want).max(), soc=s, ocv=ocv, ent=ent, tref=tref)


def capacity(ctx):
    from moirae.models.ecm.components import MaxTheoreticalCapacity
    rng = ctx.rng
    B = int(rng.choice([1, 3]))
    q = 10 ** rng.uniform(-2, 3, (B, 1))
    ctx.case(q=q)
    c = MaxTheoreticalCapacity(base_values=float(q[0, 0]) if B == 1 else q.copy())
    for _ in range(3):
        ctx.close(c.amp_hour, q, 'capacity', 'A-hr', rtol=1e-14)
        ctx.close(c.value, q * 3600, 'capacity', 'A-s', rtol=1e-14)
        ctx.close(c.base_values, q, 'capacity', 'stored', rtol=1e-14)
        ctx.obs('capacity')
        q = 10 ** rng.uniform(-2, 3, (int(rng.choice([1, 3])), 1))
        if rng.random() < .6:
            c.value = [q * 3600, q[:, 0] * 3600, float(q[0, 0]) * 3600][int(rng.integers(3 if len(q) == 1 else 2))]
        else:
            c.base_values = q.copy()


def energy(ctx):
    rng = ctx.rng
    B = int(rng.choice([1, 2, 4]))
    spec = gen.circuit(rng, B, batched=None if B == 1 else ['all', .5][int(rng.integers(2))], styles=gen.STYLES)
    if B > 1 and all(len(d[k]) == 1 for d, k in ((spec, 'qt'), (spec['ocv'], 'v'))):
        spec['qt'] = np.repeat(spec['qt'], B, axis=0) * rng.uniform(.5, 1.5, (B, 1))
    p = [spec['ocv'], spec['ent']]
    x = [np.asarray(q['pins']) for q in p if q['pins'] is not None and q['v'].shape[1] > 1]
    lo, hi = max([0.] + [a.min() for a in x]), min([1.] + [a.max() for a in x])
    asoh = gen.build_asoh(spec)
    ctx.case(**gen.describe(spec), values=spec['ocv']['v'], qt=spec['qt'])
    for _ in range(3):
        lim = sorted(rng.uniform(lo, hi, 2)) if rng.random() < .7 else [lo, hi]
        if rng.random() < .3 and all(q['v'].shape[1] == 1 or q['style'] not in ('previous', 'next') for q in p):
            # beyond the points, as the OCV itself
            lim = sorted([lim[0] - .15 * float(rng.random() < .7), lim[1] + .15 * float(rng.random() < .7)])
            ctx.obs('energy_beyond', int(lim[0] < 0 or lim[1] > 1))
        k = {}
        rev = rng.random() < .4
        if lim != [0., 1.] or rng.random() < .5:
            k['soc_limits'] = tuple(lim[::-1] if rev else lim)
        T = gen.temperature(rng) if rng.random() < .6 else None
        if T is not None or rng.random() < .5:
            k['temperature'] = T
        got = np.asarray(asoh.get_theoretical_energy(**k))
        n = max(len(spec['qt']), len(spec['ocv']['v']), *((len(spec['ocv']['tref']), len(spec['ent']['v'])) if T is not None else (1,)))
        ctx.check(got.shape == (n, 1), 'energy-shape', f'{got.shape} for a batch of {n}')
        for b in range(n):
            m = gen.member(spec, b)
            grids = [np.linspace(*lim, 100), np.linspace(*lim, 1999)]
            e = [np.trapezoid([ref.ocv(m, s, T) for s in g], g) * m['qt'] for g in grids]
            ctx.check(abs(got[b, 0] - e[1]) <= 2 * abs(e[0] - e[1]) + 2e-4 * abs(e[1]) * (lim[1] - lim[0]) + 1e-9 * abs(e[1]), 'energy', f'between {lim} at {T}: {got[b, 0]} instead of {e[1]}')
            ctx.obs('energy')
            ctx.obs('energy_reversed', int(rev and 'soc_limits' in k))


def template(ctx):
    from moirae.models.ecm.advancedSOH import ECMASOH
    rng = ctx.rng
    n, has = int(rng.integers(0, 5)), bool(rng.random() < .5)
    k = {}

    def vals(base):
        return float(base * rng.uniform(.5, 1.5)) if rng.random() < .4 else base * rng.uniform(.5, 1.5, int(rng.integers(2, 9)))
    give = {a: rng.random() < .6 for a in ('qt', 'CE', 'OCV', 'R0', 'C0', 'H0', 'RC')}
    if give['qt']:
        k['qt'] = float(10 ** rng.uniform(-1, 2))
    if give['CE']:
        k['CE'] = float(rng.uniform(.7, 1))
    if give['OCV']:
        k['OCV'] = vals(3.5)
    if give['R0']:
        k['R0'] = vals(.03)
    if give['C0']:
        k['C0'] = vals(2000.)
    if give['H0']:
        k['H0'] = vals(.02)
    if give['RC'] and n:
        k['RC'] = [(vals(.02), vals(900.)) for _ in range(n)]
    args = dict(has_C0=has, num_RC=n)
    ctx.case(**args, **k)
    keep = {a: np.array(v, dtype=object if a == 'RC' else float) for a, v in k.items()}
    a = ECMASOH.provide_template(**args, **k)
    S = rng.uniform(0, 1, 4)

    def lin(v, s):
        return ref.interp(dict(v=np.atleast_1d(v), pins=None, style='linear'), s)

    def same(component, v, what):
        for s in S:
            # nothing is said about temperature here
            ctx.close(np.ravel(component.get_value(float(s))), [lin(v, s)], 'template', f'{what} at {s}', rtol=1e-9)
        ctx.obs('entries', len(S))
    ctx.close(a.q_t.amp_hour, [[k.get('qt', 10.)]], 'template', 'capacity', rtol=1e-14)
    ctx.close(a.ce, [[k.get('CE', 1.)]], 'template', 'efficiency', rtol=1e-14)
    if 'OCV' in k:
        same(a.ocv.ocv_ref, k['OCV'], 'OCV')
        ctx.close(np.ravel(a.ocv(S)), [lin(k['OCV'], s) for s in S], 'template', 'OCV without temperature', rtol=1e-9)
    same(a.r0, k.get('R0', .05), 'R0')
    same(a.h0, k.get('H0', .05), 'H0')
    ctx.check((a.c0 is not None) == has, 'template', f'series capacitor is {a.c0} although has_C0 is {has}')
    if has and 'C0' in k:
        same(a.c0, k['C0'], 'C0')
    elif has:  # at most 10 mV when full
        ctx.check(abs(float(a.q_t.value[0, 0]) / float(np.ravel(a.c0.get_value(.5))[0]) - .01) < 1e-9, 'template', 'default C0')
    if rng.random() < .3:  # what is not given to a circuit
        p = ECMASOH(q_t=a.q_t, ocv=a.ocv, r0=a.r0)
        ctx.close(p.ce, [[1.]], 'default', 'efficiency')
        ctx.close(np.ravel(p.h0.get_value(S)), np.zeros(4), 'default', 'hysteresis')
        ctx.close(p.h0.gamma, [[0.]], 'default', 'rate of hysteresis')
        ctx.check(p.c0 is None and len(p.rc_elements) == 0, 'default', 'elements which were not given')
        ctx.obs('bare')
    ctx.check(len(a.rc_elements) == n, 'template', f'{len(a.rc_elements)} RC elements instead of {n}')
    for i, e in enumerate(a.rc_elements):
        if 'RC' in k:
            same(e.r, k['RC'][i][0], f'R of element {i}')
            same(e.c, k['RC'][i][1], f'C of element {i}')
    if 'RC' in k:
        for bad in (n + 1, n - 1):
            if bad > 0:
                ctx.raises(ValueError, lambda: ECMASOH.provide_template(has_C0=has, num_RC=bad, **k), 'template-accepted', f'{n} pairs for {bad} elements')
                ctx.obs('template_rejected')
    # elements are distinct parameters
    if n > 1:
        v = [float(np.ravel(e.r.base_values)[0]) for e in a.rc_elements]
        i = int(rng.integers(n))
        a.rc_elements[i].r.base_values = np.full(a.rc_elements[i].r.base_values.shape, 123.)
        ctx.check(all(float(np.ravel(a.rc_elements[j].r.base_values)[0]) == v[j] for j in range(n) if j != i), 'template-shared', 'elements share their resistance')
    for b, v in keep.items():
        ctx.check(b == 'RC' or np.array_equal(np.asarray(k[b], float), v), 'modified', f'argument {b}')
    ctx.obs('templates')


def states(ctx):
    from moirae.models.ecm.advancedSOH import ECMASOH
    from moirae.models.ecm.transient import ECMTransientVector
    rng = ctx.rng
    n, has = int(rng.integers(0, 5)), bool(rng.random() < .5)
    k = {}
    if rng.random() < .6:
        k['soc'] = float(rng.uniform(0, 1))
    if rng.random() < .6:
        k['q0'] = float(rng.normal() * 100)
    if rng.random() < .6:
        k['hysteresis'] = float(rng.normal() * .1)
    u = rng.random()
    i = np.zeros(n)
    if u < .3:
        k['i_rc'] = float(rng.normal())
        i[:] = k['i_rc']
    elif u < .7:
        i = rng.normal(size=n)
        k['i_rc'] = i.copy() if rng.random() < .6 else [float(x) for x in i]
    ctx.case(n=n, has=has, **k)
    t = ECMTransientVector.provide_template(has_C0=has, num_RC=n, **k)
    want = [k.get('soc', 0.)] + ([k.get('q0', 0.)] if has else []) + list(i) + [k.get('hysteresis', 0.)]
    ctx.close(t.to_numpy(), [want], 'state-template', f'{k}', rtol=1e-14)
    ctx.check((t.q0 is not None) == has, 'state-template', 'charge of the series capacitor')
    ctx.obs('state_templates')
    for bad in (n + 1, n - 1):
        if isinstance(k.get('i_rc'), (list, np.ndarray)) and bad >= 0:
            ctx.raises(ValueError, lambda: ECMTransientVector.provide_template(has_C0=has, num_RC=bad, **k), 'template-accepted', f'{n} currents for {bad} elements')
            ctx.obs('template_rejected')
    z = ECMTransientVector.from_asoh(ECMASOH.provide_template(has_C0=has, num_RC=n))
    ctx.close(z.to_numpy(), np.zeros((1, len(want))), 'state-template', 'from the parameters of a circuit', rtol=0, atol=0)
    ctx.check((z.q0 is not None) == has, 'state-template', 'charge of the series capacitor')


WORKLOADS = [WL('values', values, 400, 25000), WL('ties', ties, 60, 2000), WL('thermal', thermal, 150, 9000), WL('capacity', capacity, 60, 4000), WL('energy', energy, 60, 2500),
             WL('template', template, 160, 9000), WL('states', states, 120, 9000)]
