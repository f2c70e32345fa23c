"""C06: state and input vectors convert to and from arrays without loss.

Monitor: a naive mirror (ordered list of 2D arrays) of randomly made container classes and of all containers of the ECM, compared with
everything a container reports about itself, before and after loading arrays, copying and editing.
"""
from typing import Optional

import numpy as np

from lib import gen
from lib.harness import WL

RULE = ('One case = one container (random class with 1-7 scalar/vector/optional fields, or ECM/base input, output and state) with each field batched or '
        'not, followed by 4-12 conversions. Non-trivial if it has at least two present fields.')
REQUIRED = {'conversions': 1500, 'partial_batches': 150, 'absent_fields': 200, 'vectors': 150, 'rebatched': 200, 'copies': 400, 'mismatches': 60, 'ecm': 100,
            'flat_arrays': 150, 'integers': 150, 'tiny_changes': 300, 'not_finite': 150}


def _names(fields):
    return tuple(x for n, a in fields if a is not None for x in ([n] if a.shape[1] == 1 else [f'{n}[{i}]' for i in range(a.shape[1])]))


def _matrix(fields):
    B = max(a.shape[0] for _, a in fields if a is not None)
    return np.concatenate([np.broadcast_to(a, (B, a.shape[1])) for _, a in fields if a is not None], axis=1)


def compare(ctx, c, fields, msg, rng):
    M = _matrix(fields)
    got = c.to_numpy()
    ctx.check(isinstance(got, np.ndarray) and got.shape == M.shape and np.array_equal(got, M, equal_nan=True), 'to_numpy', f'{msg}: array is {got} instead of {M}')
    ctx.check(c.batch_size == M.shape[0], 'batch_size', f'{msg}: batch size {c.batch_size} instead of {M.shape[0]}')
    ctx.check(len(c) == M.shape[1], 'len', f'{msg}: length {len(c)} instead of {M.shape[1]}')
    ctx.check(tuple(c.all_fields) == tuple(n for n, _ in fields), 'all_fields', f'{msg}: fields {c.all_fields}')
    ctx.check(tuple(c.all_names) == _names(fields), 'all_names', f'{msg}: names {c.all_names} instead of {_names(fields)}')
    ctx.check(len(c.all_names) == M.shape[1], 'all_names', f'{msg}: {len(c.all_names)} names for {M.shape[1]} values')
    for n, a in fields:
        ctx.check(c.length_field(n) == (0 if a is None else a.shape[1]), 'length_field', f'{msg}: {n} has length {c.length_field(n)}')
        v = getattr(c, n)
        ctx.check((v is None) == (a is None), 'presence', f'{msg}: {n} is {v}')
        if a is not None:
            ctx.check(np.shape(v) == a.shape and np.array_equal(v, a, equal_nan=True), 'field', f'{msg}: {n} is {v} instead of {a}')
    order = [fields[i] for i in rng.permutation(len(fields))[:int(rng.integers(1, len(fields) + 1))]]
    ctx.check(tuple(c.expand_names([n for n, _ in order])) == _names(order), 'expand_names', f'{msg}: {[n for n, _ in order]} expand to {c.expand_names([n for n, _ in order])}')
    ctx.obs('conversions')
    return M


def drive(ctx, c, fields, msg):
    rng = ctx.rng
    M = compare(ctx, c, fields, msg, rng)
    ctx.obs('partial_batches', int(M.shape[0] > 1 and any(a is not None and a.shape[0] == 1 for _, a in fields)))
    ctx.obs('absent_fields', sum(a is None for _, a in fields))
    ctx.obs('vectors', sum(a is not None and a.shape[1] > 1 for _, a in fields))
    for _ in range(int(rng.integers(4, 12))):
        b = int(rng.choice([1, M.shape[0], int(rng.integers(1, 6))]))
        new = rng.normal(size=(b, M.shape[1]))
        if rng.random() < .1:
            new = np.round(new * 10).astype(int)
        elif rng.random() < .15:  # barely different from what is there
            new = np.repeat(M[:1], b, axis=0) * (1 + 10. ** -rng.uniform(6, 13))
            ctx.obs('tiny_changes')
        elif rng.random() < .1:  # missing values are values too
            new[rng.random(new.shape) < .3] = [np.nan, np.inf][int(rng.integers(2))]
            ctx.obs('not_finite', int(not np.all(np.isfinite(new))))
        arg = new.copy()
        if b == 1 and rng.random() < .6:
            arg = new[0].copy()
            ctx.obs('flat_arrays')
        ctx.obs('rebatched', int(b != M.shape[0]))
        pos, mirror = 0, []
        for n, a in fields:
            if a is None:
                mirror.append((n, None))
                continue
            mirror.append((n, new[:, pos:pos + a.shape[1]].copy()))
            pos += a.shape[1]
        what = f'{msg}, with {new.shape} values'
        if rng.random() < .5:
            d = c.make_copy(arg)
            ctx.obs('copies')
            ctx.check(type(d) is type(c) and d is not c, 'copy', f'{what}: copy has type {type(d)}')
            compare(ctx, d, mirror, what + ' (copy)', rng)
            compare(ctx, c, fields, what + ' (original)', rng)
            if rng.random() < .5:  # and later edits of one do not reach the other
                n = str(rng.choice([n for n, a in mirror if a is not None]))
                getattr(d, n)[...] = 9
                compare(ctx, c, fields, what + ' (original, after an edit of the copy)', rng)
        else:
            c.from_numpy(arg)
            fields = mirror
            M = compare(ctx, c, fields, what, rng)
        out = c.to_numpy()
        out[...] = -5.  # the array belongs to who asked for it
        compare(ctx, c, fields, what + ' (after an edit of the array it gave)', rng)
        # loading its own array is the identity
        e = c.model_copy(deep=True)
        e.from_numpy(c.to_numpy())
        ctx.check(np.array_equal(e.to_numpy(), c.to_numpy(), equal_nan=True), 'round-trip', f'{what}: to_numpy -> from_numpy changed the values')


def random_class(ctx):
    from pydantic import create_model
    from moirae.models.base import GeneralContainer, ListParameter, ScalarParameter
    rng = ctx.rng
    B = int(rng.integers(1, 6))
    ann, kw, fields = {}, {}, []
    for i in range(int(rng.integers(1, 8))):
        name = f'{"abcxyz"[int(rng.integers(6))]}{i}'
        scalar, optional = rng.random() < .55, rng.random() < .3
        t = ScalarParameter if scalar else ListParameter
        b, L = (B if rng.random() < .5 else 1), 1 if scalar else int(rng.integers(0, 5))
        a = rng.normal(size=(b, L))
        if rng.random() < .04:
            a[...] = np.nan
        ann[name] = (Optional[t], None) if optional else (t, ...)
        whole = rng.random() < .15  # given as integers
        if whole:
            a = np.round(np.nan_to_num(a) * 10)
            ctx.obs('integers')
        num = int if whole else float
        if optional and rng.random() < .5:
            a = None
        elif b == 1 and rng.random() < .5:
            kw[name] = num(a[0, 0]) if scalar else list(map(num, a[0]))
        elif scalar and rng.random() < .5:
            kw[name] = a[:, 0].astype(num)
        else:
            kw[name] = a.astype(num)
        fields.append((name, a))
    if all(a is None for _, a in fields):
        ann['last'] = (ScalarParameter, ...)
        kw['last'] = 1.
        fields.append(('last', np.ones((1, 1))))
    c = create_model('Random', __base__=GeneralContainer, **ann)(**kw)
    drive(ctx, c, fields, f'container with {[(n, None if a is None else a.shape) for n, a in fields]}')
    ctx.case(nontrivial=sum(a is not None for _, a in fields) > 1, shapes=[(n, None if a is None else a.shape) for n, a in fields])


def ecm_class(ctx):
    from moirae.models.base import InputQuantities, OutputQuantities
    from moirae.models.ecm import ECMInput, ECMMeasurement, ECMTransientVector
    rng = ctx.rng
    B = int(rng.integers(1, 6))

    def v(L=1):
        return rng.normal(size=(B if rng.random() < .5 else 1, L))

    k = int(rng.integers(5))
    if k == 0:
        cls, fields = InputQuantities, [('time', v()), ('current', v())]
    elif k == 1:
        cls, fields = ECMInput, [('time', v()), ('current', v()), ('temperature', v() if rng.random() < .5 else None)]
    elif k == 2:
        cls, fields = (ECMMeasurement if rng.random() < .5 else OutputQuantities), [('terminal_voltage', v())]
    else:
        cls = ECMTransientVector
        fields = [('soc', v()), ('q0', v() if rng.random() < .5 else None), ('i_rc', v(int(rng.integers(0, 5)))), ('hyst', v())]
    if rng.random() < .2:
        fields = [(n, None if a is None else np.round(a * 10)) for n, a in fields]
        c = cls(**{n: a.astype(int) for n, a in fields if a is not None})
        ctx.obs('integers')
    else:
        c = cls(**{n: a.copy() for n, a in fields if a is not None})
    ctx.obs('ecm')
    drive(ctx, c, fields, f'{cls.__name__} with {[(n, None if a is None else a.shape) for n, a in fields]}')
    ctx.case(shapes=[cls.__name__] + [(n, None if a is None else a.shape) for n, a in fields])
    # templates
    n_rc, has = int(rng.integers(0, 5)), bool(rng.random() < .5)
    i_rc = [None, float(rng.normal()), rng.normal(size=n_rc)][int(rng.integers(3))]
    soc, q0, h = map(float, rng.normal(size=3))
    t = ECMTransientVector.provide_template(has_C0=has, num_RC=n_rc, soc=soc, q0=q0, i_rc=i_rc, hysteresis=h)
    want = [('soc', np.array([[soc]])), ('q0', np.array([[q0]]) if has else None),
            ('i_rc', np.zeros((1, n_rc)) + (0. if i_rc is None else i_rc)), ('hyst', np.array([[h]]))]
    compare(ctx, t, want, f'template with C0={has}, {n_rc} RC, i_rc={i_rc}', rng)
    spec = gen.circuit(rng)
    t = ECMTransientVector.from_asoh(gen.build_asoh(spec))
    compare(ctx, t, [('soc', np.zeros((1, 1))), ('q0', np.zeros((1, 1)) if spec['c0'] is not None else None),
                     ('i_rc', np.zeros((1, len(spec['rc'])))), ('hyst', np.zeros((1, 1)))], 'state made for a circuit', rng)


def mismatch(ctx):
    """Fields with different batch sizes, none of them one, have no array form"""
    from moirae.models.ecm import ECMInput, ECMTransientVector
    rng = ctx.rng
    b1, b2 = [int(x) for x in rng.choice([2, 3, 4, 5], 2, replace=False)]
    n = int(rng.integers(1, 4))
    opts = [lambda: ECMInput(time=np.zeros((b1, 1)), current=np.zeros((b2, 1))),
            lambda: ECMInput(time=np.zeros((b1, 1)), current=0., temperature=np.zeros((b2, 1))),
            lambda: ECMTransientVector(soc=np.zeros((b1, 1)), i_rc=np.zeros((b2, n))),
            lambda: ECMTransientVector(soc=0., q0=np.zeros((b1, 1)), i_rc=np.zeros((b2, n))),
            lambda: ECMTransientVector(soc=0., i_rc=np.zeros((b2, n)), hyst=np.zeros((b1, 1)))]
    for f in opts:
        ctx.raises((ValueError,), lambda: f().batch_size, 'mismatch', f'batch size of fields with batches of {b1} and {b2}')
        ctx.raises((ValueError,), lambda: f().to_numpy(), 'mismatch', f'array of fields with batches of {b1} and {b2}')
        ctx.obs('mismatches')
    ctx.case(b=(b1, b2, n))


WORKLOADS = [WL('random_class', random_class, 600, 8000), WL('ecm_class', ecm_class, 400, 6000), WL('mismatch', mismatch, 20, 60)]
