"""C05: health parameters are addressed, read and written faithfully by name.

Model-based monitor: a random tree of health variables is driven by a random sequence of public operations while a naive mirror
(nested Python objects) predicts everything that can be read from it; the whole observable state is compared after each operation.
"""
from typing import Dict, Optional, Tuple

import numpy as np

from lib import gen
from lib.harness import WL

RULE = ('One case = one random tree (depth up to 3; scalars, lists, nested, tuples, dictionaries, ordinary fields; batch 1-4) or a random circuit, '
        'and 15-60 random operations. Non-trivial if the tree has a nested parameter and values were written.')
REQUIRED = {'operations': 3000, 'updates': 300, 'batched_updates': 100, 'rebatched': 60, 'copies': 150, 'refused_writes': 150, 'reads': 2000,
            'tuple_or_dict_names': 500, 'set_values': 200, 'empty_updates': 150, 'tiny_changes': 100, 'wide': 15, 'expansions': 700, 'circuits': 30}


# ------------------------------------------------------------------ mirror
class Node:
    def __init__(self):
        self.fields = []  # (name, kind, content)
        self.updatable = set()

    def copy(self):
        out = Node()
        out.updatable = set(self.updatable)
        for name, kind, c in self.fields:
            if kind in ('scalar', 'list'):
                c = c.copy()
            elif kind == 'node':
                c = c.copy()
            elif kind == 'tuple':
                c = [x.copy() for x in c]
            elif kind == 'dict':
                c = {k: x.copy() for k, x in c.items()}
            out.fields.append((name, kind, c))
        return out

    def subs(self):
        """All models in the tree"""
        yield self
        for _, kind, c in self.fields:
            for x in ([c] if kind == 'node' else c if kind == 'tuple' else c.values() if kind == 'dict' else []):
                yield from x.subs()

    def leaves(self, prefix='', open_=True):
        """(path, array, whole path marked updatable, [(model, field name) along the path])"""
        for name, kind, c in self.fields:
            up = open_ and name in self.updatable
            here = [(self, name)]
            if kind in ('scalar', 'list'):
                yield prefix + name, c, up, here
            elif kind == 'node':
                for p, a, u, ch in c.leaves(f'{prefix}{name}.', up):
                    yield p, a, u, here + ch
            elif kind == 'tuple':
                for i, x in enumerate(c):
                    for p, a, u, ch in x.leaves(f'{prefix}{name}.{i}.', up):
                        yield p, a, u, here + ch
            elif kind == 'dict':
                for k, x in c.items():
                    for p, a, u, ch in x.leaves(f'{prefix}{name}.{k}.', up):
                        yield p, a, u, here + ch

    def prefixes(self, prefix=''):
        """Names of collections which can be expanded"""
        for name, kind, c in self.fields:
            if kind == 'node':
                yield prefix + name
                yield from c.prefixes(f'{prefix}{name}.')
            elif kind in ('tuple', 'dict'):
                yield prefix + name
                for i, x in (enumerate(c) if kind == 'tuple' else c.items()):
                    yield f'{prefix}{name}.{i}'
                    yield from x.prefixes(f'{prefix}{name}.{i}.')

    def set(self, path, value):
        ch = next(ch for p, _, _, ch in self.leaves() if p == path)
        m, f = ch[-1]
        m.fields = [(n, k, value if n == f else c) for n, k, c in m.fields]


def expand(path, a):
    return [path] if a.shape[1] == 1 else [f'{path}[{i}]' for i in range(a.shape[1])]


def recipe(rng, depth=0, concrete=False):
    """Random class of health variables and what is needed to make instances of it"""
    from pydantic import create_model, Field
    from moirae.models.base import HealthVariable, ListParameter, ScalarParameter
    ann, fields = {}, []
    n = int(rng.integers(1, 5 if depth else 6))
    for i in range(n):
        name = f'{"abcxyz"[int(rng.integers(6))]}{i}'
        u = rng.random()
        if u < .3 or (depth >= 2 and u < .5):
            fields.append((name, 'scalar', 1))
            ann[name] = (ScalarParameter, ...)
        elif u < .5 or depth >= 2:
            fields.append((name, 'list', int(rng.integers(1, 5))))
            ann[name] = (ListParameter, ...)
        elif u < .65:
            sub = recipe(rng, depth + 1, concrete)
            fields.append((name, 'node', sub))
            ann[name] = (sub[0], ...)
        elif u < .92:
            # if concrete, all members have the same class, which is the one declared
            k = int(rng.integers(0, 4))
            if rng.random() < .12:  # more members than one digit can number
                subs = [recipe(rng, 2, concrete)] * int(rng.integers(11, 14))
            else:
                subs = [recipe(rng, depth + 1, concrete)] * k if concrete else [recipe(rng, depth + 1) for _ in range(k)]
            cls = subs[0][0] if concrete and subs else HealthVariable
            if u < .8:
                fields.append((name, 'tuple', subs))
                ann[name] = (Tuple[cls, ...], Field(default_factory=tuple))
            else:
                fields.append((name, 'dict', {f'{"kqr0"[int(rng.integers(4))]}{j}': x for j, x in enumerate(subs)}))
                ann[name] = (Dict[str, cls], Field(default_factory=dict))
        elif u < .96:
            fields.append((name, 'other', None))
            ann[name] = (Optional[float], 1.)
        else:
            fields.append((name, 'other', None))
            ann[name] = (Optional[HealthVariable], None)
    return create_model(f'Tree{depth}', __base__=HealthVariable, **ann), fields


def instance(rng, rec, B):
    """Instance with random values, and its mirror"""
    cls, fields = rec
    node, kw = Node(), {}
    for name, kind, c in fields:
        b = B if rng.random() < .4 else 1
        if kind == 'scalar':
            a = rng.normal(size=(b, 1))
            content, kw[name] = a, float(a[0, 0]) if b == 1 and rng.random() < .5 else a.copy()
        elif kind == 'list':
            a = rng.normal(size=(b, c))
            content, kw[name] = a, list(map(float, a[0])) if b == 1 and rng.random() < .5 else a.copy()
        elif kind == 'node':
            kw[name], content = instance(rng, c, B)
        elif kind == 'tuple':
            parts = [instance(rng, x, B) for x in c]
            kw[name], content = tuple(p[0] for p in parts), [p[1] for p in parts]
        elif kind == 'dict':
            parts = {k: instance(rng, x, B) for k, x in c.items()}
            kw[name], content = {k: p[0] for k, p in parts.items()}, {k: p[1] for k, p in parts.items()}
        else:
            content = None
        node.fields.append((name, kind, content))
    return cls(**kw), node


def build_tree(rng, B, concrete=False):
    rec = recipe(rng, 0, concrete)
    hv, node = instance(rng, rec, B)
    return rec[0], hv, node


def circuit_tree(rng, B):
    spec = gen.circuit(rng, B, batched=.4)
    asoh = gen.build_asoh(spec)

    def soc(p, extra=()):
        n = Node()
        n.fields = [('base_values', 'list', p['v'])] + [(k, 'scalar', p[v]) for k, v in extra]
        if p['pins'] is not None:
            n.fields.insert(1, ('soc_pinpoints', 'other', None))
        n.soc = True
        return n

    res = [('temperature_dependence_factor', 'tdf')]

    def group(*f):
        n = Node()
        n.fields = list(f)
        return n

    qt = group(('base_values', 'scalar', spec['qt']))
    ocv = group(('ocv_ref', 'node', soc(spec['ocv'], [('reference_temperature', 'tref')])), ('ocv_ent', 'node', soc(spec['ent'])))
    rc = [group(('r', 'node', soc(e['r'], res)), ('c', 'node', soc(e['c']))) for e in spec['rc']]
    f = [('q_t', 'node', qt), ('ce', 'scalar', spec['ce']), ('ocv', 'node', ocv), ('r0', 'node', soc(spec['r0'], res))]
    if spec['c0'] is not None:
        f.append(('c0', 'node', soc(spec['c0'])))
    f += [('rc_elements', 'tuple', rc), ('h0', 'node', soc(spec['h0'], [('gamma', 'gamma')]))]
    return asoh, group(*f).copy()


# ------------------------------------------------------------------ monitor
def compare(ctx, hv, node, what, full=True):
    """Everything readable agrees with the mirror"""
    leaves = list(node.leaves())
    names = tuple(p for p, *_ in leaves)
    B = max([a.shape[0] for _, a, *_ in leaves] + [1])
    ctx.check(tuple(hv.all_names) == names, 'all_names', f'{what}: names {hv.all_names} instead of {names}')
    ctx.check(hv.batch_size == B, 'batch_size', f'{what}: batch size {hv.batch_size} instead of {B}')
    got = list(hv.iter_parameters(updatable_only=False))
    ctx.check(tuple(k for k, _ in got) == names, 'iter', f'{what}: iterated over {[k for k, _ in got]} instead of {names}')
    for (k, v), (p, a, *_) in zip(got, leaves):
        ctx.check(np.shape(v) == a.shape and np.array_equal(v, a), 'value', f'{what}: {k} is {v} instead of {a}')
    up = [(p, a) for p, a, u, _ in leaves if u]
    ctx.check(tuple(hv.updatable_names) == tuple(p for p, _ in up), 'updatable_names', f'{what}: updatable {hv.updatable_names} instead of {[p for p, _ in up]}')
    ctx.check(hv.num_updatable == sum(a.shape[1] for _, a in up), 'num_updatable', f'{what}: {hv.num_updatable} updatable values, not {sum(a.shape[1] for _, a in up)}')
    want = np.concatenate([np.zeros((B, 0))] + [np.broadcast_to(a, (B, a.shape[1])) for _, a in up], axis=1)
    v = hv.get_parameters()
    ctx.check(v.shape == want.shape and np.array_equal(v, want), 'get_parameters', f'{what}: all updatable parameters are {v} instead of {want}')
    v[...] = -123.  # the array belongs to who asked for it: compared below with what is read afterwards
    for (k, v), (p, a, *_) in zip(hv.iter_parameters(updatable_only=False), leaves):
        ctx.check(np.array_equal(v, a), 'shared-array', f'{what}: {k} changed to {v} from {a} when the array returned by get_parameters was edited')
    e = tuple(hv.expand_names(hv.updatable_names))
    we = tuple(x for p, a in up for x in expand(p, a))
    ctx.check(e == we, 'expand_names', f'{what}: updatable values named {e} instead of {we}')
    ctx.obs('reads')
    return leaves, B


def drive(ctx, hv, node, n_ops, what):
    rng = ctx.rng
    compare(ctx, hv, node, f'{what} as built')
    wrote = 0
    trace = []
    for step in range(n_ops):
        leaves = list(node.leaves())
        if not leaves:
            break
        B = max(a.shape[0] for _, a, *_ in leaves)
        ctx.obs('operations')
        op = str(rng.choice(['mark', 'mark', 'mark_all', 'fix_all', 'flag', 'set', 'update', 'update', 'update', 'update', 'copy', 'refuse', 'refuse', 'read', 'read',
                             'expand', 'evaluate'], p=None))
        if op in ('mark_all', 'fix_all') and rng.random() < .5:
            op = 'mark'
        msg = f'{what} after {trace[-3:]} then {op}'
        if op == 'mark':
            p, _, _, ch = leaves[int(rng.integers(len(leaves)))]
            hv.mark_updatable(p)
            for m, f in ch:
                m.updatable.add(f)
            trace.append(f'mark {p}')
        elif op == 'mark_all':
            r = bool(rng.random() < .6)
            hv.mark_all_updatable(recurse=r)
            for m in (node.subs() if r else [node]):
                m.updatable |= {f for f, k, _ in m.fields if k != 'other'}
            trace.append(f'mark_all {r}')
        elif op == 'fix_all':
            r = bool(rng.random() < .6)
            hv.mark_all_fixed(recurse=r)
            for m in (node.subs() if r else [node]):
                m.updatable.clear()
            trace.append(f'fix_all {r}')
        elif op == 'flag':  # the flags are public too
            name, kind, _ = node.fields[int(rng.integers(len(node.fields)))]
            if kind != 'other':
                if rng.random() < .5:
                    hv.updatable.discard(name)
                    node.updatable.discard(name)
                else:
                    hv.updatable.add(name)
                    node.updatable.add(name)
            trace.append(f'flag {name}')
        elif op == 'set':
            p, a, _, _ = leaves[int(rng.integers(len(leaves)))]
            others = max([x.shape[0] for q, x, *_ in leaves if q != p] + [1])
            b = int(rng.choice([1, others if others > 1 else int(rng.integers(1, 5))]))
            if a.shape[1] == 1:
                new = np.abs(rng.normal(size=(b, 1)))
                arg = float(new[0, 0]) if b == 1 else new.copy() if rng.random() < .5 else new[:, 0].copy()
            else:
                new = np.abs(rng.normal(size=(b, a.shape[1])))
                arg = list(new[0]) if b == 1 and rng.random() < .5 else new.copy()
            hv.set_value(p, arg)
            node.set(p, new)
            ctx.obs('set_values')
            trace.append(f'set {p}')
        elif op in ('update', 'copy'):
            open_ = [(p, a) for p, a, u, _ in leaves if u]
            if not open_:
                trace.append('nothing to update')
                continue
            names = None
            chosen = open_
            if rng.random() < .6:
                chosen = [open_[i] for i in rng.permutation(len(open_))[:int(rng.integers(1, len(open_) + 1))]]
                names = [p for p, _ in chosen]
            rest = max([a.shape[0] for p, a, *_ in leaves if p not in {q for q, _ in chosen}] + [1])
            b = 1 if rng.random() < .3 else rest if rest > 1 else int(rng.integers(1, 5))
            before = max(a.shape[0] for _, a in chosen)
            new = np.abs(rng.normal(size=(b, sum(a.shape[1] for _, a in chosen))))
            if rng.random() < .15:  # a change too small for a tolerant comparison to see
                new = np.concatenate([np.broadcast_to(a[:1], (b, a.shape[1])) for _, a in chosen], axis=1) * (1 + 10. ** -rng.uniform(6, 13))
                ctx.obs('tiny_changes')
            arg = new.copy()
            if b == 1 and rng.random() < .6:
                arg = new[0].copy() if rng.random() < .5 else list(map(float, new[0]))
            target, mirror = hv, node
            if op == 'copy':
                mirror = node.copy()
                target = hv.make_copy(values=np.array(arg), names=names)
                ctx.obs('copies')
            else:
                hv.update_parameters(arg, names) if names is not None else hv.update_parameters(arg)
                ctx.obs('updates')
                wrote += 1
            ctx.obs('batched_updates', int(b > 1))
            ctx.obs('rebatched', int(before > 1 and b != before or before == 1 and b > 1))
            ctx.obs('tuple_or_dict_names', sum('.' in p for p, _ in chosen))
            pos = 0
            for p, a in chosen:
                mirror.set(p, new[:, pos:pos + a.shape[1]].copy())
                pos += a.shape[1]
            if op == 'copy':
                ctx.check(target is not hv and type(target) is type(hv), 'copy', f'{msg}: not a copy')
                compare(ctx, target, mirror, msg + ' (the copy)')
                # The copy is separate
                if rng.random() < .5:
                    q, a, _, _ = leaves[int(rng.integers(len(leaves)))]
                    target.set_value(q, np.full((1, a.shape[1]), 77.))
                    target.mark_all_fixed()
            else:
                r = hv.get_parameters(names)
                nb = max(a.shape[0] for _, a, *_ in node.leaves())
                w = np.broadcast_to(new, (nb, new.shape[1]))
                ctx.check(r.shape == w.shape and np.array_equal(r, w), 'read-back', f'{msg}: wrote {new} to {names}, read {r}')
            trace.append(f'{op} {names}')
        elif op == 'refuse':
            t = hv.model_copy(deep=True)
            up = [(p, a) for p, a, u, _ in leaves if u]
            fixed = [(p, a) for p, a, u, _ in leaves if not u]
            kind = int(rng.integers(3))
            if kind == 0 and fixed:
                p, a = fixed[int(rng.integers(len(fixed)))]
                lead = [up[int(rng.integers(len(up)))]] if up and rng.random() < .5 else []
                v = rng.normal(size=(1, sum(x.shape[1] for _, x in lead) + a.shape[1]))
                ctx.raises((ValueError,), lambda: t.update_parameters(v, [q for q, _ in lead] + [p]), 'wrote-fixed', f'{msg}: writing to {p}, which is not updatable')
                t2 = hv.model_copy(deep=True)
                ctx.raises((ValueError,), lambda: t2.make_copy(v, [q for q, _ in lead] + [p]), 'wrote-fixed', f'{msg}: copying with new {p}, which is not updatable')
                got = dict(t.iter_parameters(updatable_only=False))
                ctx.check(np.array_equal(got[p], a), 'wrote-fixed', f'{msg}: {p} was changed though not updatable')
                ctx.obs('refused_writes')
            elif up:
                n = sum(a.shape[1] for _, a in up)
                for names in (None, [p for p, _ in up]):
                    bad = n + int(rng.integers(1, 4)) if kind == 1 else n - int(rng.integers(1, n + 1))
                    ctx.raises((ValueError,), lambda: t.update_parameters(rng.normal(size=(1, bad)), names), 'wrong-count', f'{msg}: {bad} values for {n} parameters')
                ctx.obs('refused_writes')
            if rng.random() < .5:  # no names: nothing to write, and no value may be left over
                t3 = hv.model_copy(deep=True)
                ctx.raises((ValueError,), lambda: t3.update_parameters(rng.normal(size=(1, int(rng.integers(1, 4)))), []), 'wrong-count', f'{msg}: values for no parameters')
                t3.update_parameters(np.zeros((1, 0)), [])
                compare(ctx, t3, node, msg + ' (updating nothing)')
                ctx.obs('empty_updates')
            trace.append('refuse')
        elif op == 'read':
            k = rng.permutation(len(leaves))[:int(rng.integers(0, len(leaves) + 1))]
            names = [leaves[i][0] for i in k]
            want = np.concatenate([np.zeros((B, 0))] + [np.broadcast_to(leaves[i][1], (B, leaves[i][1].shape[1])) for i in k], axis=1)
            got = hv.get_parameters(names if rng.random() < .5 else tuple(names))
            ctx.check(got.shape == want.shape and np.array_equal(got, want), 'get_parameters', f'{msg}: {names} are {got} instead of {want}')
            got[...] = -321.  # compared below with what is read afterwards
            ctx.obs('tuple_or_dict_names', sum('.' in n for n in names))
            trace.append('read')
        elif op == 'expand':
            opts = [(p, expand(p, a)) for p, a, *_ in leaves]
            for pre in node.prefixes():
                opts.append((pre, [x for p, a, *_ in leaves if p.startswith(pre + '.') for x in expand(p, a)]))
            k = rng.permutation(len(opts))[:int(rng.integers(1, 5))]
            got = tuple(hv.expand_names([opts[i][0] for i in k]))
            want = tuple(x for i in k for x in opts[i][1])
            ctx.check(got == want, 'expand_names', f'{msg}: {[opts[i][0] for i in k]} expand to {got} instead of {want}')
            for i in k:
                ctx.check(tuple(hv.expand_names((opts[i][0],))) == tuple(opts[i][1]), 'expand_names', f'{msg}: {opts[i][0]} expands to {hv.expand_names((opts[i][0],))}')
            ctx.obs('expansions', len(k))
            trace.append('expand')
        elif op == 'evaluate' and hasattr(hv, 'ocv'):
            # using the parameters does not change which there are
            hv.ocv(soc=rng.uniform(0, 1, 3), temp=30.)
            hv.r0.get_value(soc=.3, temp=20)
            hv.h0.get_value(soc=[.3])
            [e.time_constant(soc=.4) for e in hv.rc_elements]
            trace.append('evaluate')
        compare(ctx, hv, node, msg)
    return wrote


def tree(ctx):
    rng = ctx.rng
    B = int(rng.integers(1, 5))
    for _ in range(20):
        _, hv, node = build_tree(rng, B)
        if list(node.leaves()):
            break
    # pydantic copies nothing, hence do not build from shared instances
    n = int(rng.integers(15, 60))
    ctx.obs('wide', int(any(k == 'tuple' and len(c) > 10 for m in node.subs() for _, k, c in m.fields)))
    wrote = drive(ctx, hv, node, n, 'tree')
    ctx.case(nontrivial=wrote > 0 and any('.' in p for p, *_ in node.leaves()), names=[p for p, *_ in node.leaves()], B=B, ops=n)


def circuits(ctx):
    rng = ctx.rng
    B = int(rng.integers(1, 5))
    hv, node = circuit_tree(rng, B)
    n = int(rng.integers(15, 60))
    wrote = drive(ctx, hv, node, n, 'circuit')
    ctx.obs('circuits')
    ctx.case(nontrivial=wrote > 0, names=[p for p, *_ in node.leaves()], B=B, ops=n)


WORKLOADS = [WL('tree', tree, 220, 3500), WL('circuits', circuits, 60, 1000)]
