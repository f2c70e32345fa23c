"""C26: computations which run at the same time, or in other processes, give what they give alone"""
import copy
import json
import os
import pickle
import subprocess
import sys
import threading
import zlib

import numpy as np

from checks import C13, C18
from checks.C18 import KINDS, TOL, TOLS, Guard, alike, alone, choose, freeze, where
from lib.harness import REPO, VERIF, WL, Ctx

RULE = ('A case is a set of computations (stepping a model by hand, simulators, filters, joint and dual estimators, losses), created from the very same objects, which then run at the same time in '
        'threads. A monitor in every thread hands control over to another one after lines (or single instructions) of the library chosen at random, so that every step of one is cut in many places by '
        'steps of others. Every trace has to be that of the run alone, and the objects of the user keep their values. Other cases repeat computations in new processes with another order of '
        'hashing, and go on in another process with computations which were sent there half-way. Distinct = circuit, computations and sequence of hand-overs.')
REQUIRED = dict(alone_steps=500, threaded_steps=600, switches=50000, switches_within_step=40000, threads_run=150, instruction_level=8, line_level=15, own_objects=5, arguments_frozen=200, kinds_model=8, kinds_sim=8,
                kinds_filter=8, kinds_joint=8, kinds_dual=8, kinds_loss=8, kinds_offline=3, kinds_batch=3, shared_wrappers=5, other_process_steps=150, hash_orders=2, copied_half_way=15, copies_at_the_same_time=6, copied_steps=80, threaded_calls=300)
ASSUMPTIONS = ['switches between threads happen between lines or bytecode instructions of moirae, not within library calls (numpy, pydantic)']


class Offline:
    """Minimising a loss in a few iterations"""

    def __init__(self, plan, o, w=None):
        self.l = C18.Loss(plan, o).l

    def step(self, o, i):
        from moirae.estimators.offline.scipy import ScipyMinimizer
        if i > 1:
            return None
        s, a, r = ScipyMinimizer(self.l, method='Nelder-Mead', options=dict(maxiter=2, maxfev=6)).estimate()
        return s, a, np.array(r.x), float(r.fun)

    def final(self):
        return self.l.get_x0()


class Batch:
    """Simulating a batch, with a degrading parameter, and exporting what was recorded"""

    def __init__(self, plan, o, w=None):
        from moirae.simulator import Simulator
        s = plan.batch
        self.o = plan.shared_batch if o.get('common') else dict(m=s.model(), a=s.asoh(), x=s.state(), u=[s.input(v) for v in s.u])
        b = self.o
        deg = C13.degradation(s.key)
        self.s = Simulator(cell_model=b['m'], asoh=b['a'], transient_state=b['x'], initial_input=b['u'][0], keep_history=True, **({} if deg is None else dict(degradation_model=deg)))

    def step(self, o, i):
        u = self.o['u']
        return self.s.step(u[i]) if i < len(u) else None

    def final(self):
        return [self.s.asoh, self.s.to_dataframe().to_numpy().astype(float), [d.tables['raw_data'].to_numpy().astype(float) for d in self.s.to_batdata()]]


ALL = dict(KINDS, offline=Offline, batch=Batch)


class Baton:
    """Lets one of several threads run at a time; which one, is decided at random after lines of the library"""

    def __init__(self, n, rng, p, opcodes):
        self.rng, self.p, self.opcodes = rng, p, opcodes
        self.cond = threading.Condition()
        self.alive = set(range(n))
        self.turn = int(rng.integers(n))
        self.free = False  # when a thread waits for something a paused one holds
        self.switches, self.within, self.sig = 0, 0, 0
        self.prefix = str(REPO / 'moirae') + os.sep
        self.busy = [False] * n
        self.left = 0

    def wait(self, me):
        while self.turn != me and not self.free:
            if not self.cond.wait(timeout=20):
                self.free = True
                self.cond.notify_all()

    def maybe(self, me):
        if self.free or len(self.alive) < 2:
            return
        self.left -= 1
        if self.left > 0:
            return
        self.left = int(self.rng.geometric(self.p))
        with self.cond:
            others = sorted(self.alive - {me})
            self.turn = others[int(self.rng.integers(len(others)))]
            self.switches += 1
            self.within += self.busy[me]
            self.sig = zlib.crc32(bytes([self.turn]), self.sig)
            self.cond.notify_all()
            self.wait(me)

    def start(self, me):
        with self.cond:
            self.wait(me)

    def done(self, me):
        with self.cond:
            self.alive.discard(me)
            if self.turn == me and self.alive:
                self.turn = sorted(self.alive)[int(self.rng.integers(len(self.alive)))]
            self.cond.notify_all()

    def tracer(self, me):
        def local(frame, event, arg):
            if event == ('opcode' if self.opcodes else 'line'):
                self.maybe(me)
            return local

        def trace(frame, event, arg):
            if event != 'call' or not frame.f_code.co_filename.startswith(self.prefix):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return trace


def together(ctx, bodies, rng):
    """Run functions at the same time; returns their results"""
    opcodes = bool(rng.random() < .25)
    p = float(rng.choice([.3, .1, .03])) * (.3 if opcodes else 1.)
    b = Baton(len(bodies), rng, p, opcodes)
    out = [None] * len(bodies)

    def run(me):
        b.start(me)
        sys.settrace(b.tracer(me))
        try:
            out[me] = ('ok', bodies[me](lambda flag: b.busy.__setitem__(me, flag)))
        except Exception as e:
            out[me] = ('error', e)
        finally:
            sys.settrace(None)
            b.done(me)
    ts = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(len(bodies))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ctx.obs('switches', b.switches)
    ctx.obs('switches_within_step', b.within)
    ctx.obs('instruction_level' if opcodes else 'line_level')
    ctx.obs('threads_run', len(bodies))
    ctx.obs('set_free', int(b.free))
    return out, b.sig


def threads(ctx):
    rng = ctx.rng
    plan = C18.Plan(ctx)
    names = choose(ctx, plan)
    for k in ('offline', 'batch'):
        if rng.random() < .25:
            names[int(rng.integers(len(names)))] = k
            names += [k] * int(rng.random() < .5)
            ctx.obs(f'kinds_{k}')
    if 'batch' in names:
        plan.batch = b = C13.make(ctx, n=len(plan.sc.inputs))
        plan.shared_batch = dict(m=b.model(), a=b.asoh(), x=b.state(), u=[b.input(v) for v in b.u])
    want = {k: alone(ctx, plan, k, ALL) for k in dict.fromkeys(names)}
    o = plan.objects()
    o['common'] = True
    own = rng.random() < .3  # nothing in common: only the library itself
    os_ = [plan.objects() for _ in names] if own else [o] * len(names)
    guard = Guard(ctx, **{k: v for k, v in o.items() if k != 'cell'}, **({'batch_' + k: v for k, v in plan.shared_batch.items() if k != 'm'} if 'batch' in names else {}), data=plan.data.tables['raw_data'])
    w = None
    if not own and rng.random() < .4:
        w = plan.wrappers(o)
        ctx.obs('shared_wrappers')
    ctx.obs('own_objects', int(own))
    inside = rng.random() < .5  # whether they are also created at the same time

    def body(j, k):
        mk = lambda: ALL[k](plan, os_[j], None if k == 'dual' else w)  # dual estimators keep estimates in their wrappers
        made = None if inside else mk()

        def go(busy):
            p = made or mk()
            trace = []
            for i in range(1, len(want[k]) + 1):
                busy(True)
                r = p.final() if i == len(plan.sc.inputs) else p.step(os_[j], i)
                busy(False)
                trace.append((r, freeze(r)))
            return trace, getattr(p, 'changed', False)
        return go
    out, sig = together(ctx, [body(j, k) for j, k in enumerate(names)], rng)
    ctx.case(**plan.sc.describe(), kinds=names, schedule=sig)
    for j, k in enumerate(names):
        ctx.check(out[j][0] == 'ok', 'threads', f'{k} number {j}, run at the same time as {names}, raises {out[j][1]!r:.300}')
        trace, changed = out[j][1]
        for i, (ref, (r, f)) in enumerate(zip(want[k], trace), 1):
            tol = TOLS.get(k, TOL)
            ctx.check(alike(ref, f, tol), 'threads', f'{k} number {j} gives another result in step {i} when run at the same time as {names}: {where(ref, f, tol)[:300]}')
            ctx.check(alike(f, freeze(r)), 'returned-changed', f'what {k} returned was changed by other threads: {where(f, freeze(r), 0.)[:300]}')
            ctx.obs('threaded_steps')
        ctx.check(not changed, 'argument-changed', 'controls or measurements given to a filter, or the initial guess a loss was made with, were changed')
    guard.verify('argument-changed', f'after {names} at the same time')


def calls(ctx):
    """Single calls on the same model, health parameters and operators at the same time"""
    rng = ctx.rng
    given = {}
    lists = [C18.single_calls(ctx, given) for _ in range(int(rng.integers(2, 4)))]
    for ls in lists:
        rng.shuffle(ls)
    lists = [ls[:int(rng.integers(4, 14))] for ls in lists]
    want = [[freeze(fn(*copy.deepcopy(args))) for _, fn, args in ls] for ls in lists]
    if rng.random() < .5:  # objects which were not used before
        for k in ('m', 'a', 'op'):
            new = copy.deepcopy(given[k])
            lists = [[(label, fn, tuple(new if v is given[k] else v for v in args)) for label, fn, args in ls] for ls in lists]
    guards = [Guard(ctx, args=[list(args) for _, _, args in ls]) for ls in lists]

    def body(ls):
        def go(busy):
            busy(True)
            out = [fn(*args) for _, fn, args in ls]
            return [(r, freeze(r)) for r in out]
        return go
    out, sig = together(ctx, [body(ls) for ls in lists], rng)
    ctx.case(labels=[[c[0] for c in ls] for ls in lists], schedule=sig)
    for ls, ref, o in zip(lists, want, out):
        ctx.check(o[0] == 'ok', 'threads', f'single calls raise when made at the same time: {o[1]!r:.300}')
        for (label, *_), f, (r, g) in zip(ls, ref, o[1]):
            ctx.check(alike(f, g, TOL), 'threads', f'{label} gives another result when called at the same time: {where(f, g, TOL)[:300]}')
            ctx.obs('threaded_calls')
    for g in guards:
        g.verify('argument-changed', 'after calls at the same time')


# ------------------------------------------------------------------ other processes
def flat(o, out=None):
    """A snapshot as numbers and texts"""
    out = [] if out is None else out
    if isinstance(o, np.ndarray):
        out.append([list(o.shape), [None if v != v else float(v) for v in o.ravel()]] if o.dtype.kind == 'f' else [list(o.shape), [str(v) for v in o.ravel()]])
    elif isinstance(o, dict):
        for k in sorted(o, key=str):
            out.append(str(k))
            flat(o[k], out)
    elif isinstance(o, (list, tuple)):
        out.append(len(o))
        for v in o:
            flat(v, out)
    elif isinstance(o, (int, str, bool)) or o is None:
        out.append(o)
    elif isinstance(o, float):
        out.append([[], [None if o != o else o]])
    else:
        out.append(type(o).__name__)
    return out


def differ(a, b, tol):
    if len(a) != len(b):
        return f'{len(a)} -> {len(b)} items'
    for n, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, list) and isinstance(y, list) and len(x) == 2 and x[0] == y[0] and all(not isinstance(v, str) for v in x[1] + y[1]):
            p, q = (np.array([np.nan if v is None else v for v in s[1]], float) for s in (x, y))
            if not alike(p.reshape(-1), q.reshape(-1), tol):
                return f'item {n} ({a[max(0, n - 2):n]}): {x} -> {y}'
        elif x != y:
            return f'item {n} ({a[max(0, n - 2):n]}): {x} -> {y}'


def spawn(job, payload, hashseed):
    """Run a job of this module in a new process"""
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), VERIF_REPO=str(REPO))
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import sys; sys.dont_write_bytecode = True; sys.path.insert(0, sys.argv[1]); from lib.harness import install_repo; install_repo(); '
                        'from checks import C26; C26.serve(sys.argv[2])', str(VERIF), job], input=payload, capture_output=True, env=env, timeout=240)
    if r.returncode:
        return None, r.stderr.decode()[-600:]
    return r.stdout, ''


def serve(job):
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)  # whatever is printed meanwhile
    data = sys.stdin.buffer.read()
    if job == 'repeat':
        q = json.loads(data)
        res = []
        for s in range(q['n']):
            ctx = Ctx('C26', q['wl'], q['index'], q['seed'], q['tier'])
            ctx.rng = np.random.default_rng([q['key'], s])
            res.append(repeatable(ctx))
        out.write(json.dumps(res).encode())
    else:
        res = []
        for p, o, steps, n in map(pickle.loads, pickle.loads(data)):
            res.append([flat(freeze(p.final() if i == n else p.step(o, i))) for i in steps])
        out.write(json.dumps(res).encode())
    out.flush()


def repeatable(ctx):
    """Names and traces of computations chosen by the generator of the monitor"""
    plan = C18.Plan(ctx)
    names = list(dict.fromkeys(choose(ctx, plan)))
    a = plan.sc.asoh()
    head = [list(a.all_names), list(a.updatable_names), list(a.expand_names(a.updatable_names)), sorted(plan.data.tables['raw_data'].columns)]
    return [names, flat(head), {k: [flat(f) for f in alone(ctx, plan, k)] for k in names}]


def processes(ctx):
    """The same computations in a new process, with another order of hashing"""
    rng = ctx.rng
    key, n = int(rng.integers(2 ** 31)), 8 if ctx.thorough else 5
    ctx.case(key=key)
    mine = []
    for s in range(n):
        c = Ctx(ctx.pid, ctx.wl, ctx.index, ctx.seed, ctx.tier)
        c.rng = np.random.default_rng([key, s])
        mine.append(repeatable(c))
    for h in [int(v) for v in rng.choice(np.arange(1, 1000), 2, replace=False)]:
        got, err = spawn('repeat', json.dumps(dict(seed=ctx.seed, wl=ctx.wl, index=ctx.index, tier=ctx.tier, key=key, n=n)).encode(), h)
        ctx.check(got is not None, 'processes', f'computations fail in another process: {err}')
        ctx.obs('hash_orders')
        for (names, head, traces), (names2, head2, traces2) in zip(mine, json.loads(got)):
            ctx.check(head == head2, 'processes', f'names of health parameters in another process: {head} -> {head2}'[:600])
            for k in names:
                ctx.check(len(traces[k]) == len(traces2[k]), 'processes', f'{k} gets {len(traces[k])} -> {len(traces2[k])} steps far in another process')
                for i, (x, y) in enumerate(zip(traces[k], traces2[k]), 1):
                    d = differ(x, y, TOLS.get(k, TOL))
                    ctx.check(d is None, 'processes', f'{k} gives another result in step {i} in another process: {d}'[:500])
                    ctx.obs('other_process_steps')


def sent(ctx):
    """Computations which are copied half-way, or sent to another process, and go on in both"""
    rng = ctx.rng
    jobs, wants = [], []
    for _ in range(6):
        plan = C18.Plan(ctx)
        plan.in_place = False
        names = [k for k in dict.fromkeys(choose(ctx, plan)) if k != 'loss']
        for k in names:
            want = [flat(f) for f in alone(ctx, plan, k)]
            if len(want) < 2:
                continue
            o = plan.objects()
            p = KINDS[k](plan, o)
            cut = int(rng.integers(1, len(want)))
            for i in range(1, cut):
                p.step(o, i)
            n = len(plan.sc.inputs)
            blob = (p, o, list(range(cut, len(want) + 1)), n)
            runs = [(p, o, 'computation'), (*copy.deepcopy((p, o)), 'copy')]
            try:
                data = pickle.dumps(blob)
            except Exception:  # not everything has to be
                ctx.obs('cannot_be_sent')
            else:
                jobs.append(data)
                wants.append((k, cut, want))
                runs.append((*pickle.loads(data)[:2], 'loaded computation'))
            q, other = copy.deepcopy((p, o))  # which sees other data
            for u, y in zip(other['u'], other['y']):
                u.current, y.terminal_voltage = u.current * .5, y.terminal_voltage + .01
            runs.append((q, other, None))

            def go(q, ob, what):
                for i in range(cut, len(want) + 1):
                    try:
                        yield flat(freeze(q.final() if i == n else q.step(ob, i)))
                    except (np.linalg.LinAlgError, FloatingPointError, ValueError):
                        if what is not None:
                            raise
                        return
            if rng.random() < .5:  # all go on: in turns
                got = [[] for _ in runs]
                gens, order = [go(*r) for r in runs], rng.permutation(len(runs))
                for _ in range(cut, len(want) + 1):
                    for j in order:
                        got[j] += [f for _, f in zip(range(1), gens[j])]
            else:  # or at the same time
                out, _ = together(ctx, [lambda busy, r=r: list(go(*r)) for r in runs], rng)
                for (*_, what), r in zip(runs, out):
                    ctx.check(r[0] == 'ok', 'copied', f'{k}: the {what} raises {r[1]!r:.300} when it and others go on at the same time')
                got = [r[1] for r in out]
                ctx.obs('copies_at_the_same_time')
            for (*_, what), g in zip(runs, got):
                for i, (ref, f) in enumerate(zip(want[cut - 1:], g, strict=True) if what else (), cut):
                    d = differ(ref, f, TOLS.get(k, TOL))
                    ctx.check(d is None, 'copied', f'{k}: the {what} gives another result in step {i} after copying it in step {cut}: {d}'[:500])
                    ctx.obs('copied_steps')
            ctx.obs('copied_half_way')
    ctx.case(kinds=[w[:2] for w in wants], length=[len(w[2]) for w in wants], key=float(rng.random()))
    if not jobs:
        return
    got, err = spawn('go on', pickle.dumps(jobs), int(rng.integers(1000)))
    ctx.check(got is not None, 'sent', f'computations cannot go on in another process: {err}')
    for (k, cut, want), res in zip(wants, json.loads(got)):
        for i, f in enumerate(res, cut):
            d = differ(want[i - 1], f, TOLS.get(k, TOL))
            ctx.check(d is None, 'sent', f'{k} sent to another process in step {cut} gives another result in step {i}: {d}'[:500])
            ctx.obs('sent_steps')


WORKLOADS = [WL('threads', threads, 60, 1500), WL('calls', calls, 60, 1500), WL('processes', processes, 4, 60), WL('sent', sent, 4, 80)]
