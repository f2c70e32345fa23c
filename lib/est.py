"""Scenarios for online estimation of equivalent circuits, and reference estimators written from the equations"""
import copy

import numpy as np

from . import gen, ref

REL = {'q_t.base_values': .05, 'ce': .01, 'ocv.ocv_ref.base_values': .005, 'ocv.ocv_ref.reference_temperature': .02, 'ocv.ocv_ent.base_values': .05,
       'temperature_dependence_factor': .05, 'gamma': .05}


class Scenario:
    """A circuit, what is believed about it, what is to be estimated, and a history of inputs and measurements

    All plain numbers; the objects of /repo are built afresh by the methods.
    """

    def __init__(self, rng, n_steps=10, order='declared', names=None, rel=1., n_rc=None, has_c0=None, mode=None, scalar_p=.5, noise=1e-3, temps=None, zero_params=False,
                 corr=True, t0=None, no_rest=False, neg=False, **sched):
        self.mode = str(rng.choice(['constant', 'linear'])) if mode is None else mode
        self.spec = gen.circuit(rng, n_rc=n_rc, has_c0=has_c0, scalar_p=scalar_p, ce=None)
        self.spec['ce'] = np.minimum(self.spec['ce'], .97)
        if not zero_params:
            for k in ('h0',):
                self.spec[k]['gamma'] = np.maximum(self.spec[k]['gamma'], .5)
        if neg:
            self.spec['ent']['v'] = self.spec['ent']['v'] * rng.choice([-1, 1], self.spec['ent']['v'].shape)
        self.mem = gen.member(self.spec, 0)
        paths = gen.param_paths(self.spec)
        if names is None:
            k = int(rng.integers(0, min(len(paths), 5) + 1))
            pick = rng.choice(len(paths), k, replace=False)
            pick = np.sort(pick) if order == 'declared' else pick
            names = [paths[i] for i in pick]
        self.names = tuple(names)
        self.state0 = gen.state(rng, self.spec, lo=.4, hi=.6)
        qt = float(self.spec['qt'].flat[0])
        c0 = None if self.spec['c0'] is None else float(self.mem['c0']['v'].mean())
        if c0 is not None:
            self.state0['q0'] = rng.normal(0, .01 * c0, (1, 1))
        self.state0['i_rc'] = self.state0['i_rc'] * .2
        self.state0['hyst'] = self.state0['hyst'] * .3
        self.x0 = gen.state_matrix(self.state0)[0]
        self.sx = np.array([.02] + ([] if c0 is None else [.01 * c0]) + [.05 * qt] * len(self.spec['rc']) + [.003]) * rel
        self.sizes = [np.size(self.get(n)) for n in self.names]
        self.a0 = np.concatenate([np.atleast_1d(self.get(n)) for n in self.names]) if self.names else np.zeros(0)
        sa = []
        for n, s in zip(self.names, self.sizes):
            r = REL.get(n, REL.get(n.split('.')[-1], .05))
            v = np.atleast_1d(self.get(n))
            sa += list(r * np.maximum(np.abs(v), .3 * np.abs(v).max() if np.abs(v).max() else .1))
        self.sa = np.array(sa) * rel
        self.nx, self.na = len(self.x0), len(self.a0)
        self.corr = corr
        self.Px, self.Pa = self.cov(rng, self.sx), self.cov(rng, self.sa)
        self.Pj = self.cov(rng, np.concatenate([self.sx, self.sa]))
        q = 10 ** rng.uniform(-3, -1)
        self.Qx, self.Qa = self.cov(rng, self.sx * q), self.cov(rng, self.sa * q)
        self.Qj = self.cov(rng, np.concatenate([self.sx, self.sa]) * q)
        self.noise = noise * 10 ** rng.uniform(-.5, 1)
        self.R = np.array([[self.noise ** 2]])
        # history
        t0 = float(rng.choice([0., 1e4, rng.uniform(0, 1e5)])) if t0 is None else t0
        self.inputs = gen.schedule(rng, self.spec, n_steps, soc0=.5, mode=self.mode, t0=t0, temps=temps, **sched)
        if no_rest:  # the efficiency jumps between charge and discharge, i.e., at a current of zero
            for u in self.inputs:
                if abs(u['current']) < 1e-4 * qt:
                    u['current'] = float(rng.choice([-1, 1])) * 1e-3 * qt
        self.simulate(rng, self.sx * rng.normal(size=self.nx).clip(-2, 2), self.sa * rng.normal(size=self.na).clip(-2, 2))

    def simulate(self, rng, dx, da):
        """Measurements of a cell whose state and parameters differ from the initial guess by these amounts"""
        truth = self.params(self.a0 + da)
        self.volts = []
        st = self.unpack(self.x0 + dx)
        for i, u in enumerate(self.inputs):
            if i:
                st = ref.ecm_step(truth, st, self.inputs[i - 1], u, self.mode)
            self.volts.append(ref.ecm_voltage(truth, st, u) + float(rng.normal()) * self.noise)

    def cov(self, rng, s):
        n = len(s)
        if n == 0:
            return np.zeros((0, 0))
        C = np.eye(n)
        if self.corr and rng.random() < .7:
            M = rng.normal(size=(n, 2 * n))
            C = .5 * M @ M.T / (2 * n) + .5 * np.eye(n)
        return s[:, None] * C * s

    # -- parameters by name
    def get(self, name, mem=None):
        d, k = gen.locate(self.mem if mem is None else mem, name)
        return d[k]

    def params(self, values, base=None):
        """Specification of a member where the estimated parameters have these values"""
        out = copy.deepcopy(self.mem if base is None else base)
        i = 0
        for n, s in zip(self.names, self.sizes):
            d, k = gen.locate(out, n)
            v = np.asarray(values[i:i + s], float)
            d[k] = v.copy() if k == 'v' else float(v[0])
            if n == 'q_t.base_values':
                d[k] = float(v[0])
            i += s
        return out

    def unpack(self, x):
        i = 1
        out = dict(soc=float(x[0]), q0=None)
        if self.spec['c0'] is not None:
            out['q0'] = float(x[1])
            i = 2
        n = len(self.spec['rc'])
        out['i_rc'] = [float(v) for v in x[i:i + n]]
        out['hyst'] = float(x[i + n])
        return out

    def advance(self, x, a, up, un, base=None):
        return ref.state_vec(ref.ecm_step(self.params(a, base), self.unpack(x), up, un, self.mode))

    def voltage(self, x, a, u, base=None):
        return np.array([ref.ecm_voltage(self.params(a, base), self.unpack(x), u)])

    def in_domain(self, m, C, k=8.5):
        """Whether this belief over states and parameters stays k standard deviations within what the circuit is defined for"""
        sd = np.sqrt(np.clip(np.diag(C), 0, None))
        if not (-.29 < m[0] - k * sd[0] and m[0] + k * sd[0] < 1.29):
            return False
        i = self.nx
        for name, s in zip(self.names, self.sizes):
            lo = m[i:i + s] - k * sd[i:i + s]
            if (name == 'q_t.base_values' or name[0] in 'rc') and name.endswith('base_values') and (lo <= .1 * self.a0[i - self.nx:i - self.nx + s]).any():
                return False
            if name == 'ce' and (lo <= 0).any():
                return False
            i += s
        return True

    # -- objects of /repo
    def asoh(self):
        a = gen.build_asoh(self.spec)
        for n in self.names:
            a.mark_updatable(n)
        return a

    def transients(self):
        return gen.build_state(self.state0)

    def input(self, i):
        return gen.build_input(self.inputs[i])

    def measurement(self, i):
        from moirae.models.ecm.ins_outs import ECMMeasurement
        return ECMMeasurement(terminal_voltage=self.volts[i])

    def cell(self):
        from .ecm import model
        return model(self.mode)

    def state_names(self):
        """What the variables of the state are called, from the documentation of expand_names"""
        out = ['soc'] + ([] if self.spec['c0'] is None else ['q0'])
        n = len(self.spec['rc'])
        out += ['i_rc'] if n == 1 else [f'i_rc[{i}]' for i in range(n)]
        out.append('hyst')
        for name, s in zip(self.names, self.sizes):
            out += [name] if s == 1 else [f'{name}[{i}]' for i in range(s)]
        return tuple(out)

    def joint_covs(self, rng):
        """(keyword arguments for the covariances, joint prior, joint process noise)"""
        kw = {}
        if rng.random() < .5:
            kw['covariance_joint'] = P = self.Pj.copy()
            if rng.random() < .2:  # ignored when the joint covariance is there
                kw['covariance_transient'], kw['covariance_asoh'] = self.Px * 9, self.Pa * 9
        else:
            kw['covariance_transient'], kw['covariance_asoh'] = self.Px.copy(), self.Pa.copy()
            P = blk(self.Px, self.Pa)
        if rng.random() < .5:
            kw['joint_covariance_process_noise'] = Q = self.Qj.copy()
        else:
            kw['transient_covariance_process_noise'], kw['asoh_covariance_process_noise'] = self.Qx.copy(), self.Qa.copy()
            Q = blk(self.Qx, self.Qa)
        kw['covariance_sensor_noise'] = self.R.copy()
        return kw, P.copy(), Q.copy()

    def describe(self):
        return dict(gen.describe(self.spec), mode=self.mode, names=self.names, n=len(self.inputs))


def blk(*Ms):
    n = sum(len(M) for M in Ms)
    out = np.zeros((n, n))
    i = 0
    for M in Ms:
        out[i:i + len(M), i:i + len(M)] = M
        i += len(M)
    return out


def tuning(rng, L):
    kw = {}
    if rng.random() < .6:
        kw['alpha_param'] = float(rng.choice([1., .5, .1, rng.uniform(.05, 1)]))
    if rng.random() < .5:
        kw['beta_param'] = float(rng.choice([2., 0., rng.uniform(0, 4)]))
    if rng.random() < .5:
        kw['kappa_param'] = [0., 'automatic', float(rng.uniform(0, L)), 1.][int(rng.integers(4))]
    return kw


def sigma_points(m, P, Q, R, alpha=1., kappa=0.):
    n, o = len(m), len(R)
    L = 2 * n + o
    if kappa == 'automatic':
        kappa = 3 - L
    S = np.zeros((L, L))
    for i, M in ((0, P), (n, Q), (2 * n, R)):
        k = len(M)
        try:
            S[i:i + k, i:i + k] = np.linalg.cholesky(M)
        except np.linalg.LinAlgError:
            v, U = np.linalg.eigh(M)
            S[i:i + k, i:i + k] = U * np.sqrt(np.clip(v, 0, None))
    g = alpha * np.sqrt(L + kappa)
    z = np.concatenate([m, np.zeros(n + o)])
    return np.vstack([z, z + g * S.T, z - g * S.T])


def weights(L, alpha=1., beta=2., kappa=0.):
    if kappa == 'automatic':
        kappa = 3 - L
    lam = alpha ** 2 * (L + kappa) - L
    wm = np.full(2 * L + 1, .5 / (L + lam))
    wc = wm.copy()
    wm[0] = lam / (L + lam)
    wc[0] = wm[0] + 1 - alpha ** 2 + beta
    return wm, wc


def ukf_step(pts, n, o, tun, f, h, y):
    """Unscented filter from given sigma points. Returns dict with the posterior and intermediate quantities"""
    tun = dict(dict(alpha=1., beta=2., kappa=0.), **{k.replace('_param', ''): v for k, v in tun.items()})
    wm, wc = weights(2 * n + o, **tun)
    X = np.array([f(p[:n]) for p in pts]) + pts[:, n:2 * n]
    Y = np.array([h(x) for x in X]).reshape(len(pts), o) + pts[:, 2 * n:]
    mx, my = wm @ X, wm @ Y
    dx, dy = X - mx, Y - my
    Px, Py, Pxy = dx.T @ (wc[:, None] * dx), dy.T @ (wc[:, None] * dy), dx.T @ (wc[:, None] * dy)
    K = np.linalg.solve(Py.T, Pxy.T).T
    P = Px - K @ Py @ K.T
    return dict(m=mx + K @ (y - my), P=P, y=my, S=Py, Px=Px, K=K, psd=bool(np.linalg.eigvalsh(scaled(P, Px)).min() > 1e-7), wmax=np.abs(wm).max())


def scaled(P, like=None):
    d = np.sqrt(np.maximum(np.diag(P if like is None else like), 1e-300))
    return ((P + P.T) / 2) / np.outer(d, d)
