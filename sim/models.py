"""Drawn DAE models in two forms: CasADi expressions and numpy functions."""
import numpy as np
import casadi as cs
import casadi_extras as ce
from . import refcol as C


def gen_model(rng, kind=None, tdp=None, smooth=True):
    m = {'kind': kind or rng.choice(['semi', 'semi', 'impl']), 'nx': rng.randint(1, 3), 'nz': rng.choice([0, 0, 1, 2]),
         'nu': rng.choice([0, 1, 2]), 'np': rng.choice([0, 1, 2]), 'nq': rng.choice([0, 1, 2]),
         'ntdp': rng.choice([0, 0, 1, 2]) if tdp is None else tdp, 'seed': rng.randrange(1 << 30), 'nl': rng.random() < 0.6}
    return m


def gen_grid(rng, n):
    t = [rng.choice([0.0, 0.0, round(rng.uniform(-2, 2), 2)])]
    for _ in range(n):
        t.append(t[-1] + rng.choice([1.0, 0.5, round(rng.uniform(0.1, 1.2), 3)]))
    return t


class Model(object):
    def __init__(self, m):
        self.m = m
        g = np.random.Generator(np.random.PCG64(m['seed']))
        n = {'x': m['nx'], 'z': m['nz'], 'u': m['nu'], 'p': m['np'], 't': 1, 'tdp': m['ntdp']}
        self.n = n
        R = lambda r, c: np.round(g.uniform(-1, 1, (r, c)), 3)
        self.f = {k: R(m['nx'], n[k]) for k in n}          # right-hand side of x
        self.f['x'] *= m.get('fx', 1.0)
        self.a = {k: R(m['nz'], n[k]) * 0.5 for k in n}    # algebraic equations
        self.a['z'] = np.eye(m['nz']) * 2 + R(m['nz'], m['nz']) * 0.3
        self.q = {k: R(m['nq'], n[k]) for k in n}
        self.E = np.eye(m['nx']) * 1.5 + R(m['nx'], m['nx']) * 0.3
        self.w = R(m['nx'], m['nx'])

    def parts(self, v, sin, dot):
        """(rhs, alg, quad) for a dictionary v of columns; dot(matrix, column), sin(column)"""
        def lin(c):
            r = 0
            for k in ('x', 'z', 'u', 'p', 't', 'tdp'):
                if self.n[k]:
                    r = r + dot(c[k], v[k])
            return r
        rhs, alg, quad = lin(self.f), lin(self.a), lin(self.q)
        if self.m['nl']:
            rhs = rhs + 0.3 * sin(dot(self.w, v['x'])) * (1 + 0.1 * v['t'])
        return rhs, alg, quad

    def symbols(self):
        m = self.m
        return {'x': cs.MX.sym('x', m['nx']), 'z': cs.MX.sym('z', m['nz']), 'u': cs.MX.sym('u', m['nu']), 'p': cs.MX.sym('p', m['np']),
                't': cs.MX.sym('t'), 'tdp': cs.MX.sym('tdp', m['ntdp'])}

    def dae(self, model_call=None):
        """the model as the library takes it; model_call wraps the expressions in a callback"""
        m = self.m
        v = self.symbols()
        rhs, alg, quad = self.parts(v, cs.sin, lambda c, x: cs.mtimes(cs.DM(c), x))
        if model_call is not None:
            rhs = model_call(v)
        kw = {k: v[k] for k in v if self.n[k]}
        if m['nq']:
            kw['quad'] = quad
        if m['kind'] == 'semi':
            kw['ode'] = rhs
            if m['nz']:
                kw['alg'] = alg
            return ce.SemiExplicitDae(**kw)
        xd = cs.MX.sym('xdot', m['nx'])
        res = cs.mtimes(cs.DM(self.E), xd) - rhs
        return ce.ImplicitDae(xdot=xd, dae=cs.vertcat(res, alg) if m['nz'] else res, **kw)

    def residual(self, xdot, v):
        """(dae, quad) in numpy, all columns"""
        rhs, alg, quad = self.parts(v, np.sin, lambda c, x: c @ x)
        lead = self.E @ xdot if self.m['kind'] == 'impl' else xdot
        d = lead - rhs
        if self.m['nz']:
            d = np.vstack([d, alg])
        return d, (quad if self.m['nq'] else np.zeros((0, 1)))


def ref_points(t, order, method):
    c = C.points(order, method)
    t = np.asarray(t, float)
    return np.hstack([t[n] + (t[n + 1] - t[n]) * c for n in range(len(t) - 1)])


def ref_scheme(mod, t, order, method, tdp, w, repeat=False):
    """Everything a scheme defines, at the numbers w = {x, K, Z, u, p}; tdp has one column per collocation point."""
    c = C.points(order, method)
    t = np.asarray(t, float)
    N, M = len(t) - 1, order
    A = C.lagrange_int(c, c)
    b = C.lagrange_int(c, [1.0])[0]
    h = np.diff(t)
    tc = ref_points(t, order, method)
    out = {'tc': tc}
    X = np.zeros((mod.m['nx'], N * M))
    xf = np.zeros((mod.m['nx'], N))
    for n in range(N):
        Kn = w['K'][:, n * M:(n + 1) * M]
        for j in range(M):
            X[:, n * M + j] = w['x'][:, n] + h[n] * (Kn @ A[j])
        xf[:, n] = w['x'][:, n] + h[n] * (Kn @ b)
    d, quad = [], []
    for k in range(N * M):
        v = {'x': X[:, k:k + 1], 'z': w['Z'][:, k:k + 1], 'u': w['u'][:, k // M:k // M + 1], 'p': w['p'][:, k:k + 1] if repeat else w['p'],
             't': tc[k:k + 1][None, :], 'tdp': tdp[:, k:k + 1]}
        dk, qk = mod.residual(w['K'][:, k:k + 1], v)
        d.append(dk)
        quad.append(qk)
    quad = np.hstack(quad)
    q = [np.zeros(mod.m['nq'])]
    Q = np.zeros((mod.m['nq'], N * M))
    for n in range(N):
        qn = quad[:, n * M:(n + 1) * M]
        for j in range(M):
            Q[:, n * M + j] = q[-1] + h[n] * (qn @ A[j])
        q.append(q[-1] + h[n] * (qn @ b))
    out.update(collocation=np.hstack(d), continuity=xf - w['x'][:, 1:], X=X, quad=quad, q=np.array(q).T.reshape(mod.m['nq'], N + 1), Q=Q,
               param=np.diff(w['p'], axis=1), U=np.repeat(w['u'], M, axis=1))
    return out


def near_singular(mod, t, order, method, u, p):
    """are the collocation equations of a linear model nearly singular?"""
    m, N, M = mod.m, len(t) - 1, order
    sizes = [m['nx'] * (N + 1), m['nx'] * N * M, m['nz'] * N * M]
    tdp = np.zeros((m['ntdp'], N * M))

    def res(w):
        x, K, Z = np.split(w, np.cumsum(sizes)[:2])
        v = {'x': x.reshape(m['nx'], -1), 'K': K.reshape(m['nx'], -1), 'Z': Z.reshape(m['nz'], N * M), 'u': u, 'p': p.reshape(-1, 1)}
        r = ref_scheme(mod, t, M, method, tdp, v)
        return np.concatenate([r['collocation'].ravel(), r['continuity'].ravel(), v['x'][:, 0]])
    r0 = res(np.zeros(sum(sizes)))
    J = np.array([res(e) - r0 for e in np.eye(sum(sizes))])
    return not np.linalg.cond(J) < 200


def draw_point(mod, N, M, repeat, seed):
    g = np.random.Generator(np.random.PCG64(seed))
    m = mod.m
    U = lambda r, c: g.uniform(-2, 2, (r, c))
    return {'x': U(m['nx'], N + 1), 'K': U(m['nx'], N * M), 'Z': U(m['nz'], N * M), 'u': U(m['nu'], N), 'p': U(m['np'], N * M if repeat else 1)}
