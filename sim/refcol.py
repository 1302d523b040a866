"""Reference formulas for polynomials and collocation, in plain numpy."""
import numpy as np


def lagrange(tau, s):
    """Matrix L[k, j] = value of the j-th Lagrange polynomial of the nodes tau at s[k]."""
    tau, s = np.asarray(tau, float), np.atleast_1d(np.asarray(s, float))
    n = len(tau)
    L = np.ones((len(s), n))
    for j in range(n):
        for r in range(n):
            if r != j:
                L[:, j] *= (s - tau[r]) / (tau[j] - tau[r])
    return L


def lagrange_der(tau, s):
    """The same for derivatives."""
    tau, s = np.asarray(tau, float), np.atleast_1d(np.asarray(s, float))
    n = len(tau)
    D = np.zeros((len(s), n))
    for j in range(n):
        for m in range(n):
            if m == j:
                continue
            t = np.full(len(s), 1.0 / (tau[j] - tau[m]))
            for r in range(n):
                if r != j and r != m:
                    t *= (s - tau[r]) / (tau[j] - tau[r])
            D[:, j] += t
    return D


_GL = np.polynomial.legendre.leggauss(12)


def lagrange_int(tau, s):
    """Integrals from 0 to s (Gauss quadrature, exact for these degrees)."""
    s = np.atleast_1d(np.asarray(s, float))
    out = np.zeros((len(s), len(tau)))
    for k, e in enumerate(s):
        x = (_GL[0] + 1) / 2 * e
        out[k] = (_GL[1] / 2 * e) @ lagrange(tau, x)
    return out


_POINTS = {}


def points(order, method):
    """Nodes on (0, 1] or [0, 1]: legendre and radau as roots of polynomials, chebyshev by its formula."""
    key = order, method
    if key in _POINTS:
        return _POINTS[key]
    if method == 'chebyshev':
        x = (1 - np.cos(np.pi * np.arange(order + 1) / order)) / 2
    else:
        P = np.polynomial.legendre.Legendre.basis(order)
        if method == 'radau':
            P = P - np.polynomial.legendre.Legendre.basis(order - 1)
        x = np.sort(P.roots().real)
        for _ in range(4):                      # polish
            d = P.deriv()(x)
            x = x - P(x) / d
        x = (x + 1) / 2
        if method == 'radau':
            x[-1] = 1.0
    _POINTS[key] = x
    return x


def close(got, want, scale, tol=1e-7):
    got, want = np.asarray(got, float), np.asarray(want, float)
    return got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol * (1 + scale)))
