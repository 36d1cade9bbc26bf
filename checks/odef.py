"""Reference probabilistic ODE filter (interlaced state, q+1 states per coordinate)."""
from symjax.harness import *
from checks.kalman import *


def ibm(h, q, dt, dim, sigma2=1):
    """Integrated Brownian motion transition of order q over dt."""
    from math import factorial
    n = q + 1
    A, Q = zeros(n, n), zeros(n, n)
    for i in range(n):
        for j in range(i, n):
            A[i, j] = dt ** (j - i) * Fraction(1, factorial(j - i)) if j > i else 1
        for j in range(n):
            p = 2 * q + 1 - i - j
            Q[i, j] = dt ** p * Fraction(1, p * factorial(q - i) * factorial(q - j)) * sigma2
    return zeros(n * dim), kron(eye(dim), Q), kron(eye(dim), A)


def ode_obs(h, d, n, ekf0, f="f", deps=None):
    """(residual, Jacobian) of x' - f(x, t) on the interlaced state."""
    def obs(m, t):
        x = m[::n]
        c = m[1::n] - h.uf_vec(f, x, t, deps=deps)
        H = zeros(d, n * d)
        J = h.uf_jac(f, x, t, deps=deps)
        for i in range(d):
            H[i, n * i + 1] = 1
            if not ekf0:
                for j in range(d):
                    H[i, n * j] = H[i, n * j] - J[i, j]
        return c, H
    return obs


def inter(*vs):
    return cat(*[vec(*[O(v)[i] for v in vs]) for i in range(len(vs[0]))])


def ref(h, x0, d, dt, N, ekf0, prior, noise=None, n=2, init=None, P0=None, deps=None):
    xi, Q, A = prior
    m = inter(x0, h.uf_vec("f", x0, 0 * dt, deps=deps)) if init is None else init
    P = zeros(n * d, n * d) if P0 is None else P0
    R = zeros(d, d) if noise is None else noise
    return filt(m, P, A, Q, xi, R, ode_obs(h, d, n, ekf0, deps=deps), [dt * (k + 1) for k in range(N)])
