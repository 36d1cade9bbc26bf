"""C03 parabola of a finely sampled Brownian path."""
from symjax.harness import *


def fine(chk, dim, N):
    from bayesian_sde_solver.foster_polynomial import get_approx_and_brownian
    h = Harness(chk, f"path_dim{dim}_N{N}")
    dt = h.scalar("dt", pos=True)

    def f(key, dt):
        co, ev = get_approx_and_brownian(dim=dim, N=N)
        c = co(key, dt)
        return c, [ev(0.0 * dt, dt, *c), ev(dt / 2, dt, *c), ev(dt, dt, *c)], dt, jnp.sqrt(dt / N)

    r = h.encode("get_approx_and_brownian", f, h.key(), dt)
    d = dt.item()

    def path(o):
        incs = O(o[0][2])
        W = [zeros(dim)]
        for k in range(N):
            W.append(W[-1] + incs[k] * S(o[3]))
        return W

    h.eq("increments add up to the end value", r, lambda o: O(o[0][0]), lambda o: path(o)[-1])
    h.eq("parabola starts at 0", r, lambda o: o[1][0], zeros(dim))
    h.eq("parabola ends at W(dt)", r, lambda o: O(o[1][2]), lambda o: path(o)[-1])

    def area_path(o):
        W = path(o)
        acc = zeros(dim)
        for k in range(N):
            acc = acc + (W[k] + W[k + 1]) * Fraction(1, 2)
        return acc * Fraction(1, N)

    h.eq("parabola has the time average of the sampled path", r,
         lambda o: (O(o[1][0]) + 4 * O(o[1][1]) + O(o[1][2])) * Fraction(1, 6), area_path)
    L = Law(h, r, lambda o: O(o[0][2]).reshape(-1))
    L.require_affine("increments Gaussian")
    L.require("increments centred", "mean", zeros(N * dim))
    L.require("increments standard and independent", "cov", eye(N * dim))
    # end value ~ N(0, dt); time average of the sampled path: cov dt/2 and variance dt/3 up to the grid
    L2 = Law(h, r, lambda o: cat(o[0][0], o[0][1]))
    I = eye(dim)
    vb = d / 2 * (1 - Fraction(1, N * N))
    L2.require("coefficients: independent, variances dt and dt/2 (1 - 1/N^2)", "cov",
               block([[I * d, I * h.V(0)], [I * h.V(0), I * vb]]))
    chk.bound("N fine increments per interval: N <= 100 (dim 1), 33 (dim 2), 8 (dim 3), 4 (dim 5), any dt > 0")


def d1n1(chk): fine(chk, 1, 1)
def d1n2(chk): fine(chk, 1, 2)
def d2n3(chk): fine(chk, 2, 3)
def d1n6(chk): fine(chk, 1, 6)
def d1n16(chk): fine(chk, 1, 16)
def d3n8(chk): fine(chk, 3, 8)
def d2n33(chk): fine(chk, 2, 33)
def d1n100(chk): fine(chk, 1, 100)
def d5n4(chk): fine(chk, 5, 4)
HARNESSES = ["d1n1", "d1n2", "d2n3", "d1n6", "d1n16", "d3n8", "d2n33", "d1n100", "d5n4"]
HARNESSES += at_literals(globals(), ['d2n3'], ['dt'], (1, 0.25))
