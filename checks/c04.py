"""C04 parabola assembled from fine parabolas."""
from symjax.harness import *


def fine(chk, dim, N):
    from bayesian_sde_solver.foster_polynomial import get_approx_fine, get_approx
    h = Harness(chk, f"fine_dim{dim}_N{N}")
    dt = h.scalar("dt", pos=True)

    def f(key, dt):
        co, ev = get_approx_fine(dim=dim, N=N)
        c = co(key, dt)
        return c, [ev(0.0 * dt, dt, *c), ev(dt / 2, dt, *c), ev(dt, dt, *c)], dt

    r = h.encode("get_approx_fine", f, h.key(), dt)
    d = dt.item()
    h.eq("end value is the sum of the fine increments", r, lambda o: O(o[1][2]), lambda o: O(o[0][2]).sum(axis=0))
    h.eq("coefficient is the end value", r, lambda o: O(o[0][0]), lambda o: O(o[1][2]))
    h.eq("starts at 0", r, lambda o: O(o[1][0]), zeros(dim))

    def avg(o):
        # fine piece k: starts at the running sum, has increment e0 and relative area e1 above the chord
        e0, e1 = O(o[0][2]), O(o[0][3])
        acc, s = zeros(dim), zeros(dim)
        for k in range(N):
            acc = acc + s + e0[k] * Fraction(1, 2) + e1[k]
            s = s + e0[k]
        return acc * Fraction(1, N)

    h.eq("time average of the coarse parabola is that of the fine pieces", r,
         lambda o: (O(o[1][0]) + 4 * O(o[1][1]) + O(o[1][2])) * Fraction(1, 6), avg)
    L = Law(h, r, lambda o: cat(o[0][2], o[0][3]))
    L.require_affine("Gaussian")
    I = eye(N * dim)
    Z = zeros(N * dim, N * dim)
    L.require("fine coefficients are Brownian: increments dt/N, areas dt/(12 N), independent", "cov",
              block([[I * (d / N), Z], [Z, I * (d / (12 * N))]]))
    L2 = Law(h, r, lambda o: cat(o[1][2], (O(o[1][0]) + 4 * O(o[1][1]) + O(o[1][2])) * Fraction(1, 6)))
    L2.require("mean", "mean", zeros(2 * dim))
    J = eye(dim)
    L2.require("coarse end value and time average have the exact Brownian law", "cov",
               block([[J * d, J * (d / 2)], [J * (d / 2), J * (d / 3)]]))
    chk.bound("N fine parabolas per interval: N <= 32 (dim 1), 17 (dim 2), 4 (dim 4), any dt > 0")


def same_curve(chk):
    """Coarse curve is evaluated exactly as the directly sampled parabola with the same coefficients."""
    from bayesian_sde_solver.foster_polynomial import get_approx_fine, get_approx_and_brownian, get_approx
    h = Harness(chk, "same_curve")
    dt, t = h.scalar("dt", pos=True), h.scalar("t")
    a, b = h.arr("a", 2), h.arr("b", 2)

    def f(t, dt, a, b):
        _, e0 = get_approx(dim=2)
        _, e1 = get_approx_fine(dim=2, N=3)
        _, e2 = get_approx_and_brownian(dim=2, N=3)
        z = jnp.zeros((3, 2))
        return e0(t, dt, a, b), e1(t, dt, a, b, z, z), e2(t, dt, a, b, z)

    r = h.encode("eval_parabola", f, t, dt, a, b)
    h.eq("fine", r, lambda o: o[1], lambda o: o[0])
    h.eq("path", r, lambda o: o[2], lambda o: o[0])


def d1n1(chk): fine(chk, 1, 1)
def d1n3(chk): fine(chk, 1, 3)
def d2n3(chk): fine(chk, 2, 3)
def d1n5(chk): fine(chk, 1, 5)
def d1n12(chk): fine(chk, 1, 12)
def d2n17(chk): fine(chk, 2, 17)
def d1n32(chk): fine(chk, 1, 32)
def d4n4(chk): fine(chk, 4, 4)
HARNESSES = ["d1n1", "d1n3", "d2n3", "d1n5", "same_curve", "d1n12", "d2n17", "d1n32", "d4n4"]
HARNESSES += at_literals(globals(), ['d2n3', 'same_curve'], ['dt'], (1, 0.25))
