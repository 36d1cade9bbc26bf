"""C11 the filter computes exact Kalman predict/update moments."""
from symjax.harness import *
from symjax.uf import uf, vec_fun
from checks.kalman import *


def onestep(chk, n, ny, time=True, full=False, xi=True, R=True):
    """One predict+update with arbitrary model matrices and an arbitrary nonlinear observation."""
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    h = Harness(chk, f"onestep_n{n}_obs{ny}{'_R' if R else ''}")
    m0, P0 = h.arr("m", n), symmat(h, "P", n)
    A = h.arr("A", n, n)
    Q = symmat(h, "Q", n)
    x = h.arr("xi", n)
    Rm = symmat(h, "R", ny)
    ts = h.arr("t", 1)
    g = vec_fun("g", n, out=ny)

    def run(m0, P0, A, Q, x, Rm, ts):
        return ekf((m0, P0), g, A, Q, x, Rm, params=(ts,)), m0, P0, A, Q, x, Rm, ts

    r = h.encode("ekf", run, m0, P0, A, Q, x, Rm, ts)

    def spec(o, k):
        _, m0, P0, A, Q, x, Rm, ts = [None] + [O(v) for v in o[1:]]
        mp, Pp = A @ m0 + x, A @ P0 @ A.T + Q
        H = h.uf_jac("g", mp, ts[0], out=ny)
        c = h.uf_vec("g", mp, ts[0], out=ny)
        m, C, S = kalman_update(mp, Pp, H, c, Rm)
        return (m, C)[k]

    h.eq("posterior mean", r, lambda o: O(o[0][0]), lambda o: spec(o, 0))
    h.eq("posterior covariance", r, lambda o: O(o[0][1]), lambda o: spec(o, 1))
    chk.bound("state dim <= 3, observation dim <= 2, one predict/update; any transition (A, Q, xi), any prior moments, any "
              "noise covariance R with S invertible, any smooth observation function g(x,t)")


def linear(chk, n, ny):
    """Linear observation: equals conditioning of the joint Gaussian (textbook formula)."""
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    h = Harness(chk, f"linear_n{n}_obs{ny}")
    m0, P0 = h.arr("m", n), symmat(h, "P", n)
    A, Q, x, Rm = h.arr("A", n, n), symmat(h, "Q", n), h.arr("xi", n), symmat(h, "R", ny)
    Hm, b = h.arr("H", ny, n), h.arr("b", ny)

    def run(m0, P0, A, Q, x, Rm, Hm, b):
        z = jnp.zeros((1,))
        return ekf((m0, P0), lambda y, t: Hm @ y - b, A, Q, x, Rm, params=(z,)), m0, P0, A, Q, x, Rm, Hm, b

    r = h.encode("ekf, linear observation", run, m0, P0, A, Q, x, Rm, Hm, b)

    def spec(o, k):
        m0, P0, A, Q, x, Rm, Hm, b = [O(v) for v in o[1:]]
        mp, Pp = A @ m0 + x, A @ P0 @ A.T + Q
        return kalman_update(mp, Pp, Hm, Hm @ mp - b, Rm)[k]

    h.eq("conditional mean", r, lambda o: O(o[0][0]), lambda o: spec(o, 0))
    h.eq("conditional covariance", r, lambda o: O(o[0][1]), lambda o: spec(o, 1))
    if ny == n == 1:
        h.eq("information form", r, lambda o: vec(1 / S(O(o[0][1])[0, 0])),
             lambda o: vec(1 / (S(o[3]) * S(o[3]) * S(o[2]) + S(o[4])) + S(o[7]) * S(o[7]) / S(o[6])))


def interpolates(chk, n):
    """Noise-free observation (R = 0): the posterior satisfies the observation exactly."""
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    h = Harness(chk, f"noisefree_n{n}")
    m0, P0 = h.arr("m", n), symmat(h, "P", n)
    A, Q, x = h.arr("A", n, n), symmat(h, "Q", n), h.arr("xi", n)
    Hm, b = h.arr("H", 1, n), h.arr("b", 1)

    def run(m0, P0, A, Q, x, Hm, b):
        return ekf((m0, P0), lambda y, t: Hm @ y - b, A, Q, x, jnp.zeros((1, 1)), params=(jnp.zeros((1,)),)), Hm, b

    r = h.encode("ekf, noise-free", run, m0, P0, A, Q, x, Hm, b)
    h.eq("H m = b", r, lambda o: O(o[1]) @ O(o[0][0]), lambda o: O(o[2]))
    h.eq("H P = 0", r, lambda o: O(o[1]) @ O(o[0][1]), zeros(1, n))


def sym(chk, n, ny):
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    h = Harness(chk, f"symmetric_n{n}_obs{ny}")
    m0, P0 = h.arr("m", n), symmat(h, "P", n)
    A, Q, x, Rm = h.arr("A", n, n), symmat(h, "Q", n), h.arr("xi", n), symmat(h, "R", ny)
    g = vec_fun("g", n, out=ny)
    r = h.encode("ekf", lambda m0, P0, A, Q, x, Rm, ts: ekf((m0, P0), g, A, Q, x, Rm, params=(ts,)), m0, P0, A, Q, x, Rm, h.arr("t", 1))
    h.eq("covariance symmetric", r, lambda o: O(o[1]), lambda o: O(o[1]).T)


def a21(chk): onestep(chk, 2, 1)
def a11(chk): onestep(chk, 1, 1)
def a22(chk): onestep(chk, 2, 2)
def a31(chk): onestep(chk, 3, 1)
def l11(chk): linear(chk, 1, 1)
def l21(chk): linear(chk, 2, 1)
def i2(chk): interpolates(chk, 2)
def i3(chk): interpolates(chk, 3)
def y2(chk): sym(chk, 2, 1)


def deep(chk, n, ny, N):
    """Larger models over several steps: numeric matrices, start mean, offsets and observation offsets arbitrary."""
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    from checks import deep as dp
    h = Harness(chk, f"sized_n{n}_obs{ny}_N{N}")
    m0, x, ts = h.arr("m", n), h.arr("xi", n), h.arr("t", N)
    P0, A, Q, Rm, Hm = dp.spd(h, "P", n), dp.nums(h, "A", n, n), dp.spd(h, "Q", n), dp.spd(h, "R", ny), dp.nums(h, "H", ny, n)

    def run(m0, P0, A, Q, x, Rm, Hm, ts):
        g = lambda y, t: Hm @ y + jnp.stack([uf(f"b{i}", t) for i in range(ny)])
        return ekf((m0, P0), g, A, Q, x, Rm, params=(ts,)), m0, P0, A, Q, x, Rm, Hm, ts

    r = h.encode("ekf, sized", run, m0, P0, A, Q, x, Rm, Hm, ts)

    def spec(o, k):
        m0, P0, A, Q, x, Rm, Hm, ts = [O(v) for v in o[1:]]
        return filt(m0, P0, A, Q, x, Rm, lambda m, t: (Hm @ m + vec(*[h.uf(f"b{i}", t) for i in range(ny)]), Hm), list(ts))[k]

    h.eq("posterior mean", r, lambda o: O(o[0][0]), lambda o: spec(o, 0))
    h.eq("posterior covariance", r, lambda o: O(o[0][1]), lambda o: spec(o, 1))
    chk.bound("sized instances (numeric matrices; start mean, offsets and observation offsets arbitrary): state dim up to 8, observation dim up to 5, up to 33 steps")


def z1(chk): deep(chk, 3, 1, 8)
def z2(chk): deep(chk, 4, 2, 4)
def z3(chk): deep(chk, 6, 4, 2)
def z4(chk): deep(chk, 1, 3, 2)
def z5(chk): deep(chk, 1, 1, 33)
def z6(chk): deep(chk, 8, 5, 1)
def z7(chk): deep(chk, 2, 2, 17)
HARNESSES = ["a11", "a21", "a31", "l11", "l21", "i2", "i3", "y2", "a22", "z1", "z2", "z3", "z4", "z5", "z6", "z7"]
