"""C13 the filter folds predict/update over the parameters, and reports the last innovation."""
from symjax.harness import *
from symjax.uf import uf, vec_fun
from checks.kalman import *


def compose(chk, n, ny, N, sqrt=False, sparse=False, still=False):
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    h = Harness(chk, f"compose_n{n}_obs{ny}_N{N}{'_sqrt' if sqrt else ''}{'_still' if still else ''}")
    m0 = h.arr("m", n)
    if sqrt:
        P0, Q, Rm = h.ltri("P", n, True), h.ltri("Q", n, True), h.ltri("R", ny, True)
    else:
        P0, Q, Rm = symmat(h, "P", n), symmat(h, "Q", n), symmat(h, "R", ny)
    sq = (lambda P: O(P) @ O(P).T) if sqrt else O
    A, x, ts, us = h.arr("A", n, n), h.arr("xi", n), h.arr("t", N), h.arr("u", N)
    if sparse:
        A, P0 = h.lift(O([[1, A[0, 1]], [0, 1]])), h.lift(zeros(2, 2))
        Q = h.lift(O([[Q[0, 0], 0], [0, Q[1, 1]]]))
        x = h.lift(O([x[0], 0]))

    if still:
        A, Q = h.lift(eye(n)), h.lift(zeros(n, n))

    def g(y, t, u):
        return jnp.stack([uf(f"g{i}", *[y[j] for j in range(n)], t, u) for i in range(ny)])

    def run(m0, P0, A, Q, x, Rm, ts, us):
        kw = dict(lower_sqrt=sqrt)
        full = ekf((m0, P0), g, A, Q, x, Rm, params=(ts, us), **kw)
        uc = ekf((m0, P0), g, A, Q, x, Rm, params=(ts, us), return_UC=True, **kw)
        y = (m0, P0)
        for k in range(N):
            prev = y
            y = ekf(y, g, A, Q, x, Rm, params=(ts[k:k + 1], us[k:k + 1]), **kw)
        return full, uc, y, prev, A, Q, x, Rm, ts, us

    r = h.encode("ekf over N parameters", run, m0, P0, A, Q, x, Rm, ts, us)
    h.eq("mean = N one-step filters", r, lambda o: O(o[0][0]), lambda o: O(o[2][0]))
    h.eq("covariance = N one-step filters", r, lambda o: sq(o[0][1]), lambda o: sq(o[2][1]))
    h.eq("mean unchanged by asking for the innovations", r, lambda o: O(o[1][0][0]), lambda o: O(o[0][0]))
    h.eq("covariance unchanged by asking for the innovations", r, lambda o: sq(o[1][0][1]), lambda o: sq(o[0][1]))

    def last(o, k):
        _, _, _, (m, P), A, Q, x, Rm, ts, us = [v if isinstance(v, (tuple, list)) else O(v) for v in o]
        m, P = O(m), O(P)
        if sqrt:
            P, Q, Rm = P @ P.T, Q @ Q.T, Rm @ Rm.T
        mp, Pp = A @ m + x, A @ P @ A.T + Q
        a = list(mp) + [ts[N - 1], us[N - 1]]
        H = O([[h.uf(f"g{i}", *a, deriv=[1 if q == j else 0 for q in range(n)] + [0, 0]) for j in range(n)] for i in range(ny)])
        return (H @ Pp @ H.T + Rm) if k == 0 else vec(*[h.uf(f"g{i}", *a) for i in range(ny)])

    h.eq("reported innovation covariance is that of the last step", r, lambda o: O(o[1][1]), lambda o: last(o, 0))
    h.eq("reported residual is that of the last step", r, lambda o: O(o[1][2]), lambda o: last(o, 1))
    chk.bound("state dim <= 2, observation dim <= 2, N <= 3 parameters (two parameter arrays), covariance and square-root form")


def n11_1(chk): compose(chk, 1, 1, 1)
def n11_3(chk): compose(chk, 1, 1, 3)
def n21_2(chk): compose(chk, 2, 1, 2, sparse=True)
def n22_1(chk): compose(chk, 2, 2, 1)
def s11_2(chk): compose(chk, 1, 1, 2, True)
def s21_1(chk): compose(chk, 2, 1, 1, True)
def n21_2f(chk): compose(chk, 2, 1, 2)
def s22_1(chk): compose(chk, 2, 2, 1, True, still=True)
n21_2f.thorough = True


def deep(chk, n, ny, N, sqrt=False):
    """Many parameters: numeric matrices, start mean and observation offsets arbitrary functions of the parameters."""
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    from checks import deep as dp
    h = Harness(chk, f"sized_n{n}_obs{ny}_N{N}{'_sqrt' if sqrt else ''}")
    m0, x, ts, us = h.arr("m", n), h.arr("xi", n), h.arr("t", N), h.arr("u", N)
    A, Hm = dp.nums(h, "A", n, n), dp.nums(h, "H", ny, n)
    if sqrt:
        P0, Q, Rm = [h.lift(O([[Fraction(q, 2)]])) for q in (3, 1, 2)]
    else:
        P0, Q, Rm = dp.spd(h, "P", n), dp.spd(h, "Q", n), dp.spd(h, "R", ny)

    def run(m0, P0, A, Q, x, Rm, Hm, ts, us):
        g = lambda y, t, u: Hm @ y + jnp.stack([uf(f"b{i}", t, u) for i in range(ny)])
        kw = dict(lower_sqrt=sqrt)
        full = ekf((m0, P0), g, A, Q, x, Rm, params=(ts, us), **kw)
        uc = ekf((m0, P0), g, A, Q, x, Rm, params=(ts, us), return_UC=True, **kw)
        return full, uc, m0, P0, A, Q, x, Rm, Hm, ts, us

    r = h.encode("ekf, sized", run, m0, P0, A, Q, x, Rm, Hm, ts, us)
    sq = (lambda P: O(P) @ O(P).T) if sqrt else O

    def spec(o):
        m0, P0, A, Q, x, Rm, Hm, ts, us = [O(v) for v in o[2:]]
        if sqrt:
            P0, Q, Rm = P0 @ P0.T, Q @ Q.T, Rm @ Rm.T
        b = lambda m, tu: (Hm @ m + vec(*[h.uf(f"b{i}", *tu) for i in range(ny)]), Hm)
        return filt(m0, P0, A, Q, x, Rm, b, list(zip(ts, us)))

    h.eq("mean", r, lambda o: O(o[0][0]), lambda o: spec(o)[0])
    h.eq("covariance", r, lambda o: sq(o[0][1]), lambda o: spec(o)[1])
    h.eq("mean when asked for the innovations", r, lambda o: O(o[1][0][0]), lambda o: spec(o)[0])
    h.eq("covariance when asked for the innovations", r, lambda o: sq(o[1][0][1]), lambda o: spec(o)[1])
    h.eq("last innovation covariance", r, lambda o: O(o[1][1]), lambda o: spec(o)[2][-1][0])
    h.eq("last residual", r, lambda o: O(o[1][2]), lambda o: spec(o)[2][-1][1])
    chk.bound("sized instances (numeric matrices; start mean, offsets and observation offsets arbitrary): state dim up to 4, observation dim up to 3, up to 33 parameters")


def z1(chk): deep(chk, 2, 1, 10)
def z2(chk): deep(chk, 4, 3, 4)
def z3(chk): deep(chk, 3, 2, 6)
def zs(chk): deep(chk, 1, 1, 8, True)
def z1_33(chk): deep(chk, 1, 1, 33)
def z2_17(chk): deep(chk, 2, 1, 17)
HARNESSES = ["n11_1", "n11_3", "n21_2", "n22_1", "s11_2", "s21_1", "s22_1", "n21_2f", "z1", "z2", "z3", "zs", "z1_33", "z2_17"]
