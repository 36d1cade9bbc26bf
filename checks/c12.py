"""C12 square-root filter == covariance filter."""
from symjax.harness import *
from symjax.uf import uf, vec_fun
from checks.kalman import *


def one(chk, n, ny, noise="R", prior="L", uc=False):
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    h = Harness(chk, f"sqrt_n{n}_obs{ny}_{noise}_{prior}{'_uc' if uc else ''}")
    m0 = h.arr("m", n)
    L0 = h.ltri("L", n, posdiag=True) if prior == "L" else h.lift(zeros(n, n))
    LQ = h.ltri("q", n, posdiag=True)
    LR = h.ltri("r", ny, posdiag=True) if noise == "R" else h.lift(zeros(ny, ny))
    A, x, ts = h.arr("A", n, n), h.arr("xi", n), h.arr("t", 1)
    g = vec_fun("g", n, out=ny)

    def run(m0, L0, LQ, LR, A, x, ts):
        s = ekf((m0, L0), g, A, LQ, x, LR, params=(ts,), lower_sqrt=True, return_UC=uc)
        c = ekf((m0, L0 @ L0.T), g, A, LQ @ LQ.T, x, LR @ LR.T, params=(ts,), return_UC=uc)
        return s, c

    r = h.encode("ekf, both forms", run, m0, L0, LQ, LR, A, x, ts)
    X = (lambda o: o[0]) if uc else (lambda o: o)
    h.eq("same mean", r, lambda o: O(X(o[0])[0]), lambda o: O(X(o[1])[0]))
    h.eq("factor of the same covariance", r, lambda o: O(X(o[0])[1]) @ O(X(o[0])[1]).T, lambda o: O(X(o[1])[1]))
    if uc:
        h.eq("same innovation covariance", r, lambda o: O(o[0][1]), lambda o: O(o[1][1]))
        h.eq("same residual", r, lambda o: O(o[0][2]), lambda o: O(o[1][2]))
    chk.bound("state dim <= 2, observation dim 1 (also 2 for one update with an affine observation; from a point without noise, 2 in general and state dim 3), one step; arbitrary lower-triangular factors of P, Q, R "
              "(including P = 0 and R = 0), arbitrary A, xi, smooth g(x,t)")


def two(chk, uc=False):
    """Two correlated observations of two states: affine observation C x + c(t), any C, A = I, Q = 0."""
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    h = Harness(chk, f"sqrt_n2_obs2_affine{'_uc' if uc else ''}")
    m0, x, ts, w = h.arr("m", 2), h.arr("xi", 2), h.arr("t", 1), h.arr("w", 2, 2)
    L0 = h.ltri("L", 2, posdiag=True)
    LR = h.ltri("r", 2, posdiag=True)
    g = lambda y, t: jnp.stack([uf("c0", t), uf("c1", t)])

    def run(m0, L0, LR, x, ts, w):
        gw = lambda y, t: g(y, t) + w @ y
        s = ekf((m0, L0), gw, jnp.eye(2), jnp.zeros((2, 2)), x, LR, params=(ts,), lower_sqrt=True, return_UC=uc)
        c = ekf((m0, L0 @ L0.T), gw, jnp.eye(2), jnp.zeros((2, 2)), x, LR @ LR.T, params=(ts,), return_UC=uc)
        return s, c

    r = h.encode("ekf, both forms", run, m0, L0, LR, x, ts, w)
    X = (lambda o: o[0]) if uc else (lambda o: o)
    h.eq("same mean", r, lambda o: O(X(o[0])[0]), lambda o: O(X(o[1])[0]))
    h.eq("factor of the same covariance", r, lambda o: O(X(o[0])[1]) @ O(X(o[0])[1]).T, lambda o: O(X(o[1])[1]))
    if uc:
        h.eq("same innovation covariance", r, lambda o: O(o[0][1]), lambda o: O(o[1][1]))
        h.eq("same residual", r, lambda o: O(o[0][2]), lambda o: O(o[1][2]))


def lower(chk, n):
    """Every returned factor is lower triangular (so it can be fed back as an initial factor)."""
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    h = Harness(chk, f"lower_n{n}")
    L0, LQ, LR = h.ltri("L", n, True), h.ltri("q", n, True), h.ltri("r", 1, True)
    r = h.encode("ekf sqrt", lambda m, L0, LQ, LR, A, x, ts: ekf((m, L0), vec_fun("g", n, out=1), A, LQ, x, LR, params=(ts,), lower_sqrt=True)[1],
                 h.arr("m", n), L0, LQ, LR, h.arr("A", n, n), h.arr("xi", n), h.arr("t", 1))
    h.eq("upper part zero", r, lambda o: vec(*[O(o)[i, j] for i in range(n) for j in range(i + 1, n)]), zeros(n * (n - 1) // 2))


def a11(chk): one(chk, 1, 1)
def a21(chk): one(chk, 2, 1)
def a21_0(chk): one(chk, 2, 1, noise="0")
def a21_00(chk): one(chk, 2, 1, noise="0", prior="0")
def u21(chk): one(chk, 2, 1, uc=True)
def w22(chk): two(chk)
def w22u(chk): two(chk, True)
def l2(chk): lower(chk, 2)
def a22(chk): one(chk, 2, 2, noise="0", prior="0")
def a31(chk): one(chk, 3, 1, noise="0", prior="0")

def deep(chk, n, ny, N, uc=False, rank=None):
    """Larger models over several steps: numeric factors, transition and observation matrices; start mean, offsets and observation offsets arbitrary."""
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    from checks import deep as dp
    h = Harness(chk, f"sized_n{n}_obs{ny}_N{N}{'_uc' if uc else ''}{'' if rank is None else f'_rank{rank}'}")
    low = lambda M: O([[M[i, j] if j <= i else M[i, j] * 0 for j in range(M.shape[1])] for i in range(M.shape[0])])
    L0, LQ, LR = [h.lift(low(dp.nums(h, c, k, k)) + 2 * eye(k)) for c, k in (("L", n), ("q", n), ("r", ny))]
    if rank is not None:                        # degenerate start: only the first components are uncertain
        L0 = L0.copy()
        L0[rank:] = h.lift(zeros(n - rank, n))
    A, Hm = dp.nums(h, "A", n, n), dp.nums(h, "H", ny, n)
    m0, x, ts = h.arr("m", n), h.arr("xi", n), h.arr("t", N)

    def run(m0, L0, LQ, LR, A, Hm, x, ts):
        g = lambda y, t: Hm @ y + jnp.stack([uf(f"b{i}", t) for i in range(ny)])
        s = ekf((m0, L0), g, A, LQ, x, LR, params=(ts,), lower_sqrt=True, return_UC=uc)
        c = ekf((m0, L0 @ L0.T), g, A, LQ @ LQ.T, x, LR @ LR.T, params=(ts,), return_UC=uc)
        return s, c

    r = h.encode("ekf, both forms, sized", run, m0, L0, LQ, LR, A, Hm, x, ts)
    X = (lambda o: o[0]) if uc else (lambda o: o)
    h.eq("same mean", r, lambda o: O(X(o[0])[0]), lambda o: O(X(o[1])[0]))
    h.eq("factor of the same covariance", r, lambda o: O(X(o[0])[1]) @ O(X(o[0])[1]).T, lambda o: O(X(o[1])[1]))
    if uc:
        h.eq("same innovation covariance", r, lambda o: O(o[0][1]), lambda o: O(o[1][1]))
        h.eq("same residual", r, lambda o: O(o[0][2]), lambda o: O(o[1][2]))
    chk.bound("sized instances (numeric factors and matrices; start mean, offsets and observation offsets arbitrary): state dim up to 6, observation dim up to 3, up to 8 steps")


def z11(chk): deep(chk, 1, 1, 3)
def z21(chk): deep(chk, 2, 1, 2)
def z31(chk): deep(chk, 3, 1, 1, True)
def z32(chk): deep(chk, 3, 2, 1)
def z41(chk): deep(chk, 4, 1, 1)
def z42r(chk): deep(chk, 4, 2, 1, True, 1)
def z18(chk): deep(chk, 1, 1, 8)
def z224(chk): deep(chk, 2, 2, 4)
def z63(chk): deep(chk, 6, 3, 2)
def z316(chk): deep(chk, 3, 1, 6, True)
HARNESSES = ["a11", "a21", "a21_0", "a21_00", "u21", "l2", "w22", "w22u", "a22", "a31", "z11", "z21", "z31", "z32", "z41", "z42r", "z18", "z224", "z63", "z316"]
