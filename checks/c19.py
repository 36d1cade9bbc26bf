"""C19 Matern prior."""
import contextlib
from math import comb, factorial
from symjax.harness import *


@contextlib.contextmanager
def coarse(n=4):
    """Fewer quadrature nodes in the generic transition (its default is 10000), while encoding."""
    import sys
    mod = sys.modules["bayesian_sde_solver.ode_solvers.probnum.transition_function"]
    fn = mod.transition_function
    old, okw = fn.__defaults__, fn.__kwdefaults__
    few = lambda v: n if type(v) is int and v > 100 else v
    fn.__defaults__ = old and tuple(map(few, old))
    fn.__kwdefaults__ = okw and {k: few(v) for k, v in okw.items()}
    try:
        yield
    finally:
        fn.__defaults__, fn.__kwdefaults__ = old, okw


def companion(lam, k):
    """companion matrix of (x + lam)^(k+1)."""
    n = k + 1
    F = zeros(n, n)
    for i in range(k):
        F[i, i + 1] = 1
    for i in range(n):
        F[k, i] = -comb(n, i) * lam ** (n - i)
    return F


def expA(lam, k, t, e):
    """exp(F t) = e^{-lam t} sum_j (F + lam I)^j t^j / j!  (F + lam I nilpotent)."""
    n = k + 1
    N = companion(lam, k) + eye(n) * lam
    acc, P = eye(n) * e, eye(n)
    for j in range(1, n):
        P = P @ N
        acc = acc + P * (t ** j * e * Fraction(1, factorial(j)))
    return acc


def transition(chk, k, dim, mc=False):
    from bayesian_sde_solver.ode_solvers.probnum import matern_transition_function as tf
    h = Harness(chk, f"A_k{k}_dim{dim}{'_mc' if mc else ''}")
    dt, eta, ell = h.scalar("dt", lo=0.1, hi=0.8), h.scalar("eta", pos=True), h.scalar("ell", pos=True, lo=0.7, hi=2.0)

    def run(dt, eta, ell):
        lam = jnp.sqrt(2 * k + 1.0) / ell
        return tf(k, eta, ell, dt, dim, mc), lam, dt, jnp.exp(-lam * dt)

    with coarse():
        r = h.encode(f"matern_transition_function k={k}", run, dt, eta, ell)
        h.eq("transition matrix exp(F dt)", r, lambda o: O(o[0][2]),
             lambda o: kron(eye(dim), expA(S(o[1]), k, S(o[2]), S(o[3]))))
        h.eq("zero mean shift", r, lambda o: O(o[0][0]), zeros(dim * (k + 1)))
        h.eq("same independent prior per coordinate", r, lambda o: O(o[0][1]),
             lambda o: kron(eye(dim), O(o[0][1])[:k + 1, :k + 1]))
        h.eq("covariance symmetric", r, lambda o: O(o[0][1]), lambda o: O(o[0][1]).T)
    chk.bound("k <= 4 (nu = k + 1/2), dim <= 4, arbitrary dt, magnitude, length > 0; the numerical quadrature inside is encoded "
              "with 4 nodes (its accuracy is C20)")


def closedQ(chk, dim):
    """nu = 3/2: exact covariance, from stationarity Q = Pinf - A Pinf A^T, and semigroup."""
    from bayesian_sde_solver.ode_solvers.probnum import matern_transition_function as tf
    h = Harness(chk, f"Q_k1_dim{dim}")
    s, t, eta, ell = h.scalar("s", pos=True, lo=0.2, hi=0.9), h.scalar("t", pos=True, lo=0.2, hi=0.9), h.scalar("eta", pos=True), h.scalar("ell", pos=True, lo=0.7, hi=2.0)

    def run(s, t, eta, ell):
        lam = jnp.sqrt(3.0) / ell
        return tf(1, eta, ell, s, dim), tf(1, eta, ell, t, dim), tf(1, eta, ell, s + t, dim), lam, eta

    r = h.encode("matern_transition_function k=1 at s, t, s+t", run, s, t, eta, ell)

    def want(o):
        lam, eta, A = S(o[3]), S(o[4]), O(o[0][2])
        P = kron(eye(dim), tomat([[eta * eta / (4 * lam ** 3), 0], [0, eta * eta / (4 * lam)]]))
        return P - A @ P @ A.T

    h.eq("stationary variance", r, lambda o: O(o[0][1]), want)
    h.eq("A(s+t) = A(t) A(s)", r, lambda o: O(o[2][2]), lambda o: O(o[1][2]) @ O(o[0][2]))
    h.eq("Q(s+t) = A(t) Q(s) A(t)^T + Q(t)", r, lambda o: O(o[2][1]), lambda o: O(o[1][2]) @ O(o[0][1]) @ O(o[1][2]).T + O(o[1][1]))


def quad(chk, k, mc=False):
    """Other orders: the generic linear-SDE transition of the Matern state-space model (F, L)."""
    from bayesian_sde_solver.ode_solvers.probnum import matern_transition_function as tf, transition_function as gen
    h = Harness(chk, f"Q_k{k}{'_mc' if mc else ''}")
    dt, eta, ell = h.scalar("dt", lo=0.1, hi=0.8), h.scalar("eta", pos=True), h.scalar("ell", pos=True, lo=0.7, hi=2.0)
    n = k + 1

    def run(dt, eta, ell):
        lam = jnp.sqrt(2 * k + 1.0) / ell
        F = jnp.zeros((n, n))
        for i in range(k):
            F = F.at[i, i + 1].set(1.0)
        for i in range(n):
            F = F.at[k, i].set(-comb(n, i) * lam ** (n - i))
        L = jnp.zeros((n, 1)).at[k, 0].set(eta)
        return tf(k, eta, ell, dt, 1, mc), gen(F, jnp.zeros((n,)), L, dt)

    with coarse():
        r = h.encode(f"matern_transition_function k={k} and the generic transition", run, dt, eta, ell)
        h.eq("covariance of dX = F X dt + L dW", r, lambda o: O(o[0][1]), lambda o: O(o[1][1]))
        h.eq("transition of dX = F X dt", r, lambda o: O(o[0][2]), lambda o: O(o[1][2]))


def a0(chk): transition(chk, 0, 1)
def a0_2(chk): transition(chk, 0, 2)
def a1(chk): transition(chk, 1, 2)
def a1mc(chk): transition(chk, 1, 2, True)
def a2(chk): transition(chk, 2, 2)
def a3(chk): transition(chk, 3, 1)
def q1(chk): closedQ(chk, 1)
def q1_2(chk): closedQ(chk, 2)
def q0(chk): quad(chk, 0)
def q1mc(chk): quad(chk, 1, True)
def q2(chk): quad(chk, 2)
def q3(chk): quad(chk, 3)
def a1_4(chk): transition(chk, 1, 4)
def a2_3(chk): transition(chk, 2, 3)
def a3_2(chk): transition(chk, 3, 2)
def a4(chk): transition(chk, 4, 1)
def q4(chk): quad(chk, 4)
HARNESSES = ["a0", "a0_2", "a1", "a1mc", "a2", "a3", "q1", "q1_2", "q0", "q1mc", "q2", "q3", "a1_4", "a2_3", "a3_2", "a4", "q4"]
HARNESSES += at_literals(globals(), ['a1', 'q1', 'a2'], ['dt', 'eta', 'ell'], (1, 0.25))
