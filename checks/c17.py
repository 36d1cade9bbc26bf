"""C17 composing priors: zero padding and independent blocks."""
from symjax.harness import *
from symjax.uf import vec_fun
from checks.odef import *


def pad(chk, n, q):
    from bayesian_sde_solver.ode_solvers.probnum import pad_prior
    h = Harness(chk, f"pad_{n}_to_{q + 1}")
    xi, Q, A = h.arr("xi", n), h.arr("Q", n, n), h.arr("A", n, n)
    r = h.encode("pad_prior", lambda xi, Q, A: pad_prior((xi, Q, A), q), xi, Q, A)
    N = q + 1
    X, QQ, AA = zeros(N), zeros(N, N), zeros(N, N)
    X[:n], QQ[:n, :n], AA[:n, :n] = xi, Q, A
    for k, (nm, w) in enumerate((("shift", X), ("covariance", QQ), ("transition", AA))):
        h.eq(f"padded {nm}", r, lambda o: O(o[k]), w)
    chk.bound("padding n -> q+1 states for n <= 3, q <= 5; up to 5 blocks of 1 to 4 states; arbitrary entries; one filter step "
              "end to end for two coordinates")


def blocks(chk, sizes):
    from bayesian_sde_solver.ode_solvers.probnum import get_independently_factorized_prior as fac
    h = Harness(chk, f"blocks_{'_'.join(map(str, sizes))}")
    ps = tuple((h.arr(f"xi{i}_", n), h.arr(f"Q{i}_", n, n), h.arr(f"A{i}_", n, n)) for i, n in enumerate(sizes))
    r = h.encode("get_independently_factorized_prior", lambda *ps: fac(ps), *ps)
    N = sum(sizes)
    X, QQ, AA = zeros(N), zeros(N, N), zeros(N, N)
    k = 0
    for (xi, Q, A), n in zip(ps, sizes):
        X[k:k + n], QQ[k:k + n, k:k + n], AA[k:k + n, k:k + n] = xi, Q, A
        k += n
    for k, (nm, w) in enumerate((("shift", X), ("covariance", QQ), ("transition", AA))):
        h.eq(f"block {nm}", r, lambda o: O(o[k]), w)


def decoupled(chk, which, sqrt=False):
    """Two uncoupled equations with their own priors: the joint solver is the two one-dimensional solvers."""
    from bayesian_sde_solver.ode_solvers import ekf0, ekf1
    from bayesian_sde_solver.ode_solvers.probnum import get_independently_factorized_prior as fac
    sol = (ekf0, ekf1)[which]
    h = Harness(chk, f"decoupled_ekf{which}{'_sqrt' if sqrt else ''}")
    f = vec_fun("f", 2, deps=[[0], [1]])
    f0, f1 = (lambda x, t: f(jnp.array([x[0], 0.0]), t)[:1]), (lambda x, t: f(jnp.array([0.0, x[0]]), t)[1:])
    x0, dt = h.arr("x", 2), h.scalar("h", pos=True)
    ps = []
    for i in range(2):
        if sqrt:
            L = h.ltri(f"q{i}_", 2, True)
            Q = h.lift(L @ L.T)
        else:
            Q = symmat(h, f"Q{i}_", 2)
        ps.append((h.arr(f"xi{i}_", 2), Q, h.arr(f"A{i}_", 2, 2)))

    def run(x, dt, *ps):
        a = sol(None, x, f, dt, 1, sqrt=sqrt, prior=fac(ps))
        b = sol(None, x[:1], f0, dt, 1, sqrt=sqrt, prior=ps[0])
        c = sol(None, x[1:], f1, dt, 1, sqrt=sqrt, prior=ps[1])
        return a, jnp.concatenate([b, c])

    r = h.encode(f"ekf{which} on two uncoupled equations", run, x0, dt, *ps)
    h.eq("joint = separate", r, lambda o: O(o[0]), lambda o: O(o[1]))


def padded_solver(chk, which):
    """A once-differentiable prior padded with a dead state gives the solver the same answer."""
    from bayesian_sde_solver.ode_solvers import ekf0, ekf1
    from bayesian_sde_solver.ode_solvers.probnum import pad_prior
    sol = (ekf0, ekf1)[which]
    h = Harness(chk, f"padded_ekf{which}")
    f = vec_fun("f", 1)
    x0, dt = h.arr("x", 1), h.scalar("h", pos=True)
    xi, Q, A = h.arr("xi", 2), symmat(h, "Q", 2), h.arr("A", 2, 2)

    def run(x, dt, xi, Q, A):
        return (sol(None, x, f, dt, 1, sqrt=False, prior=pad_prior((xi, Q, A), 2)),
                sol(None, x, f, dt, 1, sqrt=False, prior=(xi, Q, A)))

    r = h.encode(f"ekf{which} with a padded prior", run, x0, dt, xi, Q, A)
    h.eq("padded = unpadded", r, lambda o: O(o[0]), lambda o: O(o[1]))


def p12(chk): pad(chk, 1, 1)
def p22(chk): pad(chk, 2, 2)
def p24(chk): pad(chk, 2, 4)
def p33(chk): pad(chk, 3, 3)
def b2(chk): blocks(chk, (2, 2))
def b123(chk): blocks(chk, (1, 2, 3))
def b32(chk): blocks(chk, (3, 2))
def b1(chk): blocks(chk, (2,))
def e0(chk): decoupled(chk, 0)
def e1(chk): decoupled(chk, 1)
def e0s(chk): decoupled(chk, 0, True)
def s0(chk): padded_solver(chk, 0)
def s1(chk): padded_solver(chk, 1)
def p15(chk): pad(chk, 1, 5)
def p35(chk): pad(chk, 3, 5)
def b5(chk): blocks(chk, (2, 1, 3, 2, 2))
def b44(chk): blocks(chk, (4, 4))
HARNESSES = ["p12", "p22", "p24", "p33", "b2", "b123", "b32", "b1", "e0", "e1", "e0s", "s0", "s1", "p15", "p35", "b5", "b44"]
