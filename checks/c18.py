"""C18 integrated Brownian motion / integrated Ornstein-Uhlenbeck prior."""
from symjax.harness import *
from checks.odef import ibm


def closed(chk, q, dim):
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function as tf
    h = Harness(chk, f"ibm_q{q}_dim{dim}")
    dt, sg = h.scalar("dt", pos=True), h.scalar("sigma")
    r = h.encode("IOUP_transition_function, theta=0", lambda dt, sg: (tf(theta=0.0, sigma=sg, q=q, dt=dt, dim=dim), dt, sg), dt, sg)

    def want(o):
        return ibm(h, q, S(o[1]), dim, S(o[2]) * S(o[2]))

    for k, nm in enumerate(("zero mean shift", "covariance", "transition matrix")):
        h.eq(nm, r, lambda o: O(o[0][k]), lambda o: want(o)[k])
    chk.bound("q <= 8, dim <= 8, arbitrary dt > 0, sigma, theta")


def semigroup(chk, q, dim):
    """Two steps s then t equal one step s+t (both moments)."""
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function as tf
    h = Harness(chk, f"semigroup_q{q}")
    s, t, sg = h.scalar("s", pos=True), h.scalar("t", pos=True), h.scalar("sigma")

    def run(s, t, sg):
        return tuple(tf(theta=0.0, sigma=sg, q=q, dt=u, dim=dim) for u in (s, t, s + t))

    r = h.encode("IOUP_transition_function at s, t, s+t", run, s, t, sg)
    h.eq("A(s+t) = A(t) A(s)", r, lambda o: O(o[2][2]), lambda o: O(o[1][2]) @ O(o[0][2]))
    h.eq("Q(s+t) = A(t) Q(s) A(t)^T + Q(t)", r, lambda o: O(o[2][1]), lambda o: O(o[1][2]) @ O(o[0][1]) @ O(o[1][2]).T + O(o[1][1]))


def ou(chk, q, dim):
    """theta != 0: A = exp(F dt) of the integrated OU drift, semigroup in dt; Q at leading order in dt."""
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function as tf
    h = Harness(chk, f"ioup_q{q}_dim{dim}")
    s, t, sg, th = h.scalar("s", pos=True), h.scalar("t", pos=True), h.scalar("sigma"), h.scalar("theta", pos=True)

    def run(s, t, sg, th):
        return tuple(tf(theta=th, sigma=sg, q=q, dt=u, dim=dim) for u in (s, t, s + t)), s, t, th, sg, jnp.exp(-th * s)

    r = h.encode("IOUP_transition_function", run, s, t, sg, th)
    h.eq("A(s+t) = A(t) A(s)", r, lambda o: O(o[0][2][2]), lambda o: O(o[0][1][2]) @ O(o[0][0][2]))

    def want(o):
        s, th, e = S(o[1]), S(o[3]), S(o[5])
        n = q + 1
        A = zeros(n, n)
        from math import factorial
        for i in range(q):
            for j in range(i, q):
                A[i, j] = s ** (j - i) * Fraction(1, factorial(j - i)) if j > i else 1
            # i-fold integral of the OU velocity: sum of the remainder of exp(-theta s)
            k = q - i
            acc = e
            for m in range(k):
                acc = acc - (-th * s) ** m * Fraction(1, factorial(m)) if m else acc - 1
            A[i, q] = acc / ((-th) ** k)
        A[q, q] = e
        return kron(eye(dim), A)

    h.eq("transition matrix", r, lambda o: O(o[0][0][2]), want)
    h.eq("zero mean shift", r, lambda o: O(o[0][0][0]), zeros(dim * (q + 1)))
    h.eq("leading-order covariance", r, lambda o: O(o[0][0][1]), lambda o: ibm(h, q, S(o[1]), dim, S(o[4]) * S(o[4]))[1])


def c11(chk): closed(chk, 1, 1)
def c12(chk): closed(chk, 1, 2)
def c23(chk): closed(chk, 2, 3)
def c32(chk): closed(chk, 3, 2)
def c41(chk): closed(chk, 4, 1)
def s1(chk): semigroup(chk, 1, 2)
def s2(chk): semigroup(chk, 2, 1)
def s3(chk): semigroup(chk, 3, 1)
def o1(chk): ou(chk, 1, 2)
def o2(chk): ou(chk, 2, 1)
def o3(chk): ou(chk, 3, 1)
def c24(chk): closed(chk, 2, 5)
def c61(chk): closed(chk, 6, 1)
def s12(chk): semigroup(chk, 2, 3)
def c81(chk): closed(chk, 8, 1)
def c18(chk): closed(chk, 1, 8)
def s41(chk): semigroup(chk, 4, 1)
def o41(chk): ou(chk, 4, 1)
HARNESSES = ["c11", "c12", "c23", "c32", "c41", "s1", "s2", "s3", "o1", "o2", "o3", "c24", "c61", "s12", "c81", "c18", "s41", "o41"]
HARNESSES += at_literals(globals(), ['c23', 'o2'], ['dt', 'theta', 'sigma'], (1, 0.25))
