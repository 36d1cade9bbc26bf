"""C20 generic linear-SDE transition (xi, Q, A)."""
from symjax.harness import *


def pw(P, k, s):
    return sum(c * s ** i for i, c in enumerate(P))


def pmul(p, q):
    r = [0] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] = r[i + j] + a * b
    return r


def integ(p, h):
    return sum(c * h ** (i + 1) * Fraction(1, i + 1) for i, c in enumerate(p))


def d2(p, s):
    return sum(c * s ** (i - 2) * (i * (i - 1)) for i, c in enumerate(p) if i >= 2)


def nilpotent(chk, n, nodes, m=1):
    """dX = (F X + u) dt + L dW with strictly upper triangular F: everything is polynomial in h."""
    from bayesian_sde_solver.ode_solvers.probnum import transition_function as tf
    h = Harness(chk, f"nilpotent{n}_m{m}_nodes{nodes or 'default'}")
    dt = h.scalar("h", pos=True, lo=0.2, hi=0.9)
    u, L = h.arr("u", n, pos=True), h.arr("l", n, m, pos=True)
    F = h.lift(zeros(n, n))
    for i in range(n):
        for j in range(i + 1, n):
            F[i, j] = h.ctx.var(f"F{i}{j}", True)

    def run(F, u, L, dt):
        kw = () if nodes is None else (nodes,)
        return tf(F, u, L, dt, *kw), F, u, L, dt

    r = h.encode("transition_function", run, F, u, L, dt)

    def expo(F):
        """entries of exp(F s) as coefficient lists in s."""
        P, f = eye(n), 1
        E = [[[P[i, j]] for j in range(n)] for i in range(n)]
        for k in range(1, n):
            P = P @ F
            f *= k
            for i in range(n):
                for j in range(n):
                    E[i][j].append(P[i, j] * Fraction(1, f))
        return E

    def A(o):
        E, s = expo(O(o[1])), S(o[4])
        return tomat([[pw(E[i][j], 0, s) for j in range(n)] for i in range(n)])

    h.eq("A = exp(F h)", r, lambda o: O(o[0][2]), A)
    nn = nodes or 10000

    def parts(o):
        E, u, L, s = expo(O(o[1])), O(o[2]), O(o[3]), S(o[4])
        eu = [_lin(E[i], u, n) for i in range(n)]
        eL = [[_lin(E[i], L[:, q], n) for q in range(m)] for i in range(n)]
        qq = [[_sumpoly([pmul(eL[i][q], eL[j][q]) for q in range(m)]) for j in range(n)] for i in range(n)]
        return eu, qq, s

    def errs(o):
        eu, qq, s = parts(o)
        got, bnd = [], []
        for i in range(n):
            got.append(O(o[0][0])[i] - integ(eu[i], s))
            bnd.append(d2(eu[i], s) * s ** 3 * Fraction(1, 12 * (nn - 1) ** 2))
        for i in range(n):
            for j in range(n):
                got.append(O(o[0][1])[i, j] - integ(qq[i][j], s))
                bnd.append(d2(qq[i][j], s) * s ** 3 * Fraction(1, 12 * (nn - 1) ** 2))
        return vec(*got), vec(*bnd)

    if nodes is None:
        def bound(o):
            _, b = errs(o)
            return b * 10
    else:
        def bound(o):
            return errs(o)[1]
    h.ge0("xi and Q above the exact integrals by at most the second-order quadrature bound", r, lambda o: bound(o) - errs(o)[0])
    h.ge0("xi and Q below by at most the bound", r, lambda o: bound(o) + errs(o)[0])
    h.eq("Q symmetric", r, lambda o: O(o[0][1]), lambda o: O(o[0][1]).T)
    chk.bound("strictly upper triangular F of size 2 and 3 with arbitrary positive entries (exact polynomial integrals), "
              "1-2 noise sources, 2, 3 and 5 quadrature nodes and the default number of nodes; A for arbitrary 1x1 and 2x2 F")


def _lin(row, v, n):
    return [sum(row[j][k] * v[j] for j in range(n)) for k in range(len(row[0]))]


def _sumpoly(ps):
    return [sum(p[k] for p in ps) for k in range(len(ps[0]))]


def constant(chk):
    """F = 0: xi = u h, Q = L L^T h, A = I exactly, whatever the number of nodes."""
    from bayesian_sde_solver.ode_solvers.probnum import transition_function as tf
    h = Harness(chk, "F0")
    dt, u, L = h.scalar("h", pos=True), h.arr("u", 2), h.arr("l", 2, 2)
    for nodes in (2, 4):
        r = h.encode("transition_function F=0", lambda u, L, dt: (tf(jnp.zeros((2, 2)), u, L, dt, nodes), u, L, dt), u, L, dt)
        h.eq(f"xi {nodes}", r, lambda o: O(o[0][0]), lambda o: O(o[1]) * S(o[3]))
        h.eq(f"Q {nodes}", r, lambda o: O(o[0][1]), lambda o: O(o[2]) @ O(o[2]).T * S(o[3]))
        h.eq(f"A {nodes}", r, lambda o: O(o[0][2]), eye(2))


def general(chk, n):
    """Arbitrary F: A = exp(F h); scaling of u and L."""
    from bayesian_sde_solver.ode_solvers.probnum import transition_function as tf
    h = Harness(chk, f"general{n}")
    F, u, L, dt, c = h.arr("F", n, n), h.arr("u", n), h.arr("l", n, 1), h.scalar("h", pos=True), h.scalar("c")

    def run(F, u, L, dt, c):
        return tf(F, u, L, dt, 4), tf(F, c * u, c * L, dt, 4), jax.scipy.linalg.expm(F * dt), c, tf(-F, u, L, dt, 4)

    r = h.encode("transition_function, arbitrary F", run, F, u, L, dt, c)
    h.eq("A = exp(F h)", r, lambda o: O(o[0][2]), lambda o: O(o[2]))
    h.eq("xi linear in u", r, lambda o: O(o[1][0]), lambda o: O(o[0][0]) * S(o[3]))
    h.eq("Q quadratic in L", r, lambda o: O(o[1][1]), lambda o: O(o[0][1]) * S(o[3]) * S(o[3]))
    h.eq("Q symmetric", r, lambda o: O(o[0][1]), lambda o: O(o[0][1]).T)


def n2_2(chk): nilpotent(chk, 2, 2)
def n2_3(chk): nilpotent(chk, 2, 3, 2)
def n3_3(chk): nilpotent(chk, 3, 3)
def n3_5(chk): nilpotent(chk, 3, 5)
def n2_d(chk): nilpotent(chk, 2, None)
def g1(chk): general(chk, 1)
def g2(chk): general(chk, 2)
HARNESSES = ["n2_2", "n2_3", "n3_3", "constant", "g1", "g2", "n2_d", "n3_5"]
n3_5.thorough = True
HARNESSES += at_literals(globals(), ['n2_3', 'g1'], ['h'], (1, 0.25))
