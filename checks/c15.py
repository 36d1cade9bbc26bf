"""C15 exact initialisation of higher-order priors (3 and more states per coordinate)."""
from symjax.harness import *
from symjax.uf import vec_fun
from checks.odef import *
from checks.c14 import solver_of


def init_state(h, x, d, n, t):
    """(x, f, J f + df/dt, 0, ...) interlaced, covariance 0 on the first three and 1 on the others."""
    f = h.uf_vec("f", x, t)
    acc = h.uf_jac("f", x, t) @ f + h.uf_dt("f", x, t)
    m = inter(x, f, acc, *[zeros(d)] * (n - 3))
    D = zeros(n, n)
    for k in range(3, n):
        D[k, k] = 1
    return m, kron(eye(d), D)


def general(chk, which, d, n, N, sqrt=False):
    h = Harness(chk, f"ekf{which}_states{n}_d{d}_N{N}{'_sqrt' if sqrt else ''}")
    sol = solver_of(which)
    f = vec_fun("f", d)
    x0, dt = h.arr("x", d), h.scalar("h", lo=0.1, hi=0.6)
    A1, xi1 = h.arr("A", n, n), h.arr("xi", n)
    if sqrt:
        L = h.ltri("q", n, True)
        Q1 = L @ L.T
    else:
        Q1 = symmat(h, "Q", n)
    A, Q, xi = h.lift(kron(eye(d), A1)), h.lift(kron(eye(d), Q1)), h.lift(cat(*[xi1] * d))

    def run(x, dt, xi, Q, A):
        return sol(None, x, f, dt, N, sqrt=sqrt, prior=(xi, Q, A)), x, dt, xi, Q, A

    r = h.encode(f"ekf{which}, {n} states per coordinate", run, x0, dt, xi, Q, A)

    def spec(o):
        x, dl, xi, Q, A = O(o[1]), S(o[2]), O(o[3]), O(o[4]), O(o[5])
        m0, P0 = init_state(h, x, d, n, 0 * dl)
        m, P, _ = ref(h, x, d, dl, N, which == 0, (xi, Q, A), n=n, init=m0, P0=P0)
        return m[::n]

    h.eq("posterior mean from the exact start", r, lambda o: O(o[0]), spec)
    chk.bound("3 and 4 states per coordinate, state dim <= 2, one filter step with an arbitrary prior (same for each "
              "coordinate), two steps with the q-times integrated Brownian motion prior in dim 1; arbitrary time-dependent field")


def ibm_prior(chk, which, d, n, N, key=False):
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
    h = Harness(chk, f"ekf{which}_ibm{n}_d{d}_N{N}{'_sample' if key else ''}")
    sol = solver_of(which)
    f = vec_fun("f", d)
    x0, dt = h.arr("x", d), h.scalar("h", pos=True)

    def run(key_, x, dt):
        prior = IOUP_transition_function(theta=0.0, sigma=1.0, q=n - 1, dt=dt, dim=d)
        return sol(key_ if key else None, x, f, dt, N, sqrt=False, prior=prior), x, dt

    r = h.encode(f"ekf{which}, IBM of order {n-1}", run, h.key(), x0, dt)
    D = dt.item()

    def spec(x, dl):
        m0, P0 = init_state(h, x, d, n, 0 * dl)
        return ref(h, x, d, dl, N, which == 0, ibm(h, n - 1, dl, d), n=n, init=m0, P0=P0)

    if not key:
        h.eq("posterior mean", r, lambda o: O(o[0]), lambda o: spec(O(o[1]), S(o[2]))[0][::n])
    else:
        m, P, _ = spec(O(x0), D)
        L = Law(h, r, lambda o: O(o[0]))
        L.require_affine("Gaussian sample")
        L.require("sample mean", "mean", m[::n])
        L.require("sample covariance", "cov", P[::n, ::n])


def third_order_exact(chk, which):
    """With a cubic solution x' = a + b t + c t^2 the 4-state IBM filter is exact up to its third derivative start value."""
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
    h = Harness(chk, f"ekf{which}_quadratic")
    sol = solver_of(which)
    x0, dt, a, b = h.arr("x", 1), h.scalar("h", pos=True), h.scalar("a"), h.scalar("b")

    def run(x, dt, a, b):
        prior = IOUP_transition_function(theta=0.0, sigma=1.0, q=2, dt=dt, dim=1)
        return sol(None, x, lambda x, t: (a + b * t) * jnp.ones_like(x), dt, 2, sqrt=False, prior=prior)

    r = h.encode(f"ekf{which} on x' = a + b t", run, x0, dt, a, b)
    T = dt.item() * 2
    h.eq("exact on quadratic solutions", r, lambda o: O(o), vec(x0[0] + a.item() * T + b.item() * T * T / 2))


def e0_31(chk): general(chk, 0, 1, 3, 1)
def e1_31(chk): general(chk, 1, 1, 3, 1)
def e0_32(chk): general(chk, 0, 2, 3, 1)
def e1_32(chk): general(chk, 1, 2, 3, 1)
def e0_41(chk): general(chk, 0, 1, 4, 1)
def e1_41(chk): general(chk, 1, 1, 4, 1)
def e0_42(chk): general(chk, 0, 2, 4, 1)
def e1_42(chk): general(chk, 1, 2, 4, 1)
def e0_31s(chk): general(chk, 0, 1, 3, 1, True)
def i0_32(chk): ibm_prior(chk, 0, 1, 3, 2)
def i1_31(chk): ibm_prior(chk, 1, 1, 3, 1)
def i0_42(chk): ibm_prior(chk, 0, 1, 4, 2)
def i1_41(chk): ibm_prior(chk, 1, 1, 4, 1)
def s0_31(chk): ibm_prior(chk, 0, 1, 3, 1, True)
def s1_31(chk): ibm_prior(chk, 1, 1, 3, 1, True)
def q0(chk): third_order_exact(chk, 0)
def q1(chk): third_order_exact(chk, 1)


def deep(chk, which, d, n, N, noise=False, key=False):
    """Longer and larger instances: numeric step, prior and Jacobian; start and time-dependent part of the field arbitrary."""
    from checks import deep as dp
    h = Harness(chk, f"ekf{which}_sized_states{n}_d{d}_N{N}{'_noise' if noise else ''}{'_sample' if key else ''}")
    sol = solver_of(which)
    f = dp.Affine(h, d)
    x0, D = h.arr("x", d), h.const(Fraction(1, 2)).item()
    A, Q, xi = (h.lift(kron(eye(d), M)) for M in (dp.nums(h, "A", n, n), dp.spd(h, "Q", n), dp.nums(h, "xi", n, 1)))
    args = (x0, h.lift(cat(*[dp.nums(h, "xi", n)] * d)), Q, A) + ((dp.spd(h, "R", d),) if noise else ())

    def run(k, x, xi, Q, A, *R):
        return sol(k if key else None, x, f, 0.5, N, sqrt=False, prior=(xi, Q, A), noise=R[0] if noise else None), x, xi, Q, A, *R

    r = h.encode(f"ekf{which}, {n} states", run, h.key(), *args)

    def spec(o):
        x, xi, Q, A, *R = [O(v) for v in o[1:]]
        dl = D if isinstance(x[0], Value) else 0.5
        v = f.val(x, 0 * dl)
        acc = f.mat(x) @ v + vec(*[h.uf(f"c{i}", 0 * dl, deriv=[1]) for i in range(d)])
        m = inter(x, v, acc, *[zeros(d)] * (n - 3))
        P1 = zeros(n, n)
        for k in range(3, n):
            P1[k, k] = 1
        return filt(m, kron(eye(d), P1), A, Q, xi, R[0] if noise else zeros(d, d), f.obs(n, which == 0), [dl * (k + 1) for k in range(N)])

    if not key:
        h.eq("posterior mean from the exact start", r, lambda o: O(o[0]), lambda o: spec(o)[0][::n])
    else:
        m, P, _ = spec((None,) + args)
        L = Law(h, r, lambda o: O(o[0]))
        L.require_affine("Gaussian sample")
        L.require("sample mean", "mean", m[::n])
        L.require("sample covariance", "cov", P[::n, ::n])
    chk.bound("sized instances (numeric step 1/2, prior and Jacobian; start and time-dependent part arbitrary): up to 8 states per coordinate, dim up to 4, N up to 17")


def z0(chk): deep(chk, 0, 3, 3, 3)
def z1(chk): deep(chk, 1, 3, 3, 3, True)
def z2(chk): deep(chk, 0, 2, 5, 2, True)
def z3(chk): deep(chk, 1, 2, 4, 3)
def z4(chk): deep(chk, 1, 1, 6, 5)
def zk(chk): deep(chk, 1, 2, 4, 2, True, True)
def z5(chk): deep(chk, 0, 1, 3, 17)
def z6(chk): deep(chk, 1, 1, 4, 17)
def z7(chk): deep(chk, 0, 1, 8, 2)
def z8(chk): deep(chk, 1, 4, 3, 2)
HARNESSES = ["e0_31", "e1_31", "e0_32", "e1_32", "e0_41", "e1_41", "e0_42", "e1_42", "e0_31s", "i0_32", "i1_31", "i0_42",
             "i1_41", "s0_31", "s1_31", "q0", "q1", "z0", "z1", "z2", "z3", "z4", "zk", "z5", "z6", "z7", "z8"]
HARNESSES += at_literals(globals(), ['e0_32', 'e1_31', 'i0_32'], ['h'], (1, 0.25))
