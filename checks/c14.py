"""C14 probabilistic ODE integrator restarted from a point (Algorithm 2, EKF0 and EKF1)."""
from symjax.harness import *
from symjax.uf import vec_fun
from checks.odef import *


def solver_of(which):
    from bayesian_sde_solver.ode_solvers import ekf0, ekf1
    return ekf0 if which == 0 else ekf1


def general(chk, which, d, N, noise, sqrt=False, sparse=False):
    h = Harness(chk, f"ekf{which}_prior_d{d}_N{N}{'_noise' if noise else ''}{'_sqrt' if sqrt else ''}")
    sol = solver_of(which)
    f = vec_fun("f", d)
    n = 2 * d
    x0, dt, xi, A = h.arr("x", d), h.scalar("h", lo=0.1, hi=0.6), h.arr("xi", n), h.arr("A", n, n)
    if sqrt:
        L = h.ltri("q", n, True)
        Q = h.lift(L @ L.T)
    else:
        Q = symmat(h, "Q", n)
    if sparse:
        A = h.lift(kron(eye(d), A[:2, :2]))
        Q = h.lift(kron(eye(d), Q[:2, :2]))
    Rm = symmat(h, "R", d, (0.3, 0.9)) if noise else None

    def run(x, dt, xi, Q, A, *R):
        m = sol(None, x, f, dt, N, sqrt=sqrt, prior=(xi, Q, A), noise=(R[0] if R else None))
        return m, x, dt, xi, Q, A, (R[0] if R else jnp.zeros((d, d)))

    args = (x0, dt, xi, Q, A) + ((Rm,) if noise else ())
    r = h.encode(f"ekf{which}", run, *args)

    def spec(o):
        x, dl, xi, Q, A, R = O(o[1]), S(o[2]), O(o[3]), O(o[4]), O(o[5]), O(o[6])
        m, P, _ = ref(h, x, d, dl, N, which == 0, (xi, Q, A), R)
        return m[::2]

    h.eq("posterior mean", r, lambda o: O(o[0]), spec)
    chk.bound("state dim <= 2, N <= 3 filter steps (arbitrary prior (xi, Q, A) for N=1 and, dim 1, N=2; IBM prior beyond), with "
              "and without observation noise; arbitrary vector field f(x,t), step h, start x")


def default(chk, which, d, N, sqrt=False):
    """No prior given: once-integrated Brownian motion."""
    h = Harness(chk, f"ekf{which}_default_d{d}_N{N}{'_sqrt' if sqrt else ''}")
    sol = solver_of(which)
    f = vec_fun("f", d)
    x0, dt = h.arr("x", d), h.scalar("h", pos=True)
    r = h.encode(f"ekf{which}, default prior", lambda x, dt: (sol(None, x, f, dt, N, sqrt=sqrt), x, dt), x0, dt)

    def spec(o):
        x, dl = O(o[1]), S(o[2])
        m, P, _ = ref(h, x, d, dl, N, which == 0, ibm(h, 1, dl, d))
        return m[::2]

    h.eq("posterior mean under the IBM prior", r, lambda o: O(o[0]), spec)


def law(chk, which, d, N, sqrt=False, noise=False):
    """With a key: one draw from the Gaussian posterior of the state."""
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
    h = Harness(chk, f"ekf{which}_sample_d{d}_N{N}{'_sqrt' if sqrt else ''}{'_noise' if noise else ''}")
    sol = solver_of(which)
    f = vec_fun("f", d)
    x0, dt = h.arr("x", d), h.scalar("h", pos=True)
    Rm = symmat(h, "R", d, (0.3, 0.9)) if noise else None
    if noise and sqrt:
        LR = h.ltri("r", d, True)
        Rm = h.lift(LR @ LR.T)

    def run(key, x, dt, *R):
        prior = IOUP_transition_function(theta=0.0, sigma=1.0, q=1, dt=dt, dim=d)
        return sol(key, x, f, dt, N, sqrt=sqrt, prior=prior, noise=(R[0] if R else None))

    r = h.encode(f"ekf{which} with a key", run, *((h.key(), x0, dt) + ((Rm,) if noise else ())))
    D = dt.item()
    m, P, _ = ref(h, x0, d, D, N, which == 0, ibm(h, 1, D, d), None if Rm is None else O(Rm))
    L = Law(h, r, lambda o: O(o))
    L.require_affine("Gaussian sample")
    L.require("sample mean is the posterior mean", "mean", m[::2])
    L.require("sample covariance is the posterior covariance", "cov", P[::2, ::2])


def g0_11(chk): general(chk, 0, 1, 1, True)
def g1_11(chk): general(chk, 1, 1, 1, True)
def g0_12(chk): general(chk, 0, 1, 2, False)
def g1_12(chk): general(chk, 1, 1, 2, False)
def g0_21(chk): general(chk, 0, 2, 1, True)
def g1_21(chk): general(chk, 1, 2, 1, False, sparse=True)
def g1_21n(chk): general(chk, 1, 2, 1, True, sparse=True)
def g0_11s(chk): general(chk, 0, 1, 1, False, sqrt=True)
def g1_11s(chk): general(chk, 1, 1, 1, False, sqrt=True)
def d0_11(chk): default(chk, 0, 1, 1)
def d1_11(chk): default(chk, 1, 1, 1)
def d0_13(chk): default(chk, 0, 1, 3)
def d1_12(chk): default(chk, 1, 1, 2)
def d0_22(chk): default(chk, 0, 2, 2)
def d1_21(chk): default(chk, 1, 2, 1)
def d1_11s(chk): default(chk, 1, 1, 1, True)
def d0_12s(chk): default(chk, 0, 1, 2, True)
def l0_11(chk): law(chk, 0, 1, 1)
def l1_11(chk): law(chk, 1, 1, 1)
def l0_12(chk): law(chk, 0, 1, 2)
def l0_21(chk): law(chk, 0, 2, 1)
def l1_21(chk): law(chk, 1, 2, 1)
def l0_11s(chk): law(chk, 0, 1, 1, True)
def l1_11s(chk): law(chk, 1, 1, 1, True)
def l0_11n(chk): law(chk, 0, 1, 1, False, True)
def l0_11ns(chk): law(chk, 0, 1, 1, True, True)
def l1_11ns(chk): law(chk, 1, 1, 1, True, True)
def d1_13(chk): default(chk, 1, 1, 3)
d1_13.thorough = True


def deep(chk, which, d, N, noise=False, prior=False, sqrt=False, key=False):
    """Longer and larger instances: numeric step, prior and Jacobian; start and time-dependent part of the field arbitrary."""
    from checks import deep as dp
    h = Harness(chk, f"ekf{which}_sized_d{d}_N{N}{'_noise' if noise else ''}{'_prior' if prior else ''}{'_sqrt' if sqrt else ''}{'_sample' if key else ''}")
    sol = solver_of(which)
    f = dp.Affine(h, d)
    n = 2 * d
    x0, D = h.arr("x", d), h.const(Fraction(1, 2)).item()
    pr = (dp.nums(h, "xi", n), dp.spd(h, "Q", n), dp.nums(h, "A", n, n)) if prior else ()
    args = (x0,) + pr + ((dp.spd(h, "R", d),) if noise else ())

    def run(k, x, *a):
        m = sol(k if key else None, x, f, 0.5, N, sqrt=sqrt, prior=tuple(a[:3]) if prior else None, noise=a[-1] if noise else None)
        return (m, x) + a

    r = h.encode(f"ekf{which}", run, h.key(), *args)

    def spec(o):
        x, a = O(o[1]), [O(v) for v in o[2:]]
        dl = D if isinstance(x[0], Value) else 0.5
        xi, Q, A = a[:3] if prior else ibm(h, 1, dl, d)
        m = inter(x, f.val(x, 0 * dl))
        R = a[-1] if noise else zeros(d, d)
        return filt(m, zeros(n, n), A, Q, xi, R, f.obs(2, which == 0), [dl * (k + 1) for k in range(N)])

    if not key:
        h.eq("posterior mean", r, lambda o: O(o[0]), lambda o: spec(o)[0][::2])
    else:
        m, P, _ = spec((None, x0) + args[1:])
        L = Law(h, r, lambda o: O(o[0]))
        L.require_affine("Gaussian sample")
        L.require("sample mean is the posterior mean", "mean", m[::2])
        L.require("sample covariance is the posterior covariance", "cov", P[::2, ::2])
    chk.bound("sized instances (numeric step 1/2, prior and Jacobian; start and time-dependent part arbitrary): N up to 33, dim up to 5")


def z0_16(chk): deep(chk, 0, 1, 12)
def z1_16(chk): deep(chk, 1, 1, 12)
def z0_33(chk): deep(chk, 0, 3, 5)
def z1_33(chk): deep(chk, 1, 3, 5, True)
def z0_51(chk): deep(chk, 0, 5, 3, True)
def z1_51(chk): deep(chk, 1, 5, 3, True)
def z0s(chk): deep(chk, 0, 1, 6, True, sqrt=True)
def z1s(chk): deep(chk, 1, 1, 6, sqrt=True)
def z0k(chk): deep(chk, 0, 3, 3, True, key=True)
def z1k(chk): deep(chk, 1, 3, 4, key=True)
def z1ks(chk): deep(chk, 1, 1, 4, True, sqrt=True, key=True)
def z0_42(chk): deep(chk, 0, 4, 2, True, True)
def z1_42(chk): deep(chk, 1, 4, 2, False, True)
def z0_133(chk): deep(chk, 0, 1, 33)
def z1_133(chk): deep(chk, 1, 1, 33)
def z0_212(chk): deep(chk, 0, 2, 12)
HARNESSES = ["g0_11", "g1_11", "g0_12", "g1_12", "g0_21", "g1_21", "g0_11s", "g1_11s", "d0_11", "d1_11",
             "d0_13", "d1_12", "d0_22", "d1_21", "d1_11s", "d0_12s", "l0_11", "l1_11", "l0_12", "l0_21", "l1_21", "l0_11s",
             "l1_11s", "l0_11n", "l0_11ns", "l1_11ns", "g1_21n", "z0_16", "z1_16", "z0_33", "z1_33", "z0_42", "z1_42", "z0_51", "z1_51", "z0s", "z1s", "z0k", "z1k", "z1ks", "d1_13", "z0_133", "z1_133", "z0_212"]
HARNESSES += at_literals(globals(), ['g0_11', 'g1_11', 'g0_12', 'g1_21', 'd0_13', 'l0_11'], ['h'], (1, 0.25))
