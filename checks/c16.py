"""C16 probabilistic ODE integrator continued from its posterior (Algorithm 3, EKF0 and EKF1)."""
from symjax.harness import *
from symjax.uf import vec_fun
from checks.odef import *


def solver_of(which):
    from bayesian_sde_solver.ode_solvers import ekf0_2, ekf1_2
    return ekf0_2 if which == 0 else ekf1_2


def lifted(h, which, m0, P0, d, t, deps=None):
    """law of (x, x') at time 0 given x ~ N(m0, P0): EKF0 freezes the field, EKF1 linearises it."""
    J = zeros(d, d) if which == 0 else h.uf_jac("f", m0, t, deps=deps)
    m = inter(m0, h.uf_vec("f", m0, t, deps=deps))
    V = zeros(2 * d, 2 * d)
    V[::2, ::2] = P0
    V[::2, 1::2] = P0 @ J.T
    V[1::2, ::2] = J @ P0
    V[1::2, 1::2] = J @ P0 @ J.T
    return m, V


def spec(h, which, m0, P0, d, dl, N, prior, R=None, deps=None):
    m, V = lifted(h, which, m0, P0, d, 0 * dl, deps)
    return ref(h, m0, d, dl, N, which == 0, prior, R, init=m, P0=V, deps=deps)


def cov0(h, d, sqrt):
    return symmat(h, "P", d, (0.3, 0.8), (-0.1, 0.1))


def general(chk, which, d, N, noise=False, prior=True, sqrt=False, zero=False, deps=None):
    h = Harness(chk, f"ekf{which}_d{d}_N{N}{'_prior' if prior else ''}{'_noise' if noise else ''}{'_sqrt' if sqrt else ''}{'_P0' if zero else ''}{'_tri' if deps else ''}")
    sol = solver_of(which)
    f = vec_fun("f", d, deps=deps)
    n = 2 * d
    s0, m0, dt = h.arr("s", d), h.arr("m", d), h.scalar("h", pos=True)
    P0 = h.lift(zeros(d, d)) if zero else cov0(h, d, sqrt)
    if deps:
        P0 = h.lift(P0 * eye(d))
    args = [s0, m0, P0, dt]
    if prior:
        if sqrt:
            L = h.ltri("q", n, True)
            Q = h.lift(L @ L.T)
        else:
            Q = symmat(h, "Q", n)
        args += [h.arr("xi", n), Q, h.arr("A", n, n)]
    if noise:
        args.append(symmat(h, "R", d, (0.3, 0.9)))

    def run(s, m, P, dt, *a):
        pr = tuple(a[:3]) if prior else None
        R = a[-1] if noise else None
        out = sol(None, (s, m, P), f, dt, N, sqrt=sqrt, prior=pr, noise=R)
        return out, (m, P, dt, *a)

    r = h.encode(f"ekf{which}_2", run, *args)

    def want(o, k):
        m, P, dl, *a = o[1]
        m, P, dl = O(m), O(P), S(dl)
        pr = tuple(O(x) for x in a[:3]) if prior else ibm(h, 1, dl, d)
        R = O(a[-1]) if noise else None
        return spec(h, which, m, P, d, dl, N, pr, R, deps)[k]

    h.eq("posterior mean", r, lambda o: O(o[0][1]), lambda o: want(o, 0)[::2])
    h.eq("posterior covariance", r, lambda o: O(o[0][2]), lambda o: want(o, 1)[::2, ::2])
    h.eq("no key: the mean is returned as the sample", r, lambda o: O(o[0][0]), lambda o: O(o[0][1]))
    chk.bound("state dim <= 2, N <= 2 filter steps; arbitrary start law (m, P) including P = 0, arbitrary prior for one step in "
              "dim 1, IBM prior otherwise; with/without noise; arbitrary field f(x,t), step h")


def law(chk, which, d, N, sqrt=False, deps=None):
    """With a key the first component is a draw from the returned marginal; mean and covariance do not depend on the key."""
    h = Harness(chk, f"ekf{which}_sample_d{d}_N{N}{'_sqrt' if sqrt else ''}")
    sol = solver_of(which)
    f = vec_fun("f", d, deps=deps)
    s0, m0, dt = h.arr("s", d), h.arr("m", d), h.scalar("h", pos=True)
    P0 = cov0(h, d, sqrt) if not sqrt else h.lift(zeros(d, d))

    if deps:
        P0 = h.lift(P0 * eye(d))

    def run(key, s, m, P, dt):
        return sol(key, (s, m, P), f, dt, N, sqrt=sqrt), sol(None, (s, m, P), f, dt, N, sqrt=sqrt)

    r = h.encode(f"ekf{which}_2 with a key", run, h.key(), s0, m0, P0, dt)
    h.eq("mean independent of the draw", r, lambda o: O(o[0][1]), lambda o: O(o[1][1]))
    h.eq("covariance independent of the draw", r, lambda o: O(o[0][2]), lambda o: O(o[1][2]))
    m, P, _ = spec(h, which, m0, P0, d, dt.item(), N, ibm(h, 1, dt.item(), d), deps=deps)
    L = Law(h, r, lambda o: O(o[0][0]))
    L.require_affine("Gaussian sample")
    L.require("sample mean is the posterior mean", "mean", m[::2])
    L.require("sample covariance is the posterior covariance", "cov", P[::2, ::2])


def returns(chk, which, d, N, sqrt=False):
    """return_all: full interlaced posterior plus the last innovation covariance and residual."""
    h = Harness(chk, f"ekf{which}_all_d{d}_N{N}{'_sqrt' if sqrt else ''}")
    sol = solver_of(which)
    f = vec_fun("f", d)
    s0, m0, dt = h.arr("s", d), h.arr("m", d), h.scalar("h", pos=True)
    P0 = cov0(h, d, sqrt) if not sqrt else h.lift(zeros(d, d))

    def run(key, s, m, P, dt):
        a = sol(key, (s, m, P), f, dt, N, sqrt=sqrt, return_all=True)
        b = sol(key, (s, m, P), f, dt, N, sqrt=sqrt)
        return a, b, m, P, dt

    r = h.encode(f"ekf{which}_2 return_all", run, h.key(), s0, m0, P0, dt)
    for k, nm in enumerate(("sample", "mean", "covariance")):
        h.eq(f"{nm} unchanged by return_all", r, lambda o: O(o[0][0][k]), lambda o: O(o[1][k]))
    h.eq("sample is the point part of the full sample", r, lambda o: O(o[0][1][0])[::2], lambda o: O(o[1][0]))

    def want(o):
        return spec(h, which, O(o[2]), O(o[3]), d, S(o[4]), N, ibm(h, 1, S(o[4]), d))

    h.eq("full mean", r, lambda o: O(o[0][1][1]), lambda o: want(o)[0])
    h.eq("full covariance", r, lambda o: O(o[0][1][2]), lambda o: want(o)[1])
    h.eq("last innovation covariance", r, lambda o: O(o[0][1][3]), lambda o: want(o)[2][-1][0])
    h.eq("last residual", r, lambda o: O(o[0][1][4]), lambda o: want(o)[2][-1][1])


def sample_ignored(chk, which):
    """The incoming sample is not used: the law continues from (m, P)."""
    h = Harness(chk, f"ekf{which}_ignores_sample")
    sol = solver_of(which)
    f = vec_fun("f", 1)
    P0 = cov0(h, 1, False)
    r = h.encode(f"ekf{which}_2 twice", lambda key, s, s2, m, P, dt: (sol(key, (s, m, P), f, dt, 1), sol(key, (s2, m, P), f, dt, 1)),
                 h.key(), h.arr("s", 1), h.arr("z", 1), h.arr("m", 1), P0, h.scalar("h", pos=True))
    for k in range(3):
        h.eq(f"component {k}", r, lambda o: O(o[0][k]), lambda o: O(o[1][k]))


def g0_11(chk): general(chk, 0, 1, 1)
def g1_11(chk): general(chk, 1, 1, 1)
def g0_11n(chk): general(chk, 0, 1, 1, noise=True)
def g1_11n(chk): general(chk, 1, 1, 1, noise=True)
def g0_12i(chk): general(chk, 0, 1, 2, prior=False)
def g1_12i(chk): general(chk, 1, 1, 2, prior=False)
def g0_21i(chk): general(chk, 0, 2, 1, prior=False)
def g1_21i(chk): general(chk, 1, 2, 1, prior=False, deps=[[0, 1], [1]])
def g1_21j(chk): general(chk, 1, 2, 1, prior=False, deps=[[1], [0]])
def g0_21z(chk): general(chk, 0, 2, 2, prior=False, zero=True)
def g1_21z(chk): general(chk, 1, 2, 1, prior=False, zero=True)
def g0_11s(chk): general(chk, 0, 1, 1, prior=False, sqrt=True)
def g1_11s(chk): general(chk, 1, 1, 1, prior=False, sqrt=True)
def g0_11sz(chk): general(chk, 0, 1, 2, prior=False, sqrt=True, zero=True, noise=True)
def g1_11sz(chk): general(chk, 1, 1, 1, prior=False, sqrt=True, zero=True, noise=True)
def l0_11(chk): law(chk, 0, 1, 1)
def l1_11(chk): law(chk, 1, 1, 1)
def l0_21(chk): law(chk, 0, 2, 1)
def l1_21(chk): law(chk, 1, 2, 1, deps=[[0, 1], [1]])
def l1_21f(chk): law(chk, 1, 2, 1)
l1_21f.thorough = True
def l0_11s(chk): law(chk, 0, 1, 1, True)
def l1_11s(chk): law(chk, 1, 1, 1, True)
def r0(chk): returns(chk, 0, 1, 2)
def r1(chk): returns(chk, 1, 1, 1)
def r0_2(chk): returns(chk, 0, 2, 1)
def r1s(chk): returns(chk, 1, 1, 1, True)
def r0s(chk): returns(chk, 0, 1, 2, True)
def ig0(chk): sample_ignored(chk, 0)
def ig1(chk): sample_ignored(chk, 1)


def deep(chk, which, d, N, noise=False, prior=False, sqrt=False, key=False):
    """Longer and larger instances: numeric step, prior, start covariance and Jacobian; start mean and time-dependent part arbitrary."""
    from checks import deep as dp
    h = Harness(chk, f"ekf{which}_sized_d{d}_N{N}{'_noise' if noise else ''}{'_prior' if prior else ''}{'_sqrt' if sqrt else ''}{'_sample' if key else ''}")
    sol = solver_of(which)
    f = dp.Affine(h, d)
    n = 2 * d
    s0, m0, D = h.arr("s", d), h.arr("m", d), h.const(Fraction(1, 2)).item()
    P0 = dp.spd(h, "P", d)
    pr = (dp.nums(h, "xi", n), dp.spd(h, "Q", n), dp.nums(h, "A", n, n)) if prior else ()
    args = (m0, P0) + pr + ((dp.spd(h, "R", d),) if noise else ())

    def run(k, s, m, P, *a):
        out = sol(k if key else None, (s, m, P), f, 0.5, N, sqrt=sqrt, prior=tuple(a[:3]) if prior else None,
                  noise=a[-1] if noise else None, return_all=True)
        return out, (m, P) + a

    r = h.encode(f"ekf{which}_2", run, h.key(), s0, *args)

    def want(o):
        m, P, *a = [O(v) for v in o]
        sym = isinstance(m[0], Value)
        dl = D if sym else 0.5
        xi, Q, A = a[:3] if prior else ibm(h, 1, dl, d)
        J = zeros(d, d) if which == 0 else f.mat(m)
        V = zeros(n, n)
        V[::2, ::2], V[::2, 1::2], V[1::2, ::2], V[1::2, 1::2] = P, P @ J.T, J @ P, J @ P @ J.T
        R = a[-1] if noise else zeros(d, d)
        return filt(inter(m, f.val(m, 0 * dl)), V, A, Q, xi, R, f.obs(2, which == 0), [dl * (k + 1) for k in range(N)])

    if not key:
        h.eq("posterior mean", r, lambda o: O(o[0][1][1]), lambda o: want(o[1])[0])
        h.eq("posterior covariance", r, lambda o: O(o[0][1][2]), lambda o: want(o[1])[1])
        h.eq("last innovation covariance", r, lambda o: O(o[0][1][3]), lambda o: want(o[1])[2][-1][0])
        h.eq("last residual", r, lambda o: O(o[0][1][4]), lambda o: want(o[1])[2][-1][1])
    else:
        m, P, _ = want(args)
        L = Law(h, r, lambda o: O(o[0][0][0]))
        L.require_affine("Gaussian sample")
        L.require("sample mean is the posterior mean", "mean", m[::2])
        L.require("sample covariance is the posterior covariance", "cov", P[::2, ::2])
    chk.bound("sized instances (numeric step 1/2, prior, start covariance and Jacobian; start mean and time-dependent part arbitrary): N up to 33, dim up to 4")


def z0_1(chk): deep(chk, 0, 1, 10)
def z1_1(chk): deep(chk, 1, 1, 10, True)
def z0_3(chk): deep(chk, 0, 3, 4, True)
def z1_3(chk): deep(chk, 1, 3, 4)
def z0_4(chk): deep(chk, 0, 4, 2, True, True)
def z1_4(chk): deep(chk, 1, 4, 2, True, True)
def z0k(chk): deep(chk, 0, 3, 2, key=True)
def z1k(chk): deep(chk, 1, 2, 3, True, key=True)
def z1k3(chk): deep(chk, 1, 3, 1, key=True)
def z0_133(chk): deep(chk, 0, 1, 33)
def z1_133(chk): deep(chk, 1, 1, 33)
HARNESSES = ["g0_11", "g1_11", "g0_11n", "g1_11n", "g0_12i", "g1_12i", "g0_21i", "g1_21i", "g1_21j", "g0_21z", "g1_21z",
             "g0_11s", "g1_11s", "g0_11sz", "g1_11sz", "l0_11", "l1_11", "l0_21", "l1_21", "l1_21f", "l0_11s", "l1_11s", "r0", "r1",
             "r0_2", "r1s", "r0s", "ig0", "ig1", "z0_1", "z1_1", "z0_3", "z1_3", "z0_4", "z1_4", "z0k", "z1k", "z1k3", "z0_133", "z1_133"]
HARNESSES += at_literals(globals(), ['g0_11', 'g1_11', 'l0_11', 'r1'], ['h'], (1, 0.25))
