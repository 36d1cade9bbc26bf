"""C33 methods that describe the same computation agree with each other."""
import functools

from symjax.harness import *
from symjax.uf import uf, vec_fun, mat_fun
from checks import deep as dp
from checks.odef import *


def mods():
    from bayesian_sde_solver import ode_solvers as o, ssm_parabola as s
    return o, s


def time_field(d):
    """field that does not depend on the state"""
    return lambda x, t: jnp.stack([uf(f"g{i}", jnp.asarray(t, dtype=float)) for i in range(d)])


def same(h, name, r, i, j):
    h.eq(name, r, lambda o: O(o[i]), lambda o: O(o[j]))


def state_free(chk, d, N, sqrt=False):
    """EKF0 = EKF1 for a field without state dependence, in all three families."""
    o, s = mods()
    h = Harness(chk, f"state_free_d{d}_N{N}{'_sqrt' if sqrt else ''}")
    f = time_field(d)
    x0, m0 = h.arr("x", d), h.arr("m", d)
    P, Sg = dp.fl(dp.spd(h, "P", d)), dp.fl(dp.nums(h, "s", d, d))

    def run(key, x, m):
        g = lambda x, t: Sg
        a, b = (k(None, x, f, 0.5, N, sqrt=sqrt) for k in (o.ekf0, o.ekf1))
        c, e = (k(None, (x, m, P), f, 0.5, N, sqrt=sqrt) for k in (o.ekf0_2, o.ekf1_2))
        u, v = (k(None, x, 0.75, f, g, 0.375, 2, sqrt=sqrt) for k in (s.ekf0_marginal_parabola, s.ekf1_marginal_parabola))
        return a, b, *c[1:], *e[1:], jnp.stack(u), jnp.stack(v)

    r = h.encode("EKF0 and EKF1", run, h.key(), x0, m0)
    same(h, "restarted", r, 0, 1)
    same(h, "continued mean", r, 2, 4)
    same(h, "continued covariance", r, 3, 5)
    same(h, "coefficients in state", r, 6, 7)
    chk.bound("arbitrary starts and time-dependent parts, numeric step and Jacobian (sized instances): dim up to 3, N up to 5")


def restarted_continued(chk, which, d, N, sqrt=False, prior=False, noise=False):
    """Continued from a point with zero covariance = restarted: same mean, sample covariance = reported covariance."""
    o, _ = mods()
    a, b = ((o.ekf0, o.ekf0_2), (o.ekf1, o.ekf1_2))[which]
    h = Harness(chk, f"restart_ekf{which}_d{d}_N{N}{'_sqrt' if sqrt else ''}{'_prior' if prior else ''}{'_noise' if noise else ''}")
    f = dp.Affine(h, d)
    x0 = h.arr("x", d)
    pr = tuple(map(dp.fl, (dp.nums(h, "xi", 2 * d), dp.spd(h, "Q", 2 * d), dp.nums(h, "A", 2 * d, 2 * d)))) if prior else None
    R = None
    if noise:
        T = dp.spd(h, "R", d)
        R = dp.fl(h.lift(O(T) @ O(T)))  # a perfect square, so that its root folds

    def run(key, x):
        kw = dict(sqrt=sqrt, prior=pr, noise=R)
        m = a(None, x, f, 0.5, N, **kw)
        s, mm, P = b(None, (x, x, jnp.zeros((d, d))), f, 0.5, N, **kw)
        return m, mm, P, a(key, x, f, 0.5, N, **kw)

    r = h.encode("restarted and continued from a point", run, h.key(), x0)
    same(h, "same mean", r, 0, 1)
    L = Law(h, r, lambda o: O(o[3]) - O(o[0]))
    L.require("sample centred at the mean", "mean", zeros(d))
    L.require("sample covariance is the continued integrator's covariance", "cov", O(r.out[2]))


def forms(chk, which, d, N, noise=False):
    """Square-root form = covariance form."""
    o, s = mods()
    h = Harness(chk, f"forms_{which}_d{d}_N{N}{'_noise' if noise else ''}")
    R = None
    if noise:
        T = dp.spd(h, "R", d)
        R = dp.fl(h.lift(O(T) @ O(T)))  # a perfect square, so that its root folds
    f = dp.Affine(h, d)
    x0 = h.arr("x", d)
    P, Sg = dp.fl(dp.spd(h, "P", d)), dp.nums(h, "s", d, d)

    def run(key, x):
        out = []
        for sq in (False, True):
            if which.startswith("ssm"):
                k = (s.ekf0_marginal_parabola, s.ekf1_marginal_parabola)[int(which[-1])]
                out.append((jnp.concatenate(k(None, x, 0.75, f, lambda x, t: dp.fl(Sg), 0.75 / N, N, sqrt=sq, noise=R)),))
            elif which.endswith("_2"):
                (m, mm, Pm), (sm, fm, FP, z, S) = getattr(o, which)(None, (x, x, P), f, 0.5, N, sqrt=sq, noise=R, return_all=True)
                out.append((mm, Pm, fm, FP, z, S))
            else:
                out.append((getattr(o, which)(None, x, f, 0.5, N, sqrt=sq, noise=R),))
        return out

    r = h.encode("both forms", run, h.key(), x0)
    for i in range(len(r.out[0])):
        h.eq(f"output {i}", r, lambda o: O(o[1][i]), lambda o: O(o[0][i]))


def defaults(chk, which, d, N):
    """Leaving out prior and noise = giving integrated Brownian motion with unit diffusion and zero noise."""
    o, s = mods()
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function as tf
    h = Harness(chk, f"defaults_{which}_d{d}_N{N}")
    f = vec_fun("f", d) if N == 1 and which != "ekf1_2" else dp.Affine(h, d)
    x0, dt = h.arr("x", d), h.scalar("h", lo=0.2, hi=0.6, pos=True)
    P, Sg = dp.fl(dp.spd(h, "P", d)), dp.fl(dp.nums(h, "s", d, d))

    def run(x, dt):
        out = []
        for kw in ({}, dict(prior=tf(theta=0.0, sigma=1.0, q=1, dt=dt, dim=1 if which.startswith("ssm") else d), noise=jnp.zeros((d, d)))):
            if which.startswith("ssm"):
                k = (s.ekf0_marginal_parabola, s.ekf1_marginal_parabola)[int(which[-1])]
                out.append(jnp.concatenate(k(None, x, dt * N, f, lambda x, t: Sg, dt, N, sqrt=False, **kw)))
            elif which.endswith("_2"):
                a, b, c = getattr(o, which)(None, (x, x, P), f, dt, N, sqrt=False, **kw)
                out.append(jnp.concatenate([a, b, c.reshape(-1)]))
            else:
                out.append(getattr(o, which)(None, x, f, dt, N, sqrt=False, **kw))
        return out

    r = h.encode("default and explicit", run, x0, dt)
    same(h, "same result", r, 0, 1)


def no_noise(chk, d, N):
    """Without diffusion every SDE method is the ODE method it is built on."""
    from bayesian_sde_solver import sde_solvers as ss
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.foster_polynomial import get_approx
    o, s = mods()
    h = Harness(chk, f"no_noise_d{d}_N{N}")
    f = vec_fun("f", d)
    x0, dl = h.arr("x", d), h.scalar("delta", lo=0.4, hi=0.8, pos=True)
    zero = lambda x, t: jnp.zeros((d, d))

    def run(key, x, dl):
        em = ss.euler_maruyama(key, x, f, zero, dl, N)[1]
        pw = ss.euler_maruyama_pathwise(jnp.ones((N, d)), x, f, zero, dl, N)[1]
        eu = jnp.stack([o.euler(x, f, dl, k) if k else x for k in range(N + 1)])
        dr = sde_solver(key=key, drift=f, sigma=zero, x0=x, bm=functools.partial(get_approx, dim=d), delta=dl, N=N,
                        ode_int=lambda key, init, vector_field, T: o.euler(init, vector_field, T, 1))[1]
        return em, pw, eu, dr

    r = h.encode("schemes without diffusion", run, h.key(), x0, dl)
    same(h, "Euler-Maruyama", r, 0, 2)
    same(h, "pathwise Euler-Maruyama", r, 1, 2)
    same(h, "driver with one Euler step per interval", r, 3, 2)


def no_noise_ssm(chk, which, d, M):
    """Coefficients in the state, no diffusion: the restarted integrator."""
    o, s = mods()
    h = Harness(chk, f"no_noise_ssm{which}_d{d}_M{M}")
    f = dp.Affine(h, d) if d * M > 1 else vec_fun("f", d)
    x0 = h.arr("x", d)

    def run(x):
        a = (s.ekf0_marginal_parabola, s.ekf1_marginal_parabola)[which](None, x, 0.5 * M, f, lambda x, t: jnp.zeros((d, d)), 0.5, M, sqrt=False)
        b = (o.ekf0, o.ekf1)[which](None, x, f, 0.5, M, sqrt=False)
        return a[0], b, a[1], a[2]

    r = h.encode("without diffusion", run, x0)
    same(h, "end point", r, 0, 1)
    h.eq("coefficients keep their zero mean", r, lambda o: cat(O(o[2]), O(o[3])), zeros(2 * d))


def schemes_additive(chk, d):
    """Additive noise and constant drift: order 1.5 = Euler-Maruyama in law."""
    from bayesian_sde_solver import sde_solvers as ss
    h = Harness(chk, f"additive_d{d}")
    x0, c, b, dl = h.arr("x", d), h.arr("c", d), h.arr("b", d), h.scalar("h", lo=0.4, hi=0.8, pos=True)

    def run(key, x, c, b, dl):
        return (ss.euler_maruyama(key, x, lambda x, t: c, lambda x, t: jnp.diag(b), dl, 2)[1],
                ss.diag_15_scheme(key, x, lambda x: c + 0 * x, lambda x: jnp.diag(b), dl, 2)[1])

    r = h.encode("two schemes", run, h.key(), x0, c, b, dl)
    L0, L1 = (Law(h, r, lambda o, i=i: O(o[i]).reshape(-1)[d:]) for i in (0, 1))
    L1.require("same mean", "mean", L0.mean())
    L1.require("same covariance", "cov", L0.cov())


def sf1(chk): state_free(chk, 1, 4)
def sf3(chk): state_free(chk, 3, 2)
def sfs(chk): state_free(chk, 1, 2, True)
def rc0(chk): restarted_continued(chk, 0, 2, 2)
def rc1(chk): restarted_continued(chk, 1, 2, 2)
def rc0p(chk): restarted_continued(chk, 0, 2, 2, prior=True, noise=True)
def rc1p(chk): restarted_continued(chk, 1, 3, 3, prior=True, noise=True)
def rc0s(chk): restarted_continued(chk, 0, 1, 3, True, noise=True)
def rc1s(chk): restarted_continued(chk, 1, 1, 3, True, noise=True)
def fo0(chk): forms(chk, "ekf0", 1, 5)
def fo1(chk): forms(chk, "ekf1", 1, 5)
def fo0_2(chk): forms(chk, "ekf0_2", 1, 3)
def fo1_2(chk): forms(chk, "ekf1_2", 1, 3)
def fos0(chk): forms(chk, "ssm0", 1, 2)
def fos1(chk): forms(chk, "ssm1", 1, 2)
def fn0(chk): forms(chk, "ekf0", 2, 1, True)
def fn1(chk): forms(chk, "ekf1", 2, 1, True)
def fn0_2(chk): forms(chk, "ekf0_2", 1, 1, True)
def fn1_2(chk): forms(chk, "ekf1_2", 2, 1, True)
def fns0(chk): forms(chk, "ssm0", 2, 1, True)
def fns1(chk): forms(chk, "ssm1", 2, 1, True)
def de0(chk): defaults(chk, "ekf0", 2, 1)
def de1(chk): defaults(chk, "ekf1", 2, 1)
def de0_2(chk): defaults(chk, "ekf0_2", 2, 1)
def de1_2(chk): defaults(chk, "ekf1_2", 2, 2)
def des0(chk): defaults(chk, "ssm0", 2, 1)
def des1(chk): defaults(chk, "ssm1", 1, 2)
def n13(chk): no_noise(chk, 1, 3)
def n24(chk): no_noise(chk, 2, 4)
def ns0(chk): no_noise_ssm(chk, 0, 1, 1)
def ns1(chk): no_noise_ssm(chk, 1, 1, 1)
def ns0d(chk): no_noise_ssm(chk, 0, 3, 2)
def ns1d(chk): no_noise_ssm(chk, 1, 2, 3)
def a2(chk): schemes_additive(chk, 2)
HARNESSES = ["sf1", "sf3", "sfs", "rc0", "rc1", "rc0p", "rc1p", "rc0s", "rc1s", "fo0", "fo1", "fo0_2", "fo1_2", "fos0", "fos1",
             "fn0", "fn1", "fn0_2", "fn1_2", "fns0", "fns1", "de0", "de1", "de0_2", "de1_2", "des0", "des1", "n13", "n24", "ns0", "ns1", "ns0d", "ns1d", "a2"]
