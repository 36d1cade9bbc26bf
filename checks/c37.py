"""C37 results do not depend on the units of state, observation and time."""
import functools

from symjax.harness import *
from symjax.uf import uf, vec_fun, mat_fun
from checks import deep as dp
from checks.odef import *


def basis(h, tag, n):
    """unimodular numeric change of basis and its inverse"""
    L, U = np.tril(O(dp.nums(h, tag + "l", n, n)), -1) + eye(n), np.triu(O(dp.nums(h, tag + "u", n, n)), 1) + eye(n)
    T = h.lift(L @ U)
    inv = np.linalg.inv(np.asarray(dp.fl(T)))
    return dp.fl(T), jnp.asarray(np.round(inv * 4 ** (2 * n)) / 4 ** (2 * n))


def filter_basis(chk, d, o, N, sqrt=False):
    """Any invertible change of basis of the state and of the observation."""
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    h = Harness(chk, f"filter_d{d}_o{o}_N{N}{'_sqrt' if sqrt else ''}")
    A, xi, H = dp.nums(h, "A", d, d), dp.nums(h, "xi", d), dp.nums(h, "H", o, d)
    if sqrt:
        P, Q, R = (h.lift(eye(n) + np.tril(O(dp.nums(h, t, n, n)), -1)) for t, n in (("P", d), ("Q", d), ("R", o)))
    else:
        P, Q, R = dp.spd(h, "P", d), dp.spd(h, "Q", d), dp.spd(h, "R", o)
    Af, xf, Hf, Pf, Qf, Rf = map(dp.fl, (A, xi, H, P, Q, R))
    T, Ti = basis(h, "T", d)
    M, _ = basis(h, "M", o)
    m0, ts = h.arr("m", d), h.arr("t", N)

    def run(m, ts):
        obs = lambda x, t: Hf @ x + jnp.stack([uf(f"c{i}", t) for i in range(o)])
        a, C = ekf((m, Pf), obs, Af, Qf, xf, Rf, params=(ts,), lower_sqrt=sqrt)
        W = (lambda T, P: T @ P) if sqrt else (lambda T, P: T @ P @ T.T)
        b, E = ekf((T @ m, W(T, Pf)), lambda y, t: M @ obs(Ti @ y, t), T @ Af @ Ti, W(T, Qf), T @ xf, W(M, Rf), params=(ts,), lower_sqrt=sqrt)
        C, E = (C @ C.T, E @ E.T) if sqrt else (C, E)
        return T @ a, T @ C @ T.T, b, E

    r = h.encode("ekf in two bases", run, m0, ts)
    h.eq("mean", r, lambda q: O(q[2]), lambda q: O(q[0]))
    h.eq("covariance", r, lambda q: O(q[3]), lambda q: O(q[1]))
    chk.bound("filter: numeric model and bases, arbitrary start and time-dependent offsets, state dim up to 4, observation dim up to 2, N up to 4; "
              "integrators: arbitrary scale factors, dim up to 2, N up to 3")


def state_units(chk, which, d, N, sqrt=False):
    """x in units of 1/a, prior diffusion scaled with a."""
    from bayesian_sde_solver import ode_solvers as os_
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function as tf
    sol = getattr(os_, which)
    h = Harness(chk, f"state_{which}_d{d}_N{N}{'_sqrt' if sqrt else ''}")
    f = dp.Affine(h, d)
    x0, a = h.arr("x", d), h.scalar("a", lo=1.3, hi=2.2, pos=True)
    P, R = dp.fl(dp.spd(h, "P", d)), dp.fl(dp.spd(h, "R", d))

    def run(x, a):
        out = []
        for k in (jnp.ones(()), a):
            g = lambda y, t: k * f(y / k, t)
            kw = dict(prior=tf(theta=0.0, sigma=k, q=1, dt=0.5, dim=d), sqrt=sqrt, noise=None if sqrt else k * k * R)
            if which.endswith("_2"):
                start = jnp.zeros((d, d)) if sqrt else k * k * P
                (_, m, C), (_, fm, FC, z, S) = sol(None, (k * x, k * x, start), g, 0.5, N, return_all=True, **kw)
                if z.ndim == 2:
                    z, S = S, z
                out.append([m / k, C / k / k, fm / k, FC / k / k, z / k, S / k / k])
            else:
                out.append([sol(None, k * x, g, 0.5, N, **kw) / k])
        return out

    r = h.encode(which, run, x0, a)
    for i in range(len(r.out[0])):
        h.eq(f"output {i}", r, lambda q: O(q[1][i]), lambda q: O(q[0][i]))


def time_units(chk, which, d, N):
    """time in units of 1/k: field k f(x, k t), step h / k, prior covariance in the new units."""
    from bayesian_sde_solver import ode_solvers as os_
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function as tf
    sol = getattr(os_, which)
    h = Harness(chk, f"time_{which}_d{d}_N{N}")
    f = dp.Affine(h, d)
    x0, a = h.arr("x", d), h.scalar("k", lo=1.3, hi=2.2, pos=True)
    P, R = dp.fl(dp.spd(h, "P", d)), dp.fl(dp.spd(h, "R", d))

    def run(x, a):
        out = []
        for k in (jnp.ones(()), a):
            g = lambda y, t: k * f(y, k * t)
            xi, Q, A = tf(theta=0.0, sigma=1.0, q=1, dt=0.5 / k, dim=d)
            kw = dict(prior=(xi, k ** 3 * Q, A), sqrt=False, noise=k * k * R)
            if which == "euler":
                out.append([sol(x, g, 0.5 / k, N)])
            elif which.endswith("_2"):
                out.append(list(sol(None, (x, x, P), g, 0.5 / k, N, **kw)[1:]))
            else:
                out.append([sol(None, x, g, 0.5 / k, N, **kw)])
        return out

    r = h.encode(which, run, x0, a)
    for i in range(len(r.out[0])):
        h.eq(f"output {i}", r, lambda q: O(q[1][i]), lambda q: O(q[0][i]))


def default_units(chk, which, d, N):
    """Default prior and no noise: the mean has no unit of its own, in state and in time."""
    from bayesian_sde_solver import ode_solvers as os_
    sol = getattr(os_, which)
    h = Harness(chk, f"default_{which}_d{d}_N{N}")
    f = dp.Affine(h, d)
    x0, a, k = h.arr("x", d), h.scalar("a", lo=1.3, hi=2.2, pos=True), h.scalar("k", lo=1.3, hi=2.2, pos=True)
    r = h.encode(which, lambda x, a, k: (sol(None, x, f, 0.5, N, sqrt=False),
                                         sol(None, a * x, lambda y, t: k * a * f(y / a, k * t), 0.5 / k, N, sqrt=False) / a), x0, a, k)
    h.eq("mean", r, lambda q: O(q[1]), lambda q: O(q[0]))


def sde_units(chk, d, N):
    """Euler-Maruyama and the pathwise driver: drift k a f(x/a, k t), diffusion a sqrt(k) s, increments / sqrt(k), interval / k (k = c^2)."""
    from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise as em
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.ode_solvers import euler
    h = Harness(chk, f"sde_d{d}_N{N}")
    f, s = vec_fun("f", d), mat_fun("s", d, d)
    x0, W, dl = h.arr("x", d), h.arr("w", N, d), h.scalar("delta", lo=0.4, hi=0.8, pos=True)
    a, c = h.scalar("a", lo=1.3, hi=2.2, pos=True), h.scalar("c", lo=1.3, hi=2.2, pos=True)

    def run(key, x, W, dl, a, c):
        F = lambda y, t: c * c * a * f(y / a, c * c * t)
        G = lambda y, t: c * a * s(y / a, c * c * t)
        u = em(W, x, f, s, dl, N)[1]
        v = em(W / c, a * x, F, G, dl / c / c, N)[1] / a
        bm = lambda w: (lambda: ((lambda key, dt: (w,)), (lambda t, dt, b: b * (t / dt) * (2 - t / dt))))
        oi = lambda key, init, vector_field, T: euler(init, vector_field, T / 2, 2)
        p = sde_solver(key=key, drift=f, sigma=s, x0=x, bm=bm(W[0]), delta=dl, N=N, ode_int=oi)[1]
        q = sde_solver(key=key, drift=F, sigma=G, x0=a * x, bm=bm(W[0] / c), delta=dl / c / c, N=N, ode_int=oi)[1] / a
        return u, v, p, q

    r = h.encode("SDE methods in two unit systems", run, h.key(), x0, W, dl, a, c)
    h.eq("Euler-Maruyama", r, lambda q: O(q[1]), lambda q: O(q[0]))
    h.eq("driver", r, lambda q: O(q[3]), lambda q: O(q[2]))


def law_units(chk, which, d):
    """Sampled schemes and Brownian approximations: the law scales."""
    from bayesian_sde_solver import sde_solvers as ss, foster_polynomial as fp
    h = Harness(chk, f"law_{which}_d{d}")
    x0, dl = h.arr("x", d), h.scalar("delta", lo=0.4, hi=0.8, pos=True)
    a, c = h.scalar("a", lo=1.3, hi=2.2, pos=True), h.scalar("c", lo=1.3, hi=2.2, pos=True)
    f, s = vec_fun("f", d), mat_fun("s", d, d)
    ft = vec_fun("f", d, time=False)
    b = lambda x: jnp.diag(jnp.stack([uf(f"b{i}", x[i]) for i in range(d)]))
    g = lambda x: jnp.zeros((d, d)).at[1, 0].set(uf("g", *[x[i] for i in range(d)]))

    def run(key, x, dl, a, c):
        k = c * c
        if which == "em":
            F, G = (lambda y, t: k * a * f(y / a, k * t)), (lambda y, t: c * a * s(y / a, k * t))
            return ss.euler_maruyama(key, x, f, s, dl, 1)[1][1], ss.euler_maruyama(key, a * x, F, G, dl / k, 1)[1][1] / a
        if which == "diag":
            F, G = (lambda y: k * a * ft(y / a)), (lambda y: c * a * b(y / a))
            return ss.diag_15_scheme(key, x, ft, b, dl, 1)[1][1], ss.diag_15_scheme(key, a * x, F, G, dl / k, 1)[1][1] / a
        if which == "hypo":
            F, G = (lambda y: k * a * ft(y / a)), (lambda y: c * a * g(y / a))
            return (ss.hypoelliptic_diffusion_15_scheme(key, x, ft, g, dl, 1)[1][1],
                    ss.hypoelliptic_diffusion_15_scheme(key, a * x, F, G, dl / k, 1)[1][1] / a)
        get = {"parabola": fp.get_approx(d), "path": fp.get_approx_and_brownian(d, 3), "fine": fp.get_approx_fine(d, 3)}[which][0]
        return jnp.concatenate(get(key, dl)[:2]), jnp.concatenate(get(key, dl / k)[:2]) * c

    r = h.encode(which, run, h.key(), x0, dl, a, c)
    La, Lb = Law(h, r, lambda q: O(q[0])), Law(h, r, lambda q: O(q[1]))
    Lb.require("mean", "mean", La.mean())
    Lb.require("covariance", "cov", La.cov())


def curve_units(chk, d):
    """The approximating curves and their slopes, measured in other units of time and noise."""
    from bayesian_sde_solver import foster_polynomial as fp
    h = Harness(chk, f"curve_d{d}")
    a, b, x = h.arr("a", d), h.arr("b", d), h.arr("x", d)
    t, dl, c = h.scalar("t"), h.scalar("delta", lo=0.4, hi=0.8, pos=True), h.scalar("c", lo=1.3, hi=2.2, pos=True)

    def run(t, dl, c, a, b, x):
        out = []
        for ev, extra in ((fp.get_approx(d)[1], ()), (fp.get_approx_and_brownian(d, 3)[1], (x,)), (fp.get_approx_fine(d, 3)[1], (x, x))):
            one = lambda t: ev(t, dl, a, b, *extra)
            two = lambda t: ev(t, dl / (c * c), a / c, b / c, *extra)
            out.append((jnp.concatenate([one(t), jax.jacfwd(one)(t)]),
                        jnp.concatenate([two(t / (c * c)) * c, jax.jacfwd(two)(t / (c * c)) / c])))
        return out

    r = h.encode("curves", run, t, dl, c, a, b, x)
    for i, nm in enumerate(("parabola", "fine path", "fine parabolas")):
        h.eq(f"{nm}: curve and slope", r, lambda o: O(o[i][1]), lambda o: O(o[i][0]))


def b1(chk): filter_basis(chk, 2, 1, 4)
def b2(chk): filter_basis(chk, 3, 2, 2)
def b3(chk): filter_basis(chk, 4, 2, 1)
def bs(chk): filter_basis(chk, 1, 1, 3, True)
def u0(chk): state_units(chk, "ekf0", 2, 2)
def u1(chk): state_units(chk, "ekf1", 2, 2)
def u0_2(chk): state_units(chk, "ekf0_2", 2, 2)
def u1_2(chk): state_units(chk, "ekf1_2", 2, 2)
def u1s(chk): state_units(chk, "ekf1", 1, 3, True)
def u0s(chk): state_units(chk, "ekf0_2", 1, 3, True)
def te(chk): time_units(chk, "euler", 2, 4)
def t0(chk): time_units(chk, "ekf0", 2, 2)
def t1(chk): time_units(chk, "ekf1", 1, 3)
def t0_2(chk): time_units(chk, "ekf0_2", 2, 2)
def t1_2(chk): time_units(chk, "ekf1_2", 1, 2)
def n0(chk): default_units(chk, "ekf0", 2, 2)
def n1(chk): default_units(chk, "ekf1", 1, 2)
def s1(chk): sde_units(chk, 1, 3)
def s2(chk): sde_units(chk, 2, 2)
def le(chk): law_units(chk, "em", 2)
def ld(chk): law_units(chk, "diag", 1)
def ld2(chk): law_units(chk, "diag", 2)
def lh(chk): law_units(chk, "hypo", 2)
def lp(chk): law_units(chk, "parabola", 2)
def lw(chk): law_units(chk, "path", 1)
def c1(chk): curve_units(chk, 1)
def c3(chk): curve_units(chk, 3)
def lf(chk): law_units(chk, "fine", 1)
HARNESSES = ["b1", "b2", "b3", "bs", "u0", "u1", "u0_2", "u1_2", "u1s", "u0s", "te", "t0", "t1", "t0_2", "t1_2", "n0", "n1", "s1", "s2",
             "c1", "c3", "le", "ld", "ld2", "lh", "lp", "lw", "lf"]
