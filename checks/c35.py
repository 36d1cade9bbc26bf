"""C35 renaming the coordinates (and the noise sources) of a problem renames the result."""
import functools

from symjax.harness import *
from symjax.uf import uf, vec_fun, mat_fun
from checks import deep as dp
from checks.odef import *


class Perm:
    """y = x[p]: y_i is x_{p[i]}."""

    def __init__(self, p):
        self.p = list(p)
        self.inv = [self.p.index(i) for i in range(len(self.p))]

    def v(self, x):
        return x[jnp.array(self.p)]

    def back(self, y):
        return y[jnp.array(self.inv)]

    def field(self, f):
        return lambda y, *t: self.v(f(self.back(y), *t))

    def mat(self, s, q=None):
        return lambda y, *t: self.v(s(self.back(y), *t))[:, jnp.array(q.p if q else self.p)]

    def M(self, P):
        return P[jnp.array(self.p)][:, jnp.array(self.p)]


P2, P3, P4 = Perm([1, 0]), Perm([2, 0, 1]), Perm([2, 3, 1, 0])
PERM = {2: P2, 3: P3, 4: P4}


def pairs(h, r):
    for k in range(len(r.out[0])):
        h.eq(f"output {k}", r, lambda o: O(o[1][k]), lambda o: O(o[0][k]))


def convert(chk, d, m):
    from bayesian_sde_solver import ito_stratonovich as S
    h = Harness(chk, f"convert_d{d}_m{m}")
    p = PERM[d]
    q = PERM[m] if m > 1 else Perm([0])
    f, s = vec_fun("f", d), mat_fun("s", d, m)
    x, t = h.arr("x", d), h.scalar("t")

    def run(x, t):
        out = []
        for conv in (S.to_stratonovich, S.to_ito):
            a, b = conv(f, s)
            c, e = conv(p.field(f), p.mat(s, q))
            out.append(([p.v(a(x, t)), p.v(b(x, t))[:, jnp.array(q.p)]], [c(p.v(x), t), e(p.v(x), t)]))
        return [u for a, _ in out for u in a], [u for _, a in out for u in a]

    pairs(h, h.encode("conversions", run, x, t))
    chk.bound("dimension up to 4 with one fixed permutation without fixed points per dimension; arbitrary drift, diffusion, start for conversions and schemes, "
              "sized instances (numeric Jacobian, step, prior; arbitrary start and time-dependent part) for the filters")


def pathwise(chk, d, m, N):
    from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise as em
    from bayesian_sde_solver.ode_solvers import euler
    h = Harness(chk, f"pathwise_d{d}_m{m}_N{N}")
    p = PERM[d]
    q = PERM[m] if m > 1 else Perm([0])
    f, s = vec_fun("f", d), mat_fun("s", d, m)
    W, x0, dt = h.arr("w", N, m), h.arr("x", d), h.scalar("h", lo=0.2, hi=0.6, pos=True)

    def run(W, x, dt):
        a, b = em(W, x, f, s, dt, N)[1], euler(x, f, dt, N)
        c, e = em(W[:, jnp.array(q.p)], p.v(x), p.field(f), p.mat(s, q), dt, N)[1], euler(p.v(x), p.field(f), dt, N)
        return [a[:, jnp.array(p.p)], p.v(b)], [c, e]

    pairs(h, h.encode("schemes", run, W, x0, dt))


def law(chk, which, d):
    """One step of a sampled scheme: mean and covariance are permuted."""
    from bayesian_sde_solver import sde_solvers as ss
    h = Harness(chk, f"law_{which}_d{d}")
    x0, dt = h.arr("x", d), h.scalar("h", lo=0.2, hi=0.6, pos=True)
    if which == "euler_maruyama":
        p = PERM[d]
        f, s = vec_fun("f", d), mat_fun("s", d, 2)
        a = lambda k, x, dt: ss.euler_maruyama(k, x, f, s, dt, 1)[1][1]
        b = lambda k, x, dt: ss.euler_maruyama(k, p.v(x), p.field(f), lambda y, t: p.v(s(p.back(y), t)), dt, 1)[1][1]
    else:   # only the rough coordinates may be renamed
        p = Perm([0] + [1 + i for i in PERM[d - 1].p])
        f = vec_fun("f", d, time=False)
        g = mat_fun("g", d - 1, d - 1, time=False)
        S_ = lambda x: jnp.zeros((d, d)).at[1:, :d - 1].set(jnp.stack([jnp.stack([uf(f"g{i}{j}", *[x[k] for k in range(d)]) for j in range(d - 1)]) for i in range(d - 1)]))
        a = lambda k, x, dt: ss.hypoelliptic_diffusion_15_scheme(k, x, f, S_, dt, 1)[1][1]
        b = lambda k, x, dt: ss.hypoelliptic_diffusion_15_scheme(k, p.v(x), p.field(f), lambda y: p.v(S_(p.back(y))), dt, 1)[1][1]
    r = h.encode(which, lambda k, x, dt: (p.v(a(k, x, dt)), b(k, x, dt)), h.key(), x0, dt)
    La, Lb = Law(h, r, lambda o: O(o[0])), Law(h, r, lambda o: O(o[1]))
    Lb.require("mean", "mean", La.mean())
    Lb.require("covariance", "cov", La.cov())


def diag(chk, d):
    """Order 1.5, diagonal noise: the moments of the step are permuted."""
    from bayesian_sde_solver import sde_solvers as ss
    h = Harness(chk, f"diag15_d{d}")
    p = PERM[d]
    f = vec_fun("f", d, time=False)
    b = lambda x: jnp.diag(jnp.stack([uf(f"b{i}", x[i]) for i in range(d)]))
    x0, dt = h.arr("x", d), h.scalar("h", lo=0.2, hi=0.6, pos=True)
    r = h.encode("diag_15_scheme", lambda k, x, dt: (p.v(ss.diag_15_scheme(k, x, f, b, dt, 1)[1][1]),
                                                     ss.diag_15_scheme(k, p.v(x), p.field(f), p.mat(b), dt, 1)[1][1]), h.key(), x0, dt)
    La, Lb = Law(h, r, lambda o: O(o[0])), Law(h, r, lambda o: O(o[1]))
    Lb.require("mean", "mean", La.mean())
    Lb.require("covariance", "cov", La.cov())


def filters(chk, which, d, N, noise=False, prior=False):
    from bayesian_sde_solver import ode_solvers as os_
    sol = getattr(os_, which)
    h = Harness(chk, f"{which}_d{d}_N{N}{'_noise' if noise else ''}{'_prior' if prior else ''}")
    p = PERM[d]
    f = dp.Affine(h, d)
    x0 = h.arr("x", d)
    P, R = dp.fl(dp.spd(h, "P", d)), (dp.fl(dp.spd(h, "R", d)) if noise else None)
    pr = tuple(map(dp.fl, (dp.nums(h, "xi", 2 * d), dp.spd(h, "Q", 2 * d), dp.nums(h, "A", 2 * d, 2 * d)))) if prior else None
    two = Perm([2 * i + j for i in p.p for j in range(2)])
    pr2 = (two.v(pr[0]), two.M(pr[1]), two.M(pr[2])) if prior else None
    R2 = p.M(R) if noise else None

    def run(x):
        if which.endswith("_2"):
            (_, m, C), (_, fm, FC, z, S) = sol(None, (x, x, P), f, 0.5, N, prior=pr, noise=R, return_all=True)
            (_, m2, C2), (_, fm2, FC2, z2, S2) = sol(None, (p.v(x), p.v(x), p.M(P)), p.field(f), 0.5, N, prior=pr2, noise=R2, return_all=True)
            pz = lambda u: p.M(u) if u.ndim == 2 else p.v(u)
            return [p.v(m), p.M(C), two.v(fm), two.M(FC), pz(z), pz(S)], [m2, C2, fm2, FC2, z2, S2]
        return [p.v(sol(None, x, f, 0.5, N, sqrt=False, prior=pr, noise=R))], [sol(None, p.v(x), p.field(f), 0.5, N, sqrt=False, prior=pr2, noise=R2)]

    pairs(h, h.encode(which, run, x0))


def higher(chk, which, d, n, N):
    """Restarted integrator with n states per coordinate."""
    from bayesian_sde_solver import ode_solvers as os_
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function as tf
    sol = getattr(os_, which)
    h = Harness(chk, f"{which}_n{n}_d{d}_N{N}")
    p = PERM[d]
    f = dp.Affine(h, d)
    x0 = h.arr("x", d)

    def run(x):
        pr = tf(theta=0.0, sigma=1.0, q=n - 1, dt=0.5, dim=d)
        return [p.v(sol(None, x, f, 0.5, N, sqrt=False, prior=pr))], [sol(None, p.v(x), p.field(f), 0.5, N, sqrt=False, prior=pr)]

    pairs(h, h.encode(which, run, x0))


def interval(chk, which, d, N, noise=False):
    from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola
    sol = (ekf0_marginal_parabola, ekf1_marginal_parabola)[which]
    h = Harness(chk, f"ssm{which}_d{d}_N{N}{'_noise' if noise else ''}")
    p = PERM[d]
    f = dp.Affine(h, d)
    x0, Sg = h.arr("x", d), dp.fl(dp.nums(h, "s", d, d))
    R = dp.fl(dp.spd(h, "R", d)) if noise else None
    s = lambda x, t: Sg * (1 + t)

    def run(x):
        a = sol(None, x, 0.75, f, s, 0.75 / N, N, sqrt=False, noise=R)
        b = sol(None, p.v(x), 0.75, p.field(f), p.mat(s), 0.75 / N, N, sqrt=False, noise=p.M(R) if noise else None)
        return [p.v(u) for u in a], list(b)

    pairs(h, h.encode("interval filter", run, x0))


def driver(chk, d, N):
    """Driver with a fixed Brownian curve and Euler steps."""
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.ode_solvers import euler
    h = Harness(chk, f"driver_d{d}_N{N}")
    p = PERM[d]
    f, s = vec_fun("f", d), mat_fun("s", d, d)
    x0, dl, w = h.arr("x", d), h.scalar("delta", lo=0.4, hi=0.8, pos=True), h.arr("w", d)

    def go(key, x, dl, f, s, w):
        bm = lambda: ((lambda k, dt: (w * dt,)), (lambda t, dt, a: a * t * t / dt))
        return sde_solver(key=key, drift=f, sigma=s, x0=x, bm=bm, delta=dl, N=N,
                          ode_int=lambda key, init, vector_field, T: euler(init, vector_field, T / 2, 2))[1]

    r = h.encode("sde_solver", lambda k, x, dl, w: ([go(k, x, dl, f, s, w)[:, jnp.array(p.p)]],
                                                    [go(k, p.v(x), dl, p.field(f), p.mat(s), p.v(w))]), h.key(), x0, dl, w)
    pairs(h, r)


def c22(chk): convert(chk, 2, 2)
def c32(chk): convert(chk, 3, 2)
def c44(chk): convert(chk, 4, 4)
def p22(chk): pathwise(chk, 2, 2, 3)
def p32(chk): pathwise(chk, 3, 2, 2)
def p41(chk): pathwise(chk, 4, 1, 2)
def le2(chk): law(chk, "euler_maruyama", 2)
def le3(chk): law(chk, "euler_maruyama", 3)
def lh3(chk): law(chk, "hypoelliptic", 3)
def g2(chk): diag(chk, 2)
def f0(chk): filters(chk, "ekf0", 3, 2)
def f1(chk): filters(chk, "ekf1", 3, 2)
def f0n(chk): filters(chk, "ekf0", 4, 1, True, True)
def f1n(chk): filters(chk, "ekf1", 3, 2, True, True)
def k0(chk): filters(chk, "ekf0_2", 3, 2)
def k1(chk): filters(chk, "ekf1_2", 3, 2)
def k0n(chk): filters(chk, "ekf0_2", 2, 3, True, True)
def k1n(chk): filters(chk, "ekf1_2", 3, 2, True, True)
def h0(chk): higher(chk, "ekf0", 3, 3, 2)
def h1(chk): higher(chk, "ekf1", 3, 4, 2)
def i0(chk): interval(chk, 0, 3, 2)
def i1(chk): interval(chk, 1, 3, 1)
def i1n(chk): interval(chk, 1, 2, 2, True)
def d2(chk): driver(chk, 2, 3)
def d3(chk): driver(chk, 3, 2)
HARNESSES = ["c22", "c32", "c44", "p22", "p32", "p41", "le2", "le3", "lh3", "g2", "f0", "f1", "f0n", "f1n", "k0", "k1", "k0n", "k1n",
             "h0", "h1", "i0", "i1", "i1n", "d2", "d3"]
