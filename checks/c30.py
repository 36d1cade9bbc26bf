"""C30 every method is exact (in the stated sense) for additive noise and a drift that is affine in time."""
import functools

from symjax.harness import *
from checks.odef import *


def problem(c, e, s):
    return (lambda x, t: c + e * t), (lambda x, t: s)


def symbols(h, d, m, sized):
    from checks import deep as dp
    x0, c, e = h.arr("x", d), h.arr("c", d), h.arr("e", d)
    if sized:
        return x0, c, e, dp.nums(h, "s", d, m), h.const(Fraction(3, 4)).reshape(())
    return x0, c, e, h.arr("s", d, m), h.scalar("delta", lo=0.4, hi=0.8, pos=True)


def gain(o, k):
    """integral of c + e t over the k-th interval."""
    c, e, dl = O(o["c"]), O(o["e"]), S(o["dl"])
    return c * dl + e * (dl * dl * Fraction(2 * k + 1, 2) if isinstance(dl, Value) else dl * dl * (2 * k + 1) / 2)


def third(o, M, N=1):
    """N intervals, M filter steps each: M (delta/M)^3 / 12 per interval."""
    dl = S(o["dl"])
    q = Fraction(N, 12 * M * M)
    return dl * dl * dl * (q if isinstance(dl, Value) else float(q))


def pathwise(chk, which, d, m, N, M, sqrt=False, fine=None, sized=False):
    """Driver + Brownian parabola + restarted or continued filter, no posterior sampling."""
    from bayesian_sde_solver import ode_solvers as os_
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver import foster_polynomial as fp
    sol = getattr(os_, which)
    cont = which.endswith("_2")
    h = Harness(chk, f"{which}_d{d}_m{m}_N{N}_M{M}{'_sqrt' if sqrt else ''}{'_' + fine if fine else ''}")
    x0, c, e, s, dl = symbols(h, d, m, sized)
    bm = {None: functools.partial(fp.get_approx, dim=m), "fine": functools.partial(fp.get_approx_fine, dim=m, N=2),
          "path": functools.partial(fp.get_approx_and_brownian, dim=m, N=2)}[fine]

    def run(key, x0, c, e, s, dl):
        f, g = problem(c, e, s)

        def ode_int(k, init, vector_field, T):
            return sol(None, init, vector_field, T / M, M, sqrt=sqrt)

        start = (x0, x0, jnp.zeros((d, d))) if cont else x0
        ts, X, *co = sde_solver(key=key, drift=f, sigma=g, x0=start, bm=bm, delta=dl, N=N, ode_int=ode_int)
        return dict(ts=ts, X=X, a=co[0], x=x0, c=c, e=e, s=s, dl=dl)

    r = h.encode(f"sde_solver + {which}", run, h.key(), x0, c, e, s, dl)

    def want(o):
        rows = [O(o["x"])]
        for k in range(N):
            rows.append(rows[-1] + gain(o, k) + O(o["s"]) @ O(o["a"])[k])
        return np.stack(rows)

    pick = (lambda o, i: O(o["X"][i])) if cont else (lambda o, i: O(o["X"]))
    h.eq("trajectory is exact at the interval ends", r, lambda o: pick(o, 1), want)
    if cont:
        h.eq("sample equals mean without a key", r, lambda o: pick(o, 0), want)
        h.eq("reported covariance accumulates the quadrature uncertainty", r, lambda o: pick(o, 2),
             lambda o: np.stack([eye(d) * third(o, M, k) if k else zeros(d, d) for k in range(N + 1)]))
    h.eq("time grid", r, lambda o: O(o["ts"]), lambda o: vec(*[S(o["dl"]) * k for k in range(N + 1)]))
    chk.bound("drift c + e t with arbitrary c and e, arbitrary constant diffusion (square or rectangular), start and interval length; "
              "dimension up to 3, up to 4 intervals of up to 6 filter steps; IBM prior")


def sampled(chk, which, d, m, N, M, sqrt=False):
    """With the posterior sampled: what is added is Gaussian with the quadrature uncertainty, independent of the path and across intervals."""
    from bayesian_sde_solver import ode_solvers as os_
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver import foster_polynomial as fp
    sol = getattr(os_, which)
    h = Harness(chk, f"{which}_sampled_d{d}_N{N}_M{M}{'_sqrt' if sqrt else ''}")
    x0, c, e, s, dl = symbols(h, d, m, False)

    def run(key, x0, c, e, s, dl):
        f, g = problem(c, e, s)
        ode_int = lambda k, init, vector_field, T: sol(k, init, vector_field, T / M, M, sqrt=sqrt)
        ts, X, *co = sde_solver(key=key, drift=f, sigma=g, x0=x0, bm=functools.partial(fp.get_approx, dim=m), delta=dl, N=N, ode_int=ode_int)
        return dict(X=X, a=co[0], b=co[1], x=x0, c=c, e=e, s=s, dl=dl)

    r = h.encode(f"sde_solver + {which} with sampling", run, h.key(), x0, c, e, s, dl)

    def resid(o):
        X = O(o["X"])
        return cat(*[X[k + 1] - X[k] - gain(o, k) - O(o["s"]) @ O(o["a"])[k] for k in range(N)],
                   *[O(o["a"])[k] for k in range(N)], *[O(o["b"])[k] for k in range(N)])

    o = dict(dl=dl)
    V = [eye(N * d) * third(o, M), eye(N * m) * dl.item(), eye(N * m) * (dl.item() * Fraction(1, 2))]
    n = N * (d + 2 * m)
    C, p = zeros(n, n), 0
    for v in V:
        C[p:p + len(v), p:p + len(v)] = v
        p += len(v)
    L = Law(h, r, resid)
    L.require("centred", "mean", zeros(n))
    L.require("quadrature uncertainty, independent of the path", "cov", C)


def in_state(chk, which, d, M, sqrt=False, sized=False):
    """Coefficients in the state: one interval gives x + int drift + s w plus the quadrature uncertainty, w a Brownian increment.
    (The area coefficient is informed by the observations through the prior, so its posterior law is not the Brownian one.)"""
    from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola
    sol = (ekf0_marginal_parabola, ekf1_marginal_parabola)[which]
    h = Harness(chk, f"ssm{which}_d{d}_M{M}{'_sqrt' if sqrt else ''}")
    x0, c, e, s, dl = symbols(h, d, d, sized)

    def run(key, x0, c, e, s, dl):
        f, g = problem(c, e, s)
        x, w, i = sol(key, x0, dl, f, g, dl / M, M, sqrt=sqrt)
        mx, mw, mi = sol(None, x0, dl, f, g, dl / M, M, sqrt=sqrt)
        return dict(X=x, w=w, i=i, x=x0, c=c, e=e, s=s, dl=dl, m=mx, mw=mw, mi=mi)

    r = h.encode("interval filter", run, h.key(), x0, c, e, s, dl)
    h.eq("mean end point", r, lambda o: O(o["m"]), lambda o: O(o["x"]) + gain(o, 0))
    h.eq("mean increment", r, lambda o: O(o["mw"]), zeros(d))
    L = Law(h, r, lambda o: cat(O(o["X"]) - O(o["x"]) - gain(o, 0), O(o["w"])))
    D, sm = dl.item(), O(s)
    C = zeros(2 * d, 2 * d)
    C[:d, :d] = sm @ sm.T * D + eye(d) * third(dict(dl=dl), M)
    C[:d, d:2 * d] = sm * D
    C[d:2 * d, :d] = sm.T * D
    C[d:2 * d, d:2 * d] = eye(d) * D
    L.require("centred", "mean", zeros(2 * d))
    L.require("joint law of end point and increment", "cov", C)


def schemes(chk, d, N):
    """Discretisation schemes: end point exact in law (drift constant for the schemes without time argument)."""
    from bayesian_sde_solver.sde_solvers import euler_maruyama, diag_15_scheme, hypoelliptic_diffusion_15_scheme
    h = Harness(chk, f"schemes_d{d}_N{N}")
    x0, c, s = h.arr("x", d), h.arr("c", d), h.arr("s", d)
    dl = h.scalar("delta", lo=0.4, hi=0.8, pos=True)

    def run(key, x0, c, s, dl):
        a = euler_maruyama(key, x0, lambda x, t: c, lambda x, t: jnp.diag(s), dl, N)
        b = diag_15_scheme(key, x0, lambda x: c + 0 * x, lambda x: jnp.diag(s), dl, N)
        return dict(em=a[1], di=b[1], x=x0, c=c, s=s, dl=dl)

    r = h.encode("schemes", run, h.key(), x0, c, s, dl)
    C = zeros(N * d, N * d)
    for k in range(N):
        for i in range(d):
            C[k * d + i, k * d + i] = s[i] * s[i] * dl.item()
    for nm in ("em", "di"):
        L = Law(h, r, lambda o: cat(*[O(o[nm])[k + 1] - O(o[nm])[k] - O(o["c"]) * S(o["dl"]) for k in range(N)]))
        L.require(f"{nm} centred", "mean", zeros(N * d))
        L.require(f"{nm} increments have the law of the solution", "cov", C)
    chk.bound("Euler-Maruyama and order 1.5: constant drift, diagonal constant diffusion, dimension up to 3, up to 3 steps")


def p0(chk): pathwise(chk, "ekf0", 1, 1, 3, 2)
def p1(chk): pathwise(chk, "ekf1", 1, 1, 3, 2)
def p0_2(chk): pathwise(chk, "ekf0_2", 1, 1, 3, 2)
def p1_2(chk): pathwise(chk, "ekf1_2", 1, 1, 3, 2)
def p0r(chk): pathwise(chk, "ekf0", 2, 3, 2, 2)
def p1r(chk): pathwise(chk, "ekf1", 3, 1, 2, 1, sqrt=True)
def p0_2r(chk): pathwise(chk, "ekf0_2", 2, 1, 2, 2)
def p1_2r(chk): pathwise(chk, "ekf1_2", 2, 2, 2, 2)
def p0f(chk): pathwise(chk, "ekf0", 1, 2, 2, 2, fine="fine")
def p1f(chk): pathwise(chk, "ekf1_2", 1, 1, 2, 1, fine="path")
def z0(chk): pathwise(chk, "ekf0_2", 3, 3, 4, 3, sized=True)
def z1(chk): pathwise(chk, "ekf1", 2, 2, 4, 6, sized=True, sqrt=True)
def z2(chk): pathwise(chk, "ekf1_2", 1, 1, 3, 6, sized=True, sqrt=True)
def s0(chk): sampled(chk, "ekf0", 1, 1, 2, 1)
def s1(chk): sampled(chk, "ekf1", 1, 1, 2, 2)
def s0s(chk): sampled(chk, "ekf0", 1, 2, 2, 2, True)
def s1r(chk): sampled(chk, "ekf1", 2, 1, 1, 1)
def m0(chk): in_state(chk, 0, 1, 1)
def m1(chk): in_state(chk, 1, 1, 2)
def m0s(chk): in_state(chk, 0, 1, 1, True)
def m2(chk): in_state(chk, 0, 2, 2, sized=True)
def m3(chk): in_state(chk, 1, 2, 3, sized=True)
def d1(chk): schemes(chk, 1, 3)
def d3(chk): schemes(chk, 3, 2)
HARNESSES = ["p0", "p1", "p0_2", "p1_2", "p0r", "p1r", "p0_2r", "p1_2r", "p0f", "p1f", "z0", "z1", "z2", "s0", "s1", "s0s", "s1r",
             "m0", "m1", "m0s", "m2", "m3", "d1", "d3"]
