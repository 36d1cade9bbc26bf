"""C34 a run cut at a grid time and resumed with the clock moved on is the uncut run."""
import functools

from symjax.harness import *
from symjax.uf import uf, vec_fun, mat_fun
from checks import deep as dp
from checks.odef import *


def later(f, t0):
    return lambda x, t: f(x, t + t0)


def join(a, b):
    return jnp.concatenate([a, b[1:]])


def pathwise(chk, d, m, N, k):
    from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise as em
    h = Harness(chk, f"em_pathwise_d{d}_m{m}_N{N}_cut{k}")
    f, s = vec_fun("f", d), mat_fun("s", d, m)
    W, x0, dt = h.arr("w", N, m), h.arr("x", d), h.scalar("h", lo=0.2, hi=0.6, pos=True)

    def run(W, x, dt):
        out = []
        for std in (False, True):
            t, X = em(W, x, f, s, dt, N, standard=std)
            t1, X1 = em(W[:k], x, f, s, dt, k, standard=std)
            t2, X2 = em(W[k:], X1[-1], later(f, k * dt), later(s, k * dt), dt, N - k, standard=std)
            out.append((X, join(X1, X2), t, join(t1, t1[-1] + t2)))
        return out

    r = h.encode("euler_maruyama_pathwise, cut", run, W, x0, dt)
    for i in (0, 1):
        h.eq(f"trajectory ({'standard' if i else 'plain'} increments)", r, lambda o: O(o[i][1]), lambda o: O(o[i][0]))
        h.eq(f"times ({i})", r, lambda o: O(o[i][3]), lambda o: O(o[i][2]))
    chk.bound("arbitrary drift and diffusion, start, step; up to 17 steps cut anywhere, dimension up to 3")


def euler(chk, d, N, k):
    from bayesian_sde_solver.ode_solvers import euler as eu
    h = Harness(chk, f"euler_d{d}_N{N}_cut{k}")
    f = vec_fun("f", d)
    x0, dt = h.arr("x", d), h.scalar("h", lo=0.1, hi=0.4, pos=True)
    r = h.encode("euler, cut", lambda x, dt: (eu(x, f, dt, N), eu(eu(x, f, dt, k), later(f, k * dt), dt, N - k)), x0, dt)
    h.eq("end point", r, lambda o: O(o[1]), lambda o: O(o[0]))


def driver(chk, which, d, N, k, cont=False):
    """Key-free interval integrator and a Brownian approximation that is a fixed function of the interval length."""
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.ssm_parabola import ssm_parabola_ode_solver
    h = Harness(chk, f"{which}_d{d}_N{N}_cut{k}{'_tuple' if cont else ''}")
    f, s = vec_fun("f", d), mat_fun("s", d, d)
    x0, dl = h.arr("x", d), h.scalar("delta", lo=0.4, hi=0.8, pos=True)

    def step(x, g, T):
        v = g(x, T / 3)
        return jnp.stack([uf(f"F{i}", *[x[j] for j in range(d)], *[v[j] for j in range(d)], T) for i in range(d)])

    def bm():
        return (lambda key, dt: (dt * jnp.arange(1.0, d + 1),)), (lambda t, dt, a: a * t * t / dt)

    def ode_int(key, init, vector_field, T):
        if cont:
            a, b = init
            y = step(a + b, vector_field, T)
            return y, y - a
        return step(init, vector_field, T)

    def solver(key, init, drift, diffusion, T):
        y = step(init, lambda x, t: drift(x, t) + diffusion(x, 2 * t) @ jnp.arange(1.0, d + 1), T)
        return y, y, y

    def go(key, f, s, x, n, dl):
        if which == "ssm":
            return ssm_parabola_ode_solver(key=key, drift=f, sigma=s, x0=x, delta=dl, N=n, solver=solver)
        return sde_solver(key=key, drift=f, sigma=s, x0=x, bm=bm, delta=dl, N=n, ode_int=ode_int)[:2]

    def run(key, x, dl):
        start = (x, 2 * x) if cont else x
        t, X = go(key, f, s, start, N, dl)
        t1, X1 = go(key, f, s, start, k, dl)
        mid = tuple(v[-1] for v in X1) if cont else X1[-1]
        t2, X2 = go(key, later(f, k * dl), later(s, k * dl), mid, N - k, dl)
        tup = (lambda v: v) if cont else (lambda v: (v,))
        return t, join(t1, t1[-1] + t2), [(a, join(b, c)) for a, b, c in zip(tup(X), tup(X1), tup(X2))]

    r = h.encode(f"{which} driver, cut", run, h.key(), x0, dl)
    for i in range(len(r.out[2])):
        h.eq(f"trajectory, component {i}", r, lambda o: O(o[2][i][1]), lambda o: O(o[2][i][0]))
    h.eq("times", r, lambda o: O(o[1]), lambda o: O(o[0]))


def filt_cut(chk, d, o, N, k, sqrt=False):
    """The filter resumed from its posterior with the remaining parameters."""
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    h = Harness(chk, f"filter_d{d}_o{o}_N{N}_cut{k}{'_sqrt' if sqrt else ''}")
    A, xi, H = dp.nums(h, "A", d, d), dp.nums(h, "xi", d), dp.nums(h, "H", o, d)
    if sqrt:
        P, Q, R = (h.lift(eye(n) + np.tril(O(dp.nums(h, t, n, n)), -1)) for t, n in (("P", d), ("Q", d), ("R", o)))
    else:
        P, Q, R = dp.spd(h, "P", d), dp.spd(h, "Q", d), dp.spd(h, "R", o)
    Pf, Qf, Rf, Af, xf, Hf = map(dp.fl, (P, Q, R, A, xi, H))
    m0, ts = h.arr("m", d), h.arr("t", N)
    f = dp.Affine(h, d)

    def run(m, ts):
        obs = lambda x, t: Hf @ f(x, t)
        a = ekf((m, Pf), obs, Af, Qf, xf, Rf, params=(ts,), lower_sqrt=sqrt)
        b = ekf((m, Pf), obs, Af, Qf, xf, Rf, params=(ts[:k],), lower_sqrt=sqrt)
        b = ekf(b, obs, Af, Qf, xf, Rf, params=(ts[k:],), lower_sqrt=sqrt)
        sq = lambda P: P @ P.T if sqrt else P
        return a[0], sq(a[1]), b[0], sq(b[1])

    r = h.encode("ekf, cut", run, m0, ts)
    h.eq("mean", r, lambda o: O(o[2]), lambda o: O(o[0]))
    h.eq("covariance", r, lambda o: O(o[3]), lambda o: O(o[1]))


def composed(chk, d, N, k):
    """Fine Brownian pieces: driving Euler-Maruyama with half-interval paths end to end = with the concatenated increments."""
    from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise as em
    from bayesian_sde_solver import foster_polynomial as fp
    h = Harness(chk, f"pieces_d{d}_N{N}")
    f, s = vec_fun("f", d), mat_fun("s", d, d)
    x0, dl = h.arr("x", d), h.scalar("delta", lo=0.4, hi=0.8, pos=True)

    def run(key, x, dl):
        get, _ = fp.get_approx_and_brownian(dim=d, N=N)
        ks = jax.random.split(key, k)
        inc = [get(ks[i], dl)[2] for i in range(k)]
        whole = em(jnp.concatenate(inc), x, f, s, dl / N, N * k, standard=True)[1]
        rows = [x[None]]
        for i in range(k):
            rows.append(em(inc[i], rows[-1][-1], later(f, i * dl), later(s, i * dl), dl / N, N, standard=True)[1][1:])
        return whole, jnp.concatenate(rows)

    r = h.encode("pieces of a fine path", run, h.key(), x0, dl)
    h.eq("trajectory", r, lambda o: O(o[1]), lambda o: O(o[0]))


def p1(chk): pathwise(chk, 1, 1, 4, 1)
def p2(chk): pathwise(chk, 2, 1, 5, 3)
def p3(chk): pathwise(chk, 3, 2, 3, 2)
def p6(chk): pathwise(chk, 1, 2, 6, 3)
def e1(chk): euler(chk, 1, 5, 2)
def e2(chk): euler(chk, 2, 4, 3)
def e3(chk): euler(chk, 3, 3, 1)
def d1(chk): driver(chk, "driver", 1, 4, 1)
def d2(chk): driver(chk, "driver", 2, 3, 2)
def d3(chk): driver(chk, "driver", 3, 4, 2)
def dt(chk): driver(chk, "driver", 1, 3, 1, True)
def dt2(chk): driver(chk, "driver", 2, 4, 2, True)
def s1(chk): driver(chk, "ssm", 1, 4, 1)
def s2(chk): driver(chk, "ssm", 2, 3, 2)
def s3(chk): driver(chk, "ssm", 3, 4, 2)
def f1(chk): filt_cut(chk, 1, 1, 6, 2)
def f2(chk): filt_cut(chk, 3, 2, 4, 1)
def f3(chk): filt_cut(chk, 2, 2, 5, 4)
def fs(chk): filt_cut(chk, 1, 1, 5, 3, True)
def c2(chk): composed(chk, 2, 2, 2)
def f17(chk): filt_cut(chk, 1, 1, 17, 9)
def d17(chk): driver(chk, "driver", 1, 17, 11)
def s17(chk): driver(chk, "ssm", 1, 17, 11)
HARNESSES = ["p1", "p2", "p3", "p6", "e1", "e2", "e3", "d1", "d2", "d3", "dt", "dt2", "s1", "s2", "s3", "f1", "f2", "f3", "fs", "c2", "f17", "d17", "s17"]
