"""C08 pathwise Euler-Maruyama on given increments."""
from symjax.harness import *
from symjax.uf import vec_fun, mat_fun


def path(chk, d, m, N):
    from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise as em
    h = Harness(chk, f"path_d{d}_m{m}_N{N}")
    f, s = vec_fun("f", d), mat_fun("s", d, m)
    x0, dt, W = h.arr("x", d), h.scalar("h", pos=True), h.arr("w", N, m)

    def run(W, x, dt):
        return em(W, x, f, s, dt, N), em(W, x, f, s, dt, N, standard=True), em(W, x, f, s, dt, N, standard=False), W, x, dt, jnp.sqrt(dt)

    r = h.encode("euler_maruyama_pathwise", run, W, x0, dt)

    def spec(o, scaled):
        x, dl, W = O(o[4]), S(o[5]), O(o[3])
        sc = S(o[6]) if scaled else 1
        rows = [x]
        for k in range(N):
            t = dl * k
            x = x + h.uf_vec("f", x, t) * dl + h.uf_mat("s", x, t, m) @ (W[k] * sc)
            rows.append(x)
        return np.stack(rows)

    h.eq("increments used as given by default", r, lambda o: O(o[0][1]), lambda o: spec(o, False))
    h.eq("standard increments are scaled by sqrt(h)", r, lambda o: O(o[1][1]), lambda o: spec(o, True))
    h.eq("standard=False", r, lambda o: O(o[2][1]), lambda o: spec(o, False))
    for j in (0, 1):
        h.eq(f"time grid {j}", r, lambda o: O(o[j][0]), lambda o: vec(*[S(o[5]) * k for k in range(N + 1)]))
    chk.bound("state dim, Brownian dim <= 3, N <= 101 (dim 1), 33 (dim 2), 12 (dim 3); any increments, f, s, h, x0")


def same_as_sampled(chk):
    """Fed with the sampled solver's own increments, the pathwise solver reproduces its trajectory."""
    from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise as em, euler_maruyama
    d, m, N = 2, 1, 3
    h = Harness(chk, "coupling")
    f, s = vec_fun("f", d), mat_fun("s", d, m)
    x0, dt = h.arr("x", d), h.scalar("h", pos=True)

    def run(key, x, dt):
        _, X = euler_maruyama(key, x, f, s, dt, N)
        _, W = euler_maruyama(key, jnp.zeros((m,)), lambda x, t: jnp.zeros((m,)), lambda x, t: jnp.eye(m), dt, N)
        _, Y = em(W[1:] - W[:-1], x, f, s, dt, N)
        _, Z = em((W[1:] - W[:-1]) / jnp.sqrt(dt), x, f, s, dt, N, standard=True)
        return X, Y, Z

    r = h.encode("sampled and pathwise", run, h.key(), x0, dt)
    h.eq("pathwise", r, lambda o: O(o[1]), lambda o: O(o[0]))
    h.eq("pathwise standard", r, lambda o: O(o[2]), lambda o: O(o[0]))


def fine_brownian(chk):
    """The increments returned with the sampled-path parabola drive the pathwise solver consistently:
    with f=0, s=I, its end point is the end value of the parabola."""
    from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise as em
    from bayesian_sde_solver.foster_polynomial import get_approx_and_brownian
    h = Harness(chk, "fine_brownian")
    dt = h.scalar("dt", pos=True)
    N, m = 3, 2

    def run(key, dt):
        co, ev = get_approx_and_brownian(dim=m, N=N)
        a, b, inc = co(key, dt)
        _, X = em(inc, jnp.zeros((m,)), lambda x, t: jnp.zeros((m,)), lambda x, t: jnp.eye(m), dt / N, N, standard=True)
        return X[-1], ev(dt, dt, a, b, inc)

    r = h.encode("pathwise on the fine increments", run, h.key(), dt)
    h.eq("end value", r, lambda o: O(o[0]), lambda o: O(o[1]))


def p112(chk): path(chk, 1, 1, 2)
def p213(chk): path(chk, 2, 1, 3)
def p122(chk): path(chk, 1, 2, 2)
def p222(chk): path(chk, 2, 2, 2)
def p226(chk): path(chk, 2, 2, 6)
def p1112(chk): path(chk, 1, 1, 12)
def p324(chk): path(chk, 3, 2, 4)
def p334(chk): path(chk, 3, 3, 4)
def p134(chk): path(chk, 1, 3, 4)
def p11101(chk): path(chk, 1, 1, 101)
def p2233(chk): path(chk, 2, 2, 33)
def p3312(chk): path(chk, 3, 3, 12)
for _n in (p11101, p2233, p3312):
    _n.mild = 0.05
HARNESSES = ["p112", "p213", "p122", "p222", "same_as_sampled", "fine_brownian", "p226", "p1112", "p324", "p334", "p134", "p11101", "p2233", "p3312"]
HARNESSES += at_literals(globals(), ['p213', 'same_as_sampled'], ['h'], (1, 0.25))
