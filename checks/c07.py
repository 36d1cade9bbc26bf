"""C07 Euler-Maruyama."""
from symjax.harness import *
from symjax.uf import vec_fun, mat_fun


def law(chk, d, m):
    from bayesian_sde_solver.sde_solvers import euler_maruyama
    h = Harness(chk, f"onestep_law_d{d}_m{m}")
    f, s = vec_fun("f", d), mat_fun("s", d, m)
    x0, dt = h.arr("x", d), h.scalar("h", pos=True)
    r = h.encode("euler_maruyama", lambda key, x, dt: euler_maruyama(key, x, f, s, dt, 1), h.key(), x0, dt)
    t0 = h.V(0)
    L = Law(h, r, lambda o: O(o[1])[1])
    L.require_affine("increment Gaussian")
    L.require("mean x + h f", "mean", O(x0) + h.uf_vec("f", x0, t0) * dt.item())
    sg = h.uf_mat("s", x0, t0, m)
    L.require("covariance h s s^T", "cov", (sg @ sg.T) * dt.item())
    h.eq("initial value kept", r, lambda o: O(o[1])[0], O(x0))


def path(chk, d, m, N):
    """Whole trajectories, with the increments revealed by a second run of the solver on pure Brownian motion."""
    from bayesian_sde_solver.sde_solvers import euler_maruyama
    h = Harness(chk, f"path_d{d}_m{m}_N{N}")
    f, s = vec_fun("f", d), mat_fun("s", d, m)
    x0, dt = h.arr("x", d), h.scalar("h", pos=True)

    def run(key, x, dt):
        ts, X = euler_maruyama(key, x, f, s, dt, N)
        _, W = euler_maruyama(key, jnp.zeros((m,)), lambda x, t: jnp.zeros((m,)), lambda x, t: jnp.eye(m), dt, N)
        return ts, X, W, x, dt

    r = h.encode("euler_maruyama", run, h.key(), x0, dt)
    L = Law(h, r, lambda o: cat(*[O(o[2])[k + 1] - O(o[2])[k] for k in range(N)]))
    L.require_affine("increments Gaussian")
    L.require("increments centred", "mean", zeros(N * m))
    L.require("increments independent with variance h", "cov", eye(N * m) * dt.item())

    def spec(o):
        x, dl = O(o[3]), S(o[4])
        W = O(o[2])
        rows = [x]
        for k in range(N):
            t = dl * k
            x = x + h.uf_vec("f", x, t) * dl + h.uf_mat("s", x, t, m) @ (W[k + 1] - W[k])
            rows.append(x)
        return np.stack(rows)

    h.eq("trajectory", r, lambda o: O(o[1]), spec)
    h.eq("time grid", r, lambda o: O(o[0]), lambda o: vec(*[S(o[4]) * k for k in range(N + 1)]))
    chk.bound("state dim and Brownian dim <= 3 (square and rectangular; 4 for one step), N <= 65 steps (dim 1), 17 (dim 2), 10 (dim 3); any f, s, h, x0, key")


def l11(chk): law(chk, 1, 1)
def l21(chk): law(chk, 2, 1)
def l22(chk): law(chk, 2, 2)
def l32(chk): law(chk, 3, 2)
def p112(chk): path(chk, 1, 1, 2)
def p213(chk): path(chk, 2, 1, 3)
def p122(chk): path(chk, 1, 2, 2)
def p222(chk): path(chk, 2, 2, 2)
def p225(chk): path(chk, 2, 2, 5)
def l44(chk): law(chk, 4, 4)
def p118(chk): path(chk, 1, 1, 8)
def p324(chk): path(chk, 3, 2, 4)
def p333(chk): path(chk, 3, 3, 3)
def p134(chk): path(chk, 1, 3, 4)
def p1165(chk): path(chk, 1, 1, 65)
def p2217(chk): path(chk, 2, 2, 17)
def p3310(chk): path(chk, 3, 3, 10)
for _n in (p1165, p2217, p3310):
    _n.mild = 0.05
HARNESSES = ["l11", "l21", "l22", "l32", "p112", "p213", "p122", "p222", "p225", "l44", "p118", "p324", "p333", "p134", "p1165", "p2217", "p3310"]
HARNESSES += at_literals(globals(), ['l32', 'p222'], ['h'], (1, 0.25))
