"""C31 runs mapped over keys, starts and parameters give each run's own result."""
import functools

from symjax.harness import *
from symjax.uf import uf, vec_fun, mat_fun
from checks import deep as dp
from checks.odef import *

B = 2


def compare(chk, h, label, one, key, args, keyed=True):
    """vmap(one) over B keys and rows of args against one call per row."""
    def run(key, *a):
        ks = jax.random.split(key, B)
        if keyed:
            allb = jax.vmap(one)(ks, *a)
        else:
            allb = jax.vmap(lambda *b: one(None, *b))(*a)
        single = [one(ks[i] if keyed else None, *[v[i] for v in a]) for i in range(B)]
        jit = jax.jit(one)(ks[B - 1], *[v[B - 1] for v in a]) if keyed else jax.jit(lambda *b: one(None, *b))(*[v[B - 1] for v in a])
        fl = lambda o: jax.tree_util.tree_leaves(o)
        return fl(allb), [fl(s) for s in single], fl(jit)

    r = h.encode(label, run, key, *args)
    n = len(r.out[0])
    for k in range(n):
        h.eq(f"mapped run, output {k}", r, lambda o: O(o[0][k]), lambda o: np.stack([O(o[1][i][k]) for i in range(B)]))
        h.eq(f"compiled run, output {k}", r, lambda o: O(o[2][k]), lambda o: O(o[1][B - 1][k]))
    chk.bound("two runs mapped together (keys, starts and interval length differ), each output compared with the single run and the compiled "
              "single run; arbitrary drift and diffusion; dimension 2, up to 3 steps or intervals")


def schemes(chk, which):
    from bayesian_sde_solver import sde_solvers as ss
    h = Harness(chk, which)
    d = 2
    x0, hh = h.arr("x", B, d), h.arr("h", B, lo=0.2, hi=0.6, pos=True)
    if which == "euler_maruyama":
        one = lambda k, x, dt: ss.euler_maruyama(k, x, vec_fun("f", d), mat_fun("s", d, 2), dt, 3)
    elif which == "diag_15_scheme":
        f = vec_fun("f", d, time=False)
        one = lambda k, x, dt: ss.diag_15_scheme(k, x, f, lambda x: jnp.diag(jnp.stack([uf(f"b{i}", x[i]) for i in range(d)])), dt, 1)
    else:
        f = vec_fun("f", d, time=False)
        g = lambda x: jnp.zeros((d, d)).at[1, 0].set(uf("g", x[0], x[1]))
        one = lambda k, x, dt: ss.hypoelliptic_diffusion_15_scheme(k, x, f, g, dt, 2)
    compare(chk, h, which, one, h.key(), (x0, hh))


def pathwise(chk):
    from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise
    h = Harness(chk, "pathwise")
    dW, x0, hh = h.arr("w", B, 3, 2), h.arr("x", B, 2), h.arr("h", B, lo=0.2, hi=0.6, pos=True)
    one = lambda k, w, x, dt: euler_maruyama_pathwise(w, x, vec_fun("f", 2), mat_fun("s", 2, 2), dt, 3)
    compare(chk, h, "euler_maruyama_pathwise", one, h.key(), (dW, x0, hh), keyed=False)


def brownian(chk):
    from bayesian_sde_solver import foster_polynomial as fp
    h = Harness(chk, "brownian")
    dt, t = h.arr("dt", B, lo=0.2, hi=0.6, pos=True), h.arr("t", B)

    def one(k, dt, t):
        out = []
        for get, ev in (fp.get_approx(2), fp.get_approx_and_brownian(2, 3), fp.get_approx_fine(2, 3)):
            co = get(k, dt)
            out += [*co, ev(t, dt, *co), jax.jacfwd(lambda t: ev(t, dt, *co))(t)]
        return out

    compare(chk, h, "Brownian approximations", one, h.key(), (dt, t))


def driver(chk, N):
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.foster_polynomial import get_approx
    from bayesian_sde_solver.ode_solvers import euler
    h = Harness(chk, f"driver_N{N}")
    x0, dl = h.arr("x", B, 2), h.arr("delta", B, lo=0.4, hi=0.8, pos=True)

    def one(k, x, dl):
        return sde_solver(key=k, drift=vec_fun("f", 2), sigma=mat_fun("s", 2, 1), x0=x, bm=functools.partial(get_approx, dim=1), delta=dl,
                          N=N, ode_int=lambda key, init, vector_field, T: euler(init, vector_field, T / 2, 2) + jax.random.normal(key, (2,)))

    compare(chk, h, "sde_solver", one, h.key(), (x0, dl))


def ssm_driver(chk):
    from bayesian_sde_solver.ssm_parabola import ssm_parabola_ode_solver
    h = Harness(chk, "ssm_driver")
    x0, dl = h.arr("x", B, 2), h.arr("delta", B, lo=0.4, hi=0.8, pos=True)

    def solver(key, init, drift, diffusion, T):
        y = init + T * drift(init, 0.0) + diffusion(init, T) @ jax.random.normal(key, (2,))
        return y, y, y

    one = lambda k, x, dl: ssm_parabola_ode_solver(key=k, drift=vec_fun("f", 2), sigma=mat_fun("s", 2, 2), x0=x, delta=dl, N=2, solver=solver)
    compare(chk, h, "ssm sde_solver", one, h.key(), (x0, dl))


def filters(chk, which, d, N, sqrt):
    from bayesian_sde_solver import ode_solvers as os_
    sol = getattr(os_, which)
    h = Harness(chk, f"{which}_d{d}_N{N}{'_sqrt' if sqrt else ''}")
    f = dp.Affine(h, d)
    x0 = h.arr("x", B, d)
    if which.endswith("_2"):
        P = dp.fl(dp.spd(h, "P", d))
        one = lambda k, x: sol(None, (x, x, P), f, 0.5, N, sqrt=sqrt)
    else:
        one = lambda k, x: sol(None, x, f, 0.5, N, sqrt=sqrt)
    compare(chk, h, which, one, h.key(), (x0,), keyed=False)


def interval(chk, which, d):
    from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola
    sol = (ekf0_marginal_parabola, ekf1_marginal_parabola)[which]
    h = Harness(chk, f"ssm{which}_d{d}")
    f = dp.Affine(h, d)
    s = dp.fl(dp.nums(h, "s", d, d))
    x0 = h.arr("x", B, d)
    one = lambda k, x: sol(None, x, 0.75, f, lambda x, t: s, 0.375, 2)
    compare(chk, h, "interval filter", one, h.key(), (x0,), keyed=False)


def em(chk): schemes(chk, "euler_maruyama")
def di(chk): schemes(chk, "diag_15_scheme")
def hy(chk): schemes(chk, "hypoelliptic_diffusion_15_scheme")
def dr1(chk): driver(chk, 1)
def dr3(chk): driver(chk, 3)
def f0(chk): filters(chk, "ekf0", 2, 2, False)
def f1(chk): filters(chk, "ekf1", 2, 2, False)
def f0s(chk): filters(chk, "ekf0", 1, 2, True)
def f1s(chk): filters(chk, "ekf1", 1, 2, True)
def f0_2(chk): filters(chk, "ekf0_2", 2, 2, False)
def f1_2(chk): filters(chk, "ekf1_2", 2, 2, False)
def i0(chk): interval(chk, 0, 2)
def i1(chk): interval(chk, 1, 2)
HARNESSES = ["em", "di", "hy", "pathwise", "brownian", "dr1", "dr3", "ssm_driver", "f0", "f1", "f0s", "f1s", "f0_2", "f1_2", "i0", "i1"]
