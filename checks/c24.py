"""C24 the driver of the Brownian-parabola state-space method feeds every interval the right problem."""
from symjax.harness import *
from symjax.uf import uf, vec_fun, mat_fun
from checks.odef import *


def generic(chk, d, N):
    """Arbitrary interval solver, which may query drift and diffusion anywhere and returns extra coefficients."""
    from bayesian_sde_solver.ssm_parabola import ssm_parabola_ode_solver
    h = Harness(chk, f"generic_d{d}_N{N}")
    f, s = vec_fun("f", d), mat_fun("s", d, d)
    x0, delta = h.arr("x", d), h.scalar("delta", pos=True)
    zq, tq = h.arr("zq", d), h.scalar("tq")
    q = [None, None]

    def solver(key, init, drift, diffusion, T):
        a, b = drift(q[0], q[1]), diffusion(q[0], q[1])
        y = jnp.stack([uf(f"F{i}", *[init[j] for j in range(d)], *[a[j] for j in range(d)], *[b[i, j] for j in range(d)], T)
                       for i in range(d)])
        return y + jax.random.normal(key, (d,)), a, a

    def run(key, x0, delta, zq, tq):
        q[:] = zq, tq
        return ssm_parabola_ode_solver(key=key, drift=f, sigma=s, x0=x0, delta=delta, N=N, solver=solver), x0, delta, zq, tq

    r = h.encode("ssm_parabola sde_solver", run, h.key(), x0, delta, zq, tq)
    h.eq("time grid", r, lambda o: O(o[0][0]), lambda o: vec(*[S(o[2]) * k for k in range(N + 1)]))
    h.eq("starts at the initial value", r, lambda o: O(o[0][1])[0], lambda o: O(o[1]))

    def resid(o):
        out = []
        for k in range(N):
            dl, z, t = S(o[2]), O(o[3]), S(o[4])
            tk = dl * k + t
            a, b = h.uf_vec("f", z, tk), h.uf_mat("s", z, tk, d)
            x, y = O(o[0][1])[k], O(o[0][1])[k + 1]
            out += [y[i] - h.uf(f"F{i}", *x, *a, *b[i], dl) for i in range(d)]
        return vec(*out)

    L = Law(h, r, lambda o: resid(o))
    L.require_affine("solver noise enters as drawn")
    L.require("solver randomness centred", "mean", zeros(N * d))
    L.require("solver randomness standard and independent across intervals", "cov", eye(N * d))
    chk.bound("state dim <= 3, N <= 40 intervals (dim 1), 8 (dim 2), 5 (dim 3); arbitrary drift, diffusion and interval solver")


def end_to_end(chk, which, d, N, M):
    """With the real interval filter: every interval equals the interval filter on the time-shifted problem."""
    from bayesian_sde_solver.ssm_parabola import ssm_parabola_ode_solver, ekf0_marginal_parabola, ekf1_marginal_parabola
    sol = (ekf0_marginal_parabola, ekf1_marginal_parabola)[which]
    h = Harness(chk, f"ekf{which}_d{d}_N{N}_M{M}")
    f, s = vec_fun("f", d), mat_fun("s", d, d)
    x0, delta = h.arr("x", d), h.scalar("delta", lo=0.4, hi=0.8, pos=True)

    def run(x0, delta):
        def solver(key, init, drift, diffusion, T):
            return sol(None, init, delta=T, drift=drift, diffusion=diffusion, h=T / M, N=M)
        out = ssm_parabola_ode_solver(key=jax.random.PRNGKey(0), drift=f, sigma=s, x0=x0, delta=delta, N=N, solver=solver)
        x, xs = x0, [x0]
        for k in range(N):
            x = sol(None, x, delta, lambda z, t: f(z, t + k * delta), lambda z, t: s(z, t + k * delta), delta / M, M)[0]
            xs.append(x)
        return out, jnp.stack(xs), delta

    r = h.encode(f"ssm_parabola sde_solver with ekf{which}", run, x0, delta)
    h.eq("trajectory", r, lambda o: O(o[0][1]), lambda o: O(o[1]))
    h.eq("time grid", r, lambda o: O(o[0][0]), lambda o: vec(*[S(o[2]) * k for k in range(N + 1)]))


def ou_law(chk, which):
    """Additive noise, zero drift, IBM prior: one interval returns (x + sigma W, W, I) exactly jointly Brownian in W, I."""
    from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola
    sol = (ekf0_marginal_parabola, ekf1_marginal_parabola)[which]
    h = Harness(chk, f"additive_ekf{which}")
    x0, delta, sg = h.arr("x", 1), h.scalar("delta", lo=0.4, hi=0.8, pos=True), h.scalar("sg")

    def run(x, dl, sg):
        Q = jnp.zeros((2, 2))
        A = jnp.array([[1.0, 0.0], [0.0, 1.0]]).at[0, 1].set(dl)
        return sol(None, x, dl, lambda x, t: jnp.zeros(1), lambda x, t: sg * jnp.ones((1, 1)), dl, 1,
                   prior=(jnp.zeros(2), Q, A), noise=jnp.eye(1)), x

    r = h.encode("noise-only problem", run, x0, delta, sg)
    h.eq("mean state", r, lambda o: O(o[0][0]), lambda o: O(o[1]))
    h.eq("mean increment", r, lambda o: O(o[0][1]), zeros(1))
    h.eq("mean area", r, lambda o: O(o[0][2]), zeros(1))


def g12(chk): generic(chk, 1, 2)
def g13(chk): generic(chk, 1, 3)
def g22(chk): generic(chk, 2, 2)
def e0_121(chk): end_to_end(chk, 0, 1, 2, 1)
def e0_221(chk): end_to_end(chk, 0, 2, 2, 1)
def e1_121(chk): end_to_end(chk, 1, 1, 2, 1)
def o0(chk): ou_law(chk, 0)
def o1(chk): ou_law(chk, 1)
def e0_122(chk): end_to_end(chk, 0, 1, 2, 2)
e0_122.thorough = True
def g117(chk): generic(chk, 1, 17)
def g140(chk): generic(chk, 1, 40)
def g28(chk): generic(chk, 2, 8)
def g35(chk): generic(chk, 3, 5)
HARNESSES = ["g12", "g13", "g22", "e0_121", "e1_121", "e0_221", "o0", "o1", "e0_122", "g117", "g140", "g28", "g35"]
HARNESSES += at_literals(globals(), ['g22', 'e0_121'], ['delta'], (1, 0.25))
