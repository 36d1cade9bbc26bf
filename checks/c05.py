"""C05 the SDE solver integrates the right random ODE on every interval."""
from symjax.harness import *
from symjax.uf import uf, vec_fun, mat_fun


def generic(chk, d, m, N, tuple_state=False, end=False):
    """Arbitrary Brownian approximation, arbitrary ODE integrator (it may query the vector field anywhere)."""
    from bayesian_sde_solver.sde_solver import sde_solver
    h = Harness(chk, f"generic_d{d}_m{m}_N{N}{'_tuple' if tuple_state else ''}{'_end' if end else ''}")
    f, s = vec_fun("f", d), mat_fun("s", d, m)
    x0, delta = h.arr("x", d), h.scalar("delta", pos=True)
    zq, tq = h.arr("zq", d), h.scalar("tq")     # arbitrary query point of the integrator

    def bm():
        def co(key, dt):
            z = jax.random.normal(key, (2, m))
            return z[0] * jnp.sqrt(dt), z[1]

        def ev(t, dt, a, b):
            return jnp.stack([uf(f"p{i}", t, dt, a[i], b[i]) for i in range(m)])

        return co, ev

    def step(x, v, T):
        return jnp.stack([uf(f"F{i}", *[x[j] for j in range(d)], *[v[j] for j in range(d)], T) for i in range(d)])

    def ode_int(key, init, vector_field, T):
        x = init[0] if tuple_state else init
        v = vector_field(zq_[0], tq_[0])
        y = step(x, v, T) + jax.random.normal(key, (d,))
        return (y, 2.0 * init[1] + v) if tuple_state else y

    zq_, tq_ = [None], [None]

    def run(key, x0, delta, zq, tq):
        tq = 1.0 * delta if end else tq               # end: the integrator looks at the very end of the interval
        zq_[0], tq_[0] = zq, tq
        init = (x0, jnp.ones((d,)) * tq) if tuple_state else x0
        out = sde_solver(key=key, drift=f, sigma=s, x0=init, bm=bm, delta=delta, N=N, ode_int=ode_int)
        return out, x0, delta, zq, tq

    r = h.encode("sde_solver", run, h.key(), x0, delta, zq, tq)

    def traj(o):
        return O(o[0][1][0]) if tuple_state else O(o[0][1])

    h.eq("time grid", r, lambda o: O(o[0][0]), lambda o: vec(*[S(o[2]) * k for k in range(N + 1)]))
    h.eq("starts at the initial value", r, lambda o: traj(o)[0], lambda o: O(o[1]))

    def field(o, k):
        dl, z, t = S(o[2]), O(o[3]), S(o[4])
        tk = dl * k + t
        a, b = O(o[0][2])[k], O(o[0][3])[k]
        v = []
        for i in range(d):
            acc = h.uf(f"f{i}", *z, tk)
            for j in range(m):
                acc = acc + h.uf(f"s{i}{j}", *z, tk) * h.uf(f"p{j}", t, dl, a[j], b[j], deriv=(1, 0, 0, 0))
            v.append(acc)
        return v

    def resid(o, k):
        v = field(o, k)
        x = traj(o)[k]
        return [traj(o)[k + 1][i] - h.uf(f"F{i}", *x, *v, S(o[2])) for i in range(d)]

    L = Law(h, r, lambda o: vec(*[y for k in range(N) for y in resid(o, k)]))
    L.require_affine("integrator noise enters as drawn")
    L.require("integrator randomness is standard and independent across intervals", "cov", eye(N * d))
    L.require("integrator randomness centred", "mean", zeros(N * d))
    L2 = Law(h, r, lambda o: vec(*[y for k in range(N) for y in resid(o, k)], *O(o[0][2]).reshape(-1), *O(o[0][3]).reshape(-1)))
    C = kron(eye(N * d + 2 * N * m), eye(1)) * h.V(1)
    for i in range(N * d, N * d + N * m):
        C[i, i] = delta.item()
    L2.require("Brownian coefficients independent of the integrator and across intervals", "cov", C)
    if tuple_state:
        h.eq("second component", r, lambda o: O(o[0][1][1]),
             lambda o: O([vec(*row) for row in _second(o, field, N, d)]))
    chk.bound("state dim <= 3, Brownian dim <= 3, N <= 40 intervals (dim 1), 17 (dim 2), 5 (dim 3); drift, diffusion, Brownian approximation and ODE "
              "integrator arbitrary (the integrator queries the field at one arbitrary point)")


def _second(o, field, N, d):
    rows = [[S(o[4])] * d]
    for k in range(N):
        v = field(o, k)
        rows.append([2 * rows[-1][i] + v[i] for i in range(d)])
    return rows


def euler_foster(chk, d, m, N, M):
    """The documented combination: sampled parabola + explicit Euler with M substeps."""
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.foster_polynomial import get_approx
    from bayesian_sde_solver.ode_solvers import euler
    import functools
    h = Harness(chk, f"euler_d{d}_m{m}_N{N}_M{M}")
    f, s = vec_fun("f", d), mat_fun("s", d, m)
    x0, delta = h.arr("x", d), h.scalar("delta", pos=True)

    def ode_int(key, init, vector_field, T):
        return euler(init=init, vector_field=vector_field, h=T / M, N=M)

    def run(key, x0, delta):
        out = sde_solver(key=key, drift=f, sigma=s, x0=x0, bm=functools.partial(get_approx, dim=m), delta=delta, N=N,
                         ode_int=ode_int)
        return out, x0, delta

    r = h.encode("sde_solver+euler+get_approx", run, h.key(), x0, delta)

    def spec(o):
        x = O(o[1])
        dl = S(o[2])
        rows = [x]
        for k in range(N):
            a, b = O(o[0][2])[k], O(o[0][3])[k]
            for n in range(M):
                hh = dl * Fraction(1, M)
                t = hh * n
                tk = dl * k + t
                # d/dt of the curve reproduced from its two coefficients
                dp = [a[j] / dl + _s6(h, b[j]) * b[j] * (1 - Fraction(2 * n, M)) / dl for j in range(m)]
                v = []
                for i in range(d):
                    acc = h.uf(f"f{i}", *x, tk)
                    for j in range(m):
                        acc = acc + h.uf(f"s{i}{j}", *x, tk) * dp[j]
                    v.append(x[i] + hh * acc)
                x = vec(*v)
            rows.append(x)
        return np.stack(rows)

    h.eq("trajectory", r, lambda o: O(o[0][1]), spec)


def _s6(h, like):
    return h.ctx.sqrt_rational(6) if isinstance(like, Value) else math.sqrt(6)


def g1(chk): generic(chk, 1, 1, 2)
def g2(chk): generic(chk, 2, 1, 2)
def g3(chk): generic(chk, 1, 2, 3)
def gt(chk): generic(chk, 1, 1, 2, True)
def gt2(chk): generic(chk, 2, 2, 2, True)
def ge(chk): generic(chk, 1, 1, 2, end=True)
def ge2(chk): generic(chk, 2, 2, 3, True, end=True)
def e1(chk): euler_foster(chk, 1, 1, 2, 2)
def e2(chk): euler_foster(chk, 2, 1, 2, 1)
def e3(chk): euler_foster(chk, 2, 2, 2, 2)
def g4(chk): generic(chk, 2, 2, 4)
def g118(chk): generic(chk, 1, 1, 8)
def g324(chk): generic(chk, 3, 2, 4)
def g335(chk): generic(chk, 3, 3, 5)
def e4(chk): euler_foster(chk, 1, 1, 5, 3)
def gt5(chk): generic(chk, 1, 2, 5, True)
def g1140(chk): generic(chk, 1, 1, 40)
def g2117(chk): generic(chk, 2, 1, 17)
def gt1133(chk): generic(chk, 1, 1, 33, True)
HARNESSES = ["g1", "g2", "g3", "gt", "gt2", "ge", "ge2", "e1", "e2", "e3", "g4", "g118", "g324", "g335", "e4", "gt5", "g1140", "g2117", "gt1133"]
HARNESSES += at_literals(globals(), ['g2', 'g4', 'gt2', 'ge2', 'e3'], ['delta'], (1, 0.25))
