"""C26 randomness: no key is used twice, the seed alone decides the run."""
import functools

from symjax.harness import *
from symjax.interp import KeyTerm
from symjax.uf import uf, vec_fun, mat_fun


def term(k, cache, sorts):
    """Key-derivation term as a z3 datatype value (free constructors: distinct derivations are distinct keys)."""
    if k in cache:
        return cache[k]
    t = k.t
    if t[0] == "split":
        z = sorts.split(term(t[1], cache, sorts), z3.IntVal(int(t[2])), z3.IntVal(int(t[3])))
    elif t[0] == "fold":
        z = sorts.fold(term(t[1], cache, sorts), z3.IntVal(int(t[2])))
    elif t[0] == "root":
        z = sorts.root(z3.IntVal(sum(ord(c) * 131 ** i for i, c in enumerate(t[1]))))
    else:
        z = sorts.const(z3.StringVal(repr(t)))
    cache[k] = z
    return z


def sort():
    K = z3.Datatype("Key")
    K.declare("root", ("id", z3.IntSort()))
    K.declare("const", ("data", z3.StringSort()))
    K.declare("split", ("parent", K), ("child", z3.IntSort()), ("of", z3.IntSort()))
    K.declare("fold", ("fparent", K), ("data_", z3.IntSort()))
    return K.create()


def hygiene(chk, h, r, want_draws=None):
    """Every key is used for exactly one purpose: one batch of draws, or one split; draws descend from the given key."""
    it = r.interp
    K, cache = sort(), {}
    uses = [("draw", k, (tuple(s), w)) for k, s, w in it.consumed] + [("split", k, n) for k, n in it.split_keys]
    # evaluating the same batch (or the same split) twice yields the same numbers: one use
    uses = list(dict.fromkeys(uses))
    full = f"{h.name}/every key used once"
    chk.obligations += 1
    a, b = z3.Ints("a b")
    s = chk.solver()
    u = z3.Array("uses", z3.IntSort(), K)
    for n, (_, k, _) in enumerate(uses):
        u = z3.Store(u, n, term(k, cache, K))
    s.add(0 <= a, a < b, b < len(uses), z3.Select(u, a) == z3.Select(u, b))
    res = chk.timed_check(s)
    if res == z3.unsat:
        chk.discharged += 1
    elif res == z3.sat:
        m = s.model()
        i, j = m.eval(a).as_long(), m.eval(b).as_long()
        ki = key_words(h, uses[i][1]), key_words(h, uses[j][1])
        if np.array_equal(*ki):
            chk.violations.append((full, {"property": chk.pid, "obligation": full, "kind": "key reuse",
                                          "first use": repr(uses[i][0::2]), "second use": repr(uses[j][0::2]), "key": str(uses[i][1]),
                                          "key_words_in_real_run": [np.asarray(x).tolist() for x in ki]}))
        else:
            chk.inconclusive.append(f"{full}: not confirmed")
    else:
        chk.inconclusive.append(f"{full}: solver said {res}")
    # draws depend on the key given by the caller only
    full = f"{h.name}/draws descend from the caller's key"
    chk.obligations += 1
    bad = [k for w, k, _ in uses if w == "draw" and root(k) != ("root", "key")]
    if bad:
        chk.violations.append((full, {"property": chk.pid, "obligation": full, "kind": "foreign key", "key": str(bad[0])}))
    else:
        chk.discharged += 1
    if want_draws is not None:
        full = f"{h.name}/enough distinct random numbers are drawn"
        chk.obligations += 1
        n = sum(int(np.prod(d[0])) for w, k, d in uses if w == "draw")
        if n >= want_draws:
            chk.discharged += 1
        else:
            chk.violations.append((full, {"property": chk.pid, "obligation": full, "kind": f"only {n} numbers drawn"}))


def key_words(h, k):
    from symjax.interp import key_data
    return np.asarray(key_data(h.ctx.points[0], k))


def root(k):
    while k.t[0] in ("split", "fold"):
        k = k.t[1]
    return k.t


BM = dict(approx=lambda d: 2 * d, brownian=lambda d: 4 * d, fine=lambda d: 6 * d)


def bm_of(which, d):
    from bayesian_sde_solver import foster_polynomial as fp
    if which == "approx":
        return functools.partial(fp.get_approx, dim=d)
    if which == "brownian":
        return functools.partial(fp.get_approx_and_brownian, dim=d, N=4)
    return functools.partial(fp.get_approx_fine, dim=d, N=3)


def driver(chk, bm, ode, d, N):
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.ode_solvers import ekf0, ekf1, ekf0_2, ekf1_2, euler
    h = Harness(chk, f"sde_solver_{bm}_{ode}_d{d}_N{N}")
    f, s = vec_fun("f", d), mat_fun("s", d, d)
    x0, delta = h.arr("x", d), h.scalar("delta", pos=True)
    two = ode.endswith("_2")

    def run(key, x0, delta):
        sol = dict(ekf0=ekf0, ekf1=ekf1, ekf0_2=ekf0_2, ekf1_2=ekf1_2).get(ode)

        def ode_int(key, init, vector_field, T):
            if ode == "euler":
                return euler(init=init, vector_field=vector_field, h=T, N=1)
            if ode == "stub":       # arbitrary integrator that draws
                x = init
                return x + jax.random.normal(key, (d,)) * vector_field(x, 0.0)
            return sol(key, init=init, vector_field=vector_field, h=T, N=1)

        init = (x0, x0, jnp.zeros((d, d))) if two else x0
        return sde_solver(key=key, drift=f, sigma=s, x0=init, bm=bm_of(bm, d), delta=delta, N=N, ode_int=ode_int)

    r = trace(h, f"sde_solver ({bm}, {ode})", run, h.key(), x0, delta, dce=not ode.startswith("ekf"))
    hygiene(chk, h, r, N * (BM[bm](d) + (0 if ode == 'euler' else d)))
    chk.bound("state dim <= 2, up to 4 intervals; key arbitrary (free term algebra of key derivations); every driver, scheme, "
              "Brownian approximation and filter of the package")


def trace(h, label, fn, *args, dce=True):
    """Encode for its effects on keys only ; code whose result is unused is dropped."""
    return h.encode(label, fn, *args, dce=dce)


def scheme(chk, which, d, N):
    from bayesian_sde_solver import sde_solvers as ss
    h = Harness(chk, f"{which}_d{d}_N{N}")
    x0, dt = h.arr("x", d), h.scalar("h", pos=True)
    if which == "euler_maruyama":
        f, s = vec_fun("f", d), mat_fun("s", d, d)
        fn = lambda key, x, dt: ss.euler_maruyama(key, x, f, s, dt, N)
    elif which == "diag_15_scheme":
        f = vec_fun("f", d, time=False)
        fn = lambda key, x, dt: ss.diag_15_scheme(key, x, f, lambda x: jnp.eye(d), dt, N)
    else:
        f = vec_fun("f", d, time=False)
        fn = lambda key, x, dt: ss.hypoelliptic_diffusion_15_scheme(key, x, f, lambda x: jnp.eye(d).at[0, 0].set(0.0), dt, N)
    r = trace(h, which, fn, h.key(), x0, dt)
    hygiene(chk, h, r, N * (2 * d if which == "diag_15_scheme" else d))


def parabola(chk, which, d):
    h = Harness(chk, f"foster_{which}_d{d}")
    dt = h.scalar("dt", pos=True)
    r = trace(h, which, lambda key, dt: bm_of(which, d)()[0](key, dt), h.key(), dt)
    hygiene(chk, h, r, BM[which](d))


def ssm(chk, which, d, N):
    from bayesian_sde_solver.ssm_parabola import ssm_parabola_ode_solver, ekf0_marginal_parabola, ekf1_marginal_parabola
    sol = (ekf0_marginal_parabola, ekf1_marginal_parabola)[which]
    h = Harness(chk, f"ssm_ekf{which}_d{d}_N{N}")
    x0, delta = h.arr("x", d), h.scalar("delta", pos=True)

    def run(key, x0, delta):
        def solver(key, init, drift, diffusion, T):
            return sol(key, init, delta=T, drift=drift, diffusion=diffusion, h=T, N=1)
        return ssm_parabola_ode_solver(key=key, drift=lambda x, t: x, sigma=lambda x, t: jnp.eye(d), x0=x0, delta=delta, N=N, solver=solver)

    r = trace(h, f"ssm driver with ekf{which}", run, h.key(), x0, delta, dce=False)
    hygiene(chk, h, r, N * 3 * d)


def linear(chk, dim, scaled):
    """random_linear_sde: the two random matrices are independent standard normal."""
    from bayesian_sde_solver.utils import random_linear_sde
    h = Harness(chk, f"random_linear_sde_{dim}{'_scaled' if scaled else ''}")
    s1, s2 = h.arr("a", dim, dim), h.arr("b", dim, dim)

    def run(key, s1, s2):
        x0, drift, sigma = random_linear_sde(key, dim, *((s1, s2) if scaled else ()))
        M = jnp.stack([drift(e, 0.0) for e in jnp.eye(dim)], axis=1)
        return x0, M, sigma(x0, 0.0)

    r = h.encode("random_linear_sde", run, h.key(), s1, s2, dce=True)
    hygiene(chk, h, r, 2 * dim * dim)
    L = Law(h, r, lambda o: cat(o[1], o[2]))
    L.require_affine("Gaussian entries")
    L.require("centred", "mean", zeros(2 * dim * dim))
    n = dim * dim
    C = zeros(2 * n, 2 * n)
    A = O(s1) if scaled else eye(dim)
    B = O(s2) if scaled else eye(dim)
    C[:n, :n] = kron(A @ A.T, eye(dim))
    C[n:, n:] = kron(B @ B.T, eye(dim))
    L.require("drift and diffusion matrices independent, entries standard", "cov", C)


def k1(chk): driver(chk, "approx", "stub", 1, 3)
def k2(chk): driver(chk, "brownian", "stub", 2, 2)
def k3(chk): driver(chk, "fine", "stub", 2, 2)
def k4(chk): driver(chk, "approx", "euler", 2, 4)
def k5(chk): driver(chk, "approx", "ekf0", 1, 2)
def k6(chk): driver(chk, "approx", "ekf1", 1, 2)
def k7(chk): driver(chk, "approx", "ekf0_2", 1, 1)
def k8(chk): driver(chk, "approx", "ekf1_2", 1, 1)
def m1(chk): scheme(chk, "euler_maruyama", 2, 3)
def m2(chk): scheme(chk, "diag_15_scheme", 2, 3)
def m3(chk): scheme(chk, "hypoelliptic", 2, 2)
def p1(chk): parabola(chk, "approx", 2)
def p2(chk): parabola(chk, "brownian", 2)
def p3(chk): parabola(chk, "fine", 2)
def s0(chk): ssm(chk, 0, 1, 2)
def s1(chk): ssm(chk, 1, 1, 2)
def r1(chk): linear(chk, 1, False)
def r2(chk): linear(chk, 2, False)
def r2s(chk): linear(chk, 2, True)
def r3(chk): linear(chk, 3, False)
HARNESSES = ["p1", "p2", "p3", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "m1", "m2", "m3", "s0", "s1", "r1", "r2", "r2s", "r3"]
