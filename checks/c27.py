"""C27 reference moments of the bundled test problems agree with their own drift and diffusion."""
from symjax.harness import *


def autonomous(f):
    """drift/diffusion as functions of the state only (they do not depend on t)."""
    import inspect
    n = len(inspect.signature(f).parameters)
    return f if n == 1 else (lambda x: f(x, 0.0))


def generator(a, s):
    """g -> L g,  L g = a . grad g + 1/2 tr(s s^T Hess g)."""
    def L(g):
        def Lg(x):
            sx = s(x)
            return jnp.dot(jax.jacfwd(g)(x), a(x)) + 0.5 * jnp.trace(sx @ sx.T @ jax.jacfwd(jax.jacfwd(g))(x))
        return Lg
    return L


def taylor(a, s, g, x0, K):
    """[L^k g (x0)]_k, so E g(X_t) = sum_k t^k/k! L^k g(x0) + O(t^{K+1})."""
    L, out = generator(a, s), []
    for k in range(K + 1):
        out.append(g(x0))
        if k < K:
            g = L(g)
    return jnp.stack(out)


def coeffs(a, s, x0, K):
    """Taylor coefficients (in t) of mean and covariance of the SDE started at x0."""
    d = x0.shape[0]
    M = jnp.stack([taylor(a, s, lambda x, i=i: x[i], x0, K) for i in range(d)])
    S2 = jnp.stack([jnp.stack([taylor(a, s, lambda x, i=i, j=j: (x[i] - x0[i]) * (x[j] - x0[j]), x0, K) for j in range(d)]) for i in range(d)])
    return M, S2


def series(o_M, o_S, d, K):
    """mean and covariance coefficient lists from the generator derivatives."""
    from math import factorial
    one = Fraction(1)
    mean = [[o_M[i, k] * (one / factorial(k)) if isinstance(o_M[i, k], Value) else o_M[i, k] / factorial(k) for k in range(K + 1)] for i in range(d)]
    dm = [[0] + mean[i][1:] for i in range(d)]
    cov = [[None] * d for _ in range(d)]
    for i in range(d):
        for j in range(d):
            c = []
            for k in range(K + 1):
                v = o_S[i, j, k] * (one / factorial(k)) if isinstance(o_S[i, j, k], Value) else o_S[i, j, k] / factorial(k)
                for p in range(1, k):
                    v = v - dm[i][p] * dm[j][k - p]
                c.append(v)
            cov[i][j] = c
    return mean, cov


def expansion(chk, name, mean_at=None, cov_at=None, orders=None, K=2, diag0=None):
    """mean to order t^2 and covariance entries to their stated order, as polynomials in t."""
    from bayesian_sde_solver.utils import ivp
    h = Harness(chk, f"{name}_expansion")
    t = h.scalar("t", pos=True)

    def run(t):
        parts = getattr(ivp, name)()
        x0, drift, sigma = parts[:3]
        a, s = autonomous(drift), autonomous(sigma)
        M, S2 = coeffs(a, s, x0, K)
        return (M, S2, parts[mean_at](t) if mean_at is not None else jnp.zeros(()),
                parts[cov_at](t) if cov_at is not None else jnp.zeros(()), t)

    r = h.encode(name, run, t)
    d = np.asarray(r.out[0]).shape[0]

    def poly(c, t, n):
        return sum((c[k] * t ** k for k in range(1, n + 1)), c[0])

    if mean_at is not None:
        h.eq("mean to second order in t", r, lambda o: O(o[2]),
             lambda o: vec(*[poly(series(O(o[0]), O(o[1]), d, K)[0][i], S(o[4]), 2) for i in range(d)]))
    if cov_at is not None:
        def cov(o):
            C = series(O(o[0]), O(o[1]), d, K)[1]
            t = S(o[4])
            if diag0 is not None:
                return O(poly(C[0][0], t, diag0))
            return tomat([[poly(C[i][j], t, orders[i][j]) for j in range(d)] for i in range(d)])
        h.eq("covariance to its stated order in t", r, lambda o: O(o[3]), cov)
    chk.bound("every bundled problem with reference moments, all t > 0; expansions to order t^2 (mean) and up to t^3 (covariance), "
              "derived from the problem's own drift and diffusion by the generator")


def gaussian(chk, name, var_at, mean_at=None):
    """Linear problems with closed-form moments: they solve the moment equations for all t."""
    from bayesian_sde_solver.utils import ivp
    h = Harness(chk, f"{name}_moments")
    t = h.scalar("t", pos=True)

    def run(t):
        parts = getattr(ivp, name)()
        x0, drift, sigma = parts[:3]
        a, s = autonomous(drift), autonomous(sigma)
        F = jax.jacfwd(a)(x0)
        v, dv = jax.jvp(parts[var_at], (t,), (1.0,))
        v0 = parts[var_at](0.0 * t)
        return F, s(x0) @ s(x0).T, v, dv, v0

    r = h.encode(name, run, t)
    n = np.asarray(r.out[0]).shape[0]
    h.eq("variance starts at 0", r, lambda o: O(o[4]), zeros(n, n))
    h.eq("variance solves V' = F V + V F^T + s s^T", r, lambda o: O(o[3]), lambda o: O(o[0]) @ O(o[2]) + O(o[2]) @ O(o[0]).T + O(o[1]))


def gbm(chk):
    from bayesian_sde_solver.utils import gbm as G
    h = Harness(chk, "gbm")
    t, x = h.scalar("t", pos=True), h.arr("x", 1)

    def run(t, x):
        x0, drift, sigma, mean, var = G()
        m, dm = jax.jvp(mean, (t,), (1.0,))
        v, dv = jax.jvp(var, (t,), (1.0,))
        a = drift(m, t)                      # linear drift: E a(X) = a(E X)
        aj = jax.jacfwd(lambda z: drift(z, t))(x)
        sj = jax.jacfwd(lambda z: sigma(z, t)[:, 0])(x)
        return m, dm, v, dv, a, aj, sj, mean(0.0 * t), var(0.0 * t), x0, drift(x, t), sigma(x, t), x

    r = h.encode("gbm", run, t, x)
    h.eq("drift linear", r, lambda o: O(o[10]), lambda o: O(o[5]) @ O(o[12]))
    h.eq("diffusion linear", r, lambda o: O(o[11])[:, 0], lambda o: O(o[6]) @ O(o[12]))
    h.eq("mean at 0", r, lambda o: O(o[7]), lambda o: O(o[9]))
    h.eq("variance at 0", r, lambda o: O(o[8]), zeros(1))
    h.eq("mean solves m' = a(m)", r, lambda o: O(o[1]), lambda o: O(o[4]))
    h.eq("variance solves v' = 2 a v + b^2 (v + m^2)", r, lambda o: O(o[3]),
         lambda o: 2 * O(o[5])[0] * O(o[2]) + O(o[6])[0] ** 2 * (O(o[2]) + O(o[0]) ** 2))


def oscillator(chk, name):
    """Mean exp(M t) x0; variance a quadrature of exp(Ms) C C^T exp(Ms)^T over [0, t]."""
    from bayesian_sde_solver.utils import ivp
    h = Harness(chk, f"{name}_mean")
    t = h.scalar("t", pos=True, lo=0.1, hi=0.5)

    def run(t):
        import jax.scipy.linalg as jl
        x0, drift, sigma, mean, var, *_ = getattr(ivp, name)()
        a = autonomous(drift)
        return mean(t), jl.expm(jax.jacfwd(a)(x0) * t) @ x0

    r = h.encode(name, run, t)
    h.eq("mean is the matrix exponential of the drift", r, lambda o: O(o[0]), lambda o: O(o[1]))

    h2 = Harness(chk, f"{name}_variance")
    t2 = h2.scalar("t", pos=True, lo=0.1, hi=0.5)
    eps = Fraction(1, 10 ** 4)

    def run2(t):
        import jax.scipy.linalg as jl
        x0, drift, sigma, mean, var, *_ = getattr(ivp, name)()
        return var(t), autonomous(sigma)(x0), t

    r2 = h2.encode(name, run2, t2)
    quad(chk, h2, r2, t2, name, eps)


def quad(chk, h, r, t, name, eps):
    """Read the quadrature (nodes, weights) off the symbolic variance and let z3 bound its error on 1, s, s^2, s^3."""
    ctx = h.ctx
    V = O(r.out[0])
    C = O(r.out[1])
    from bayesian_sde_solver.utils import ivp
    nodes_args = {}
    nodes = {}              # node -> weight, from the coefficient of E_{i1}(s)^2 s1^2 in V[0, 0]
    full = f"{h.name}/quadrature"
    v = V[0, 0].simp()
    for m, c in v.t.items():
        rest, ats = [], []
        for i, e in m:
            a = ctx.atoms[i]
            if a.kind == "uf" and a.data[0][0] == "expm":
                ats.append((a, e))
            else:
                rest.append((i, e))
        if len(ats) == 1 and ats[0][1] == 2:
            a = ats[0][0]
            key = a.data[1][1]          # M[0, 1] * s with M[0, 1] = 1
            w = Value(ctx, {tuple(rest): c})
            nodes_args[id_of(key)] = list(a.data[1])
            nodes.setdefault(id_of(key), [key, ctx.zero])[1] += w
    if not nodes:
        raise Inconclusive(f"{full}: not a quadrature of the matrix exponential")
    chk.note("the drift matrix of the oscillator has entry (0, 1) equal to 1 (nodes are read off this entry)")
    T = t.item()
    s1 = C[1, 0] * C[1, 0]
    zero = ctx.zero
    # rebuild the quadrature from the nodes and weights: what is left must be the node 0 (where the exponential is I)
    CC = C @ C.T
    rest = V.copy()
    for n, (s, w) in nodes.items():
        args = nodes_args[n]
        E = np.empty((2, 2), dtype=object)
        for i in range(2):
            for j in range(2):
                E[i, j] = ctx.uf(("expm", 2, i, j), args, f"expm{i}{j}", data=None)
        rest = rest - (E @ CC @ E.T) * (w / s1)
    h.eq("variance is a quadrature of exp(Ms) C C^T exp(Ms)^T", r, lambda o: O(o[0]),
         lambda o: (V - rest) + CC * (rest[1, 1] / s1) if isinstance(O(o[0])[0, 0], Value) else _truth(name, o))
    w0 = rest[1, 1] / s1
    terms = [(zero, w0)] + [(s, w / s1) for s, w in nodes.values()]
    for k in range(4):
        acc = zero
        for s, w in terms:
            acc = acc + (w * s ** k if k else w)
        exact = T ** (k + 1) * Fraction(1, k + 1)
        p = vec(exact * eps - (acc - exact), exact * eps + (acc - exact))

        def replay(pt):
            o = r.real(pt)
            e = np.abs(np.asarray(o[0]) - _truth(name, o)).max()
            return np.array([1e-3 * np.abs(_truth(name, o)).max() - e], dtype=object), None, [r.nargs(pt)]

        chk.discharge(h, f"quadrature integrates s^{k} over [0, t] to relative accuracy 1e-4", p, None, [], replay)


def _truth(name, o):
    """Variance at the sample point by an independent dense quadrature (replay only)."""
    import scipy.integrate as si
    import scipy.linalg as sl
    from bayesian_sde_solver.utils import ivp
    x0, drift, sigma, *_ = getattr(ivp, name)()
    M = np.asarray(jax.jacfwd(autonomous(drift))(x0))
    C, t = np.asarray(o[1]), float(o[2])
    f = lambda s: (sl.expm(M * s) @ C @ C.T @ sl.expm(M * s).T).reshape(-1)
    return si.quad_vec(f, 0, t)[0].reshape(2, 2)


def fhn(chk): expansion(chk, "fhn", 3, 4, orders=[[3, 2], [2, 2]], K=3)
def sfhn(chk): expansion(chk, "square_matrix_fhn", 3, 4, orders=[[3, 2], [2, 2]], K=3)
def hos(chk): expansion(chk, "harmonic_oscillator_square", None, 5, orders=[[3, 3], [3, 3]], K=3)
def syn(chk): expansion(chk, "synaptic_conductance", 3, 4, K=3, diag0=3)
def synr(chk): expansion(chk, "synaptic_conductance_reduced", 3)
def i1(chk): gaussian(chk, "ibm", 3)
def i2(chk): gaussian(chk, "double_ibm", 3)
def i3(chk): gaussian(chk, "square_matrix_ibm", 3)
def g(chk): gbm(chk)
def o1(chk): oscillator(chk, "harmonic_oscillator")
def o2(chk): oscillator(chk, "harmonic_oscillator_square")
HARNESSES = ["i1", "i2", "i3", "g", "hos", "fhn", "sfhn", "syn", "synr", "o1", "o2"]
