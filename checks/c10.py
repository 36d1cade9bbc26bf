"""C10 order-1.5 scheme for hypoelliptic diffusions (Ditlevsen & Samson, leading order)."""
from symjax.harness import *
from symjax.uf import uf, vec_fun


def hypo_sigma(d, name="g"):
    """first row zero (noise only on the rough coordinates), arbitrary (d-1) x d block below."""
    def sigma(x):
        rows = [jnp.zeros((d,), x.dtype)]
        for i in range(1, d):
            rows.append(jnp.stack([uf(f"{name}{i}{j}", *[x[k] for k in range(d)]) for j in range(d)]))
        return jnp.stack(rows)
    return sigma


def moments(h, d, x, dl):
    f = lambda i, dv=(): h.uf(f"f{i}", *x, deriv=[sum(1 for j in dv if j == k) for k in range(d)])
    G = np.array([[h.uf(f"g{i}{j}", *x) for j in range(d)] for i in range(1, d)], dtype=object)
    GG = G @ G.T
    SS = zeros(d, d)
    SS[1:, 1:] = GG
    m = []
    for i in range(d):
        L0 = sum(f(k) * f(i, (k,)) for k in range(d)) + sum(SS[k, l] * f(i, (k, l)) for k in range(1, d) for l in range(1, d)) * Fraction(1, 2)
        m.append(x[i] + dl * f(i) + L0 * dl * dl * Fraction(1, 2))
    du = vec(*[f(0, (k,)) for k in range(1, d)])
    C = zeros(d, d)
    C[0, 0] = (du @ GG @ du) * dl ** 3 * Fraction(1, 3)
    C[0, 1:] = C[1:, 0] = (GG @ du) * dl ** 2 * Fraction(1, 2)
    C[1:, 1:] = GG * dl
    return vec(*m), C


def onestep(chk, d):
    from bayesian_sde_solver.sde_solvers import hypoelliptic_diffusion_15_scheme as sch
    h = Harness(chk, f"onestep_d{d}")
    F, sg = vec_fun("f", d, time=False), hypo_sigma(d)
    x0, dt = h.arr("x", d), h.scalar("h", pos=True)
    r = h.encode("hypoelliptic_15", lambda key, x, dt: sch(key, x, F, sg, dt, 1), h.key(), x0, dt)
    m, C = moments(h, d, x0, dt.item())
    L = Law(h, r, lambda o: O(o[1])[1])
    L.require_affine("Gaussian step")
    L.require("mean: second-order Taylor (generator) expansion", "mean", m)
    L.require("covariance: leading order of every entry", "cov", C)
    chk.bound("dim 2 and 3 (one smooth coordinate, d-1 rough), any drift f(x), any noise block g(x), h > 0; trajectories of "
              "2-3 steps by composition for dim 2")


def traj(chk, d, N):
    """Each step is the one-step map at the current state with fresh, independent noise."""
    from bayesian_sde_solver.sde_solvers import hypoelliptic_diffusion_15_scheme as sch
    h = Harness(chk, f"traj_d{d}_N{N}")
    x0, dt, c, g = h.arr("x", d), h.scalar("h", pos=True), h.arr("c", d, d), h.scalar("g", pos=True)

    def run(key, x, dt, c, g):
        sg = lambda x: jnp.zeros((d, d)).at[1, 0].set(g)
        ts, X = sch(key, x, lambda x: c @ x, sg, dt, N)
        return ts, X, x, dt, c, g

    r = h.encode("hypoelliptic_15 on a linear SDE", run, h.key(), x0, dt, c, g)

    def eps(o):
        X, dl, A = O(o[1]), S(o[3]), O(o[4])
        return cat(*[X[k + 1] - X[k] - (A @ X[k]) * dl - (A @ (A @ X[k])) * dl * dl * Fraction(1, 2) for k in range(N)])

    L = Law(h, r, eps)
    D, G2 = dt.item(), g.item() ** 2
    L.require("noise centred", "mean", zeros(N * d))
    a01 = c[0, 1]
    C = tomat([[a01 * a01 * G2 * D ** 3 / 3, a01 * G2 * D ** 2 / 2], [a01 * G2 * D ** 2 / 2, G2 * D]])
    L.require("noise independent across steps with the leading-order covariance", "cov", kron(eye(N), C))
    h.eq("time grid", r, lambda o: O(o[0]), lambda o: vec(*[S(o[3]) * k for k in range(N + 1)]))
    h.eq("starts at x0", r, lambda o: O(o[1])[0], lambda o: O(o[2]))


def o2(chk): onestep(chk, 2)
def o3(chk): onestep(chk, 3)
def t22(chk): traj(chk, 2, 2)
def t23(chk): traj(chk, 2, 3)
def o4(chk): onestep(chk, 4)
o4.thorough = True
def t24(chk): traj(chk, 2, 4)


def deep(chk, d, N, quadratic=False):
    """Larger and longer instances: numeric drift coefficients and noise block, arbitrary start and drift offset."""
    from bayesian_sde_solver.sde_solvers import hypoelliptic_diffusion_15_scheme as sch
    from checks import deep as dp
    h = Harness(chk, f"sized_d{d}_N{N}{'_quadratic' if quadratic else ''}")
    A, G = dp.nums(h, "A", d, d), dp.nums(h, "G", d - 1, d - 1)
    for i in range(d - 1):
        G[i, i] = G[i, i] * G[i, i] + 1
        for j in range(i + 1, d - 1):
            G[i, j] = h.lift(zeros(1))[0]
    q = dp.nums(h, "q", d, d, d) if quadratic else h.lift(zeros(d, d, d))
    Af, Gf, qf = dp.fl(A), dp.fl(G), dp.fl(q)
    x0, c = h.arr("x", d), h.arr("c", d)
    D = h.const(Fraction(1, 2)).item()

    def run(key, x, c):
        drift = lambda x: c + Af @ x + (jnp.einsum("ijk,j,k->i", qf, x, x) if quadratic else 0.0)
        sg = lambda x: jnp.zeros((d, d)).at[1:, :d - 1].set(Gf)
        ts, X = sch(key, x, drift, sg, 0.5, N)
        return ts, X, x, c

    r = h.encode("hypoelliptic_15, sized", run, h.key(), x0, c)

    def parts(x, c):
        sym = isinstance(O(x)[0], Value)
        a, g, qq = (A, G, q) if sym else (np.asarray(Af), np.asarray(Gf), np.asarray(qf))
        dl = D if sym else 0.5
        f = c + a @ x + vec(*[x @ qq[i] @ x for i in range(d)])
        J = a + tomat([[sum((qq[i][j, k] + qq[i][k, j]) * x[k] for k in range(d)) for j in range(d)] for i in range(d)])
        GG = g @ g.T
        lap = vec(*[sum((qq[i][j, k] + qq[i][k, j]) * GG[j - 1, k - 1] for j in range(1, d) for k in range(1, d)) for i in range(d)])
        m = f * dl + (J @ f) * dl * dl * Fraction(1, 2) + lap * dl * dl * Fraction(1, 4) if sym else f * dl + (J @ f) * dl * dl / 2 + lap * dl * dl / 4
        u = J[0, 1:]
        C = zeros(d, d)
        C[0, 0] = (u @ GG @ u) * dl ** 3 / 3
        C[0, 1:] = C[1:, 0] = (u @ GG) * dl ** 2 / 2
        C[1:, 1:] = GG * dl
        return m, C

    L = Law(h, r, lambda o: cat(*[O(o[1])[k + 1] - O(o[1])[k] - parts(O(o[1])[k], O(o[3]))[0] for k in range(N)]))
    L.require("noise centred", "mean", zeros(N * d))
    L.require("noise independent across steps with the leading-order covariance", "cov", kron(eye(N), parts(x0, c)[1]))
    h.eq("starts at x0", r, lambda o: O(o[1])[0], lambda o: O(o[2]))
    h.eq("time grid", r, lambda o: O(o[0]), lambda o: h.lift(vec(*[Fraction(k, 2) for k in range(N + 1)])) if isinstance(O(o[2])[0], Value) else vec(*[k / 2 for k in range(N + 1)]))
    chk.bound("sized instances (numeric linear or quadratic drift coefficients, numeric noise block, step 1/2; start and offset arbitrary): dim up to 5, N up to 12")


def z31(chk): deep(chk, 3, 1, True)
def z51(chk): deep(chk, 5, 1)
def z34(chk): deep(chk, 3, 4)
def z26(chk): deep(chk, 2, 6)
def z43(chk): deep(chk, 4, 3)
def z212(chk): deep(chk, 2, 12)
HARNESSES = ["o2", "o3", "t22", "t23", "o4", "t24", "z31", "z51", "z34", "z26", "z43", "z212"]
HARNESSES += at_literals(globals(), ['o3', 't22'], ['h'], (1, 0.25))
