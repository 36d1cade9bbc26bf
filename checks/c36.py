"""C36 for linear problems the recursive filters give the one-shot Gaussian posterior of all observations together."""
from symjax.harness import *
from checks import deep as dp
from checks.odef import *


def spd_solve(A, B):
    """A^-1 B by elimination (no pivoting: A is positive definite)."""
    A, B = O(A).copy(), O(B).copy()
    n = len(A)
    for i in range(n):
        p = A[i, i]
        A[i], B[i] = A[i] / p, B[i] / p
        for j in range(n):
            if j != i:
                f = A[j, i]
                A[j], B[j] = A[j] - f * A[i], B[j] - f * B[i]
    return B


def one_shot(m0, P0, A, xi, Q, Hs, cs, R):
    """Law of the last state given H_k X_k + c_k + noise_k = 0, k = 1..N, and the law of the last innovation."""
    n, N, o = len(m0), len(Hs), len(cs[0])
    means, cov = [m0], {(0, 0): P0}
    for k in range(1, N + 1):
        means.append(A @ means[-1] + xi)
        for j in range(k):
            cov[k, j] = A @ cov[k - 1, j]
            cov[j, k] = cov[k, j].T
        cov[k, k] = A @ cov[k - 1, k - 1] @ A.T + Q
    y = cat(*[Hs[k] @ means[k + 1] + cs[k] for k in range(N)])
    Y = zeros(N * o, N * o)
    for a in range(N):
        for b in range(N):
            Y[a * o:(a + 1) * o, b * o:(b + 1) * o] = Hs[a] @ cov[a + 1, b + 1] @ Hs[b].T + (R if a == b else zeros(o, o))
    X = np.concatenate([O(cov[N, b + 1] @ Hs[b].T) for b in range(N)], axis=1)
    G = spd_solve(Y, np.concatenate([y.reshape(-1, 1), X.T], axis=1))
    m, P = means[N] - X @ G[:, 0], cov[N, N] - X @ G[:, 1:]
    q = (N - 1) * o
    if q:
        K = spd_solve(Y[:q, :q], np.concatenate([y[:q].reshape(-1, 1), Y[:q, q:]], axis=1))
        z, S = y[q:] - Y[q:, :q] @ K[:, 0], Y[q:, q:] - Y[q:, :q] @ K[:, 1:]
    else:
        z, S = y, Y
    return m, P, z, S


def wrap(f, x, vals):
    """numeric arrays in the ring of x (symbolic or float)."""
    if isinstance(O(x).reshape(-1)[0], Value):
        return vals
    return [np.asarray(f(v)) for v in vals]


def plain(chk, d, o, N, sqrt=False):
    """The filter on a linear observation with a free offset per parameter."""
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    from symjax.uf import uf
    h = Harness(chk, f"filter_d{d}_o{o}_N{N}{'_sqrt' if sqrt else ''}")
    A, xi, H = dp.nums(h, "A", d, d), dp.nums(h, "xi", d), dp.nums(h, "H", o, d)
    if sqrt:
        Lp, Lq, Lr = (h.lift(eye(n) + np.tril(O(dp.nums(h, t, n, n)), -1)) for t, n in (("P", d), ("Q", d), ("R", o)))
        P, Q, R = h.lift(Lp @ Lp.T), h.lift(Lq @ Lq.T), h.lift(Lr @ Lr.T)
    else:
        P, Q, R = Lp, Lq, Lr = dp.spd(h, "P", d), dp.spd(h, "Q", d), dp.spd(h, "R", o)
    Af, xf, Hf, Pf, Qf, Rf = map(dp.fl, (A, xi, H, Lp, Lq, Lr))
    m0, ts = h.arr("m", d), h.arr("t", N)

    def run(m, ts):
        obs = lambda x, t: Hf @ x * (1 + t[1]) + jnp.stack([uf(f"c{i}", t[0]) for i in range(o)])
        grid = jnp.stack([ts, jnp.arange(N) / 4.0], axis=1)
        (a, C), S, z = ekf((m, Pf), obs, Af, Qf, xf, Rf, params=(grid,), lower_sqrt=sqrt, return_UC=True)
        if z.ndim == 2:
            z, S = S, z
        return m, ts, a, C @ C.T if sqrt else C, z, S

    r = h.encode("ekf", run, m0, ts)

    def want(q):
        m, t = O(q[0]), O(q[1])
        a, x, hh, p, qq, rr = wrap(dp.fl, m, [A, xi, H, P, Q, R])
        one = Fraction(1) if isinstance(m[0], Value) else 1.0
        Hs = [hh * (one * (4 + k) / 4) for k in range(N)]
        cs = [vec(*[h.uf(f"c{i}", t[k]) for i in range(o)]) for k in range(N)]
        return one_shot(m, p, a, x, qq, Hs, cs, rr)

    h.eq("mean", r, lambda q: O(q[2]), lambda q: want(q)[0])
    h.eq("covariance", r, lambda q: O(q[3]), lambda q: want(q)[1])
    h.eq("last innovation", r, lambda q: O(q[4]), lambda q: want(q)[2])
    h.eq("last innovation covariance", r, lambda q: O(q[5]), lambda q: want(q)[3])
    chk.bound("sized instances: numeric model matrices (step 1/2), arbitrary start, parameters and time-dependent offsets; up to 20 steps; filter: state dim up to 4, "
              "observation dim up to 2, N up to 8; integrators: dim up to 3, N up to 6, 2 to 4 states per coordinate; coefficients in state: dim up to 2, N up to 4")


def integrator(chk, which, d, N, n=2, noise=False, prior=False, sqrt=False):
    from bayesian_sde_solver import ode_solvers as os_
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function as tf
    sol = getattr(os_, which)
    cont = which.endswith("_2")
    h = Harness(chk, f"{which}_n{n}_d{d}_N{N}{'_noise' if noise else ''}{'_prior' if prior else ''}{'_sqrt' if sqrt else ''}")
    f = dp.Affine(h, d)
    x0, D = h.arr("x", d), h.const(Fraction(1, 2)).item()
    P0, R = dp.spd(h, "P", d), dp.spd(h, "R", d) if noise else h.lift(zeros(d, d))
    pr = (dp.nums(h, "xi", n * d), dp.spd(h, "Q", n * d), dp.nums(h, "A", n * d, n * d)) if prior else ibm(h, n - 1, D, d)
    pr = tuple(h.lift(v) for v in pr)
    kw = dict(noise=dp.fl(R) if noise else None, prior=tuple(map(dp.fl, pr)) if prior or n > 2 else None, sqrt=sqrt)

    def run(x):
        if cont:
            _, (s, m, C, z, S) = sol(None, (x, x, dp.fl(P0)), f, 0.5, N, return_all=True, **kw)
            if z.ndim == 2:
                z, S = S, z
            return x, m, C, z, S
        return x, sol(None, x, f, 0.5, N, **kw)

    r = h.encode(which, run, x0)

    def want(q):
        x = O(q[0])
        sym = isinstance(x[0], Value)
        dl = D if sym else 0.5
        xi, Q, A, R_, P = wrap(dp.fl, x, list(pr) + [R, P0])
        B = f.mat(x)
        m, V = inter(x, f.val(x, 0 * dl), *[zeros(d)] * (n - 2)) if n == 2 else None, zeros(n * d, n * d)
        if n > 2:   # second derivative of the solution: c' + B f
            dc = vec(*[h.uf(f"c{i}", 0 * dl, deriv=[1]) for i in range(d)])
            m = inter(x, f.val(x, 0 * dl), dc + B @ f.val(x, 0 * dl), *[zeros(d)] * (n - 3))
            for i in range(d):
                for j in range(3, n):
                    V[n * i + j, n * i + j] = 1
        if cont:
            V[::2, ::2], V[1::2, ::2], V[::2, 1::2], V[1::2, 1::2] = P, B @ P, P @ B.T, B @ P @ B.T
            if which == "ekf0_2":
                V[1::2, ::2] = V[::2, 1::2] = V[1::2, 1::2] = zeros(d, d)
        H = zeros(d, n * d)
        for i in range(d):
            H[i, n * i + 1] = 1
            for j in range(d):
                H[i, n * j] = H[i, n * j] - B[i, j]
        cs = [-vec(*[h.uf(f"c{i}", dl * (k + 1)) for i in range(d)]) for k in range(N)]
        return one_shot(m, V, A, xi, Q, [H] * N, cs, R_)

    if not cont:
        h.eq("posterior mean", r, lambda q: O(q[1]), lambda q: want(q)[0][::n])
    else:
        for k, nm in enumerate(("joint mean", "joint covariance", "last innovation", "last innovation covariance")):
            h.eq(nm, r, lambda q: O(q[k + 1]), lambda q: want(q)[k])


def in_state(chk, d, N, noise=False):
    """EKF1 with the parabola coefficients in the state, diffusion depending on time only."""
    from bayesian_sde_solver.ssm_parabola import ekf1_marginal_parabola as sol
    h = Harness(chk, f"ssm_d{d}_N{N}{'_noise' if noise else ''}")
    f = dp.Affine(h, d)
    x0 = h.arr("x", d)
    G, R = dp.nums(h, "s", d, d), dp.spd(h, "R", d) if noise else h.lift(zeros(d, d))
    Gf = dp.fl(G)

    def run(x):
        return x, jnp.concatenate(sol(None, x, 0.5 * N, f, lambda x, t: Gf * (1 + t), 0.5, N, sqrt=False, noise=dp.fl(R) if noise else None))

    r = h.encode("interval filter", run, x0)

    def want(q):
        x = O(q[0])
        sym = isinstance(x[0], Value)
        F = (lambda a, b=1: h.const(Fraction(a, b)).item()) if sym else (lambda a, b=1: a / b)
        dl, hh = F(N, 2), F(1, 2)
        s6 = h.ctx.sqrt_rational(6) if sym else math.sqrt(6)
        g, R_ = wrap(dp.fl, x, [G, R])
        B = f.mat(x)
        n = 4
        # independent coefficients (w, i); x'(0) = a + s w'(0)
        T = zeros(n * d, 2 * d)
        for i in range(d):
            T[n * i + 2, i] = 1
            T[n * i + 3, d + i] = 1
            for j in range(d):
                T[n * i + 1, j] = g[i, j] / dl
                T[n * i + 1, d + j] = g[i, j] * s6 / dl
        W = zeros(2 * d, 2 * d)
        for i in range(d):
            W[i, i], W[d + i, d + i] = dl, dl / 2
        m, V = inter(x, f.val(x, 0 * hh), zeros(d), zeros(d)), T @ W @ T.T
        a1, q1 = eye(4), zeros(4, 4)
        a1[0, 1] = hh
        q1[:2, :2] = tomat([[hh ** 3 / 3, hh ** 2 / 2], [hh ** 2 / 2, hh]])
        Hs, cs = [], []
        for k in range(1, N + 1):
            t = F(k, 2)
            H = zeros(d, n * d)
            for i in range(d):
                H[i, n * i + 1] = 1
                for j in range(d):
                    st = g[i, j] * (1 + t)
                    H[i, n * j] = H[i, n * j] - B[i, j]
                    H[i, n * j + 2] = H[i, n * j + 2] - st / dl
                    H[i, n * j + 3] = H[i, n * j + 3] - st * s6 * (1 - 2 * t / dl) / dl
            Hs.append(H)
            cs.append(-vec(*[h.uf(f"c{i}", t) for i in range(d)]))
        m, P, _, _ = one_shot(m, V, kron(eye(d), a1), zeros(n * d), kron(eye(d), q1), Hs, cs, R_)
        return cat(m[::4], m[2::4], m[3::4])

    h.eq("posterior means of end point and coefficients", r, lambda q: O(q[1]), want)


def p1(chk): plain(chk, 1, 1, 8)
def p2(chk): plain(chk, 2, 1, 5)
def p4(chk): plain(chk, 4, 2, 3)
def ps(chk): plain(chk, 1, 1, 5, True)
def i11(chk): integrator(chk, "ekf1", 1, 6)
def i13(chk): integrator(chk, "ekf1", 3, 3)
def i12n(chk): integrator(chk, "ekf1", 2, 4, noise=True, prior=True)
def i1s(chk): integrator(chk, "ekf1", 1, 4, noise=True, sqrt=True)
def i3(chk): integrator(chk, "ekf1", 2, 3, n=3)
def i4(chk): integrator(chk, "ekf1", 1, 4, n=4, noise=True)
def k1(chk): integrator(chk, "ekf1_2", 1, 6)
def k3(chk): integrator(chk, "ekf1_2", 3, 3, noise=True)
def k2p(chk): integrator(chk, "ekf1_2", 2, 3, noise=True, prior=True)
def k1s(chk): integrator(chk, "ekf1_2", 1, 3, noise=True, sqrt=True)
def s1(chk): in_state(chk, 1, 4)
def s2(chk): in_state(chk, 2, 2)
def s2n(chk): in_state(chk, 2, 3, True)
def p20(chk): plain(chk, 1, 1, 20)
def i116(chk): integrator(chk, "ekf1", 1, 16)
HARNESSES = ["p1", "p2", "p4", "ps", "i11", "i13", "i12n", "i1s", "i3", "i4", "k1", "k3", "k2p", "k1s", "s1", "s2", "s2n", "p20", "i116"]
