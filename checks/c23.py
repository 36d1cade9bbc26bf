"""C23 filter with the Brownian parabola coefficients in the state (Algorithm 4)."""
from symjax.harness import *
from symjax.uf import vec_fun, mat_fun
from checks.odef import *


def solver_of(which):
    from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola
    return ekf0_marginal_parabola if which == 0 else ekf1_marginal_parabola


def field(h, d, diag, const=False):
    """shared spec of drift a(x,t) and diffusion s(x,t)."""
    mask = [[i == j for j in range(d)] for i in range(d)] if diag else None
    s = mat_fun("s", d, d, mask=mask)
    if const:       # additive noise
        return vec_fun("a", d), (lambda x, t: s(jnp.zeros_like(x), t)), mask
    return vec_fun("a", d), s, mask


def spec(h, which, x0, d, dl, hh, N, prior, R, mask, const=False):
    """Reference: joint Gaussian of (x, x', W, I) per coordinate, x' conditioned to a(x,t) + s(x,t) p'(t),
    p'(t) = W/delta + sqrt6 (1 - 2t/delta) I / delta, W ~ N(0, delta), I ~ N(0, delta/2)."""
    r6 = h.ctx.sqrt_rational(6) if isinstance(dl, Value) else math.sqrt(6)
    t0 = 0 * dl
    sig = (lambda x, t, **k: h.uf_mat("s", 0 * x, t, d, mask=mask, **k))if const else (lambda x, t, **k: h.uf_mat("s", x, t, d, mask=mask, **k))
    a0, s0 = h.uf_vec("a", x0, t0), sig(x0, t0)
    m = inter(x0, a0, zeros(d), zeros(d))
    # (x, x', W, I) = (x0, a0 + s0 (W/delta + sqrt6 I/delta), W, I)
    n = 4 * d
    B = zeros(n, 2 * d)         # image of (W, I)
    for i in range(d):
        for j in range(d):
            B[4 * i + 1, j] = s0[i, j] / dl
            B[4 * i + 1, d + j] = s0[i, j] * r6 / dl
        B[4 * i + 2, i] = 1
        B[4 * i + 3, d + i] = 1
    C = zeros(2 * d, 2 * d)
    for i in range(d):
        C[i, i] = dl
        C[d + i, d + i] = dl / 2
    P = B @ C @ B.T
    xi1, Q1, A1 = prior
    A, Q, xi = zeros(n, n), zeros(n, n), zeros(n)
    for i in range(d):
        A[4 * i:4 * i + 2, 4 * i:4 * i + 2] = A1
        Q[4 * i:4 * i + 2, 4 * i:4 * i + 2] = Q1
        xi[4 * i:4 * i + 2] = xi1
        A[4 * i + 2, 4 * i + 2] = A[4 * i + 3, 4 * i + 3] = 1

    def obs(mm, t):
        x, v, W, I = mm[::4], mm[1::4], mm[2::4], mm[3::4]
        a, s = h.uf_vec("a", x, t), sig(x, t)
        w1, w2 = 1 / dl, r6 * (1 - 2 * t / dl) / dl
        pd = W * w1 + I * w2
        c = v - a - s @ pd
        H = zeros(d, n)
        for i in range(d):
            H[i, 4 * i + 1] = H[i, 4 * i + 1] + 1
            for j in range(d):
                H[i, 4 * j + 2] = H[i, 4 * j + 2] - s[i, j] * w1
                H[i, 4 * j + 3] = H[i, 4 * j + 3] - s[i, j] * w2
        if which == 1:
            J = h.uf_jac("a", x, t)
            for k in range(d):
                g = zeros(d) if const else sig(x, t, deriv=[1 if q == k else 0 for q in range(d)] + [0]) @ pd
                for i in range(d):
                    H[i, 4 * k] = H[i, 4 * k] - J[i, k] - g[i]
        return c, H

    return filt(m, P, A, Q, xi, zeros(d, d) if R is None else R, obs, [hh * (k + 1) for k in range(N)])


def outputs(m, d):
    return np.concatenate([m[::4], m[2::4], m[3::4]])


def posterior(chk, which, d, N, sqrt=False, prior=False, noise=False, diag=False, sub=None, const=False):
    """Without a key the posterior mean of (x, W, I) at the last time is returned."""
    h = Harness(chk, f"ekf{which}_d{d}_N{N}{'_prior' if prior else ''}{'_noise' if noise else ''}{'_sqrt' if sqrt else ''}")
    sol = solver_of(which)
    a, s, mask = field(h, d, diag, const)
    x0, dl = h.arr("x", d), h.scalar("delta", lo=0.4, hi=0.9, pos=True)
    hh = dl / (sub or N)
    args = [x0, dl]
    if prior:
        if sqrt:
            L = h.ltri("q", 2, True)
            Q = h.lift(L @ L.T)
        else:
            Q = symmat(h, "Q", 2)
        args += [h.arr("xi", 2), Q, h.arr("A", 2, 2)]
    if noise:
        if sqrt:
            L = h.ltri("r", d, True)
            args.append(h.lift(L @ L.T))
        else:
            args.append(symmat(h, "R", d, (0.3, 0.9)))

    def run(x, dl, *p):
        pr = tuple(p[:3]) if prior else None
        R = p[-1] if noise else None
        hh = dl / (sub or N)
        return sol(None, x, dl, a, s, hh, N, sqrt=sqrt, prior=pr, noise=R), x, dl, p

    r = h.encode(f"ekf{which}_marginal_parabola", run, *args)

    def want(o):
        x, dl, p = O(o[1]), S(o[2]), o[3]
        hh = dl / (sub or N)
        if prior:
            pr = tuple(O(y) for y in p[:3])
        else:
            xi, Q, A = ibm(h, 1, hh, 1)
            pr = (xi, Q, A)
        R = O(p[-1]) if noise else None
        return outputs(spec(h, which, x, d, dl, hh, N, pr, R, mask, const)[0], d)

    h.eq("posterior mean of (state, increment, area)", r, lambda o: cat(*o[0]), want)
    chk.bound("state dim <= 2 (square diffusion), N <= 2 filter steps; arbitrary drift a(x,t), diffusion s(x,t), interval length; "
              "IBM prior, or an arbitrary prior (xi, Q, A) per coordinate; with and without observation noise; covariance and square-root form")


def law(chk, which, d, N, sqrt=False, noise=False, diag=False):
    """With a key: one joint draw of (x, W, I) from the posterior."""
    h = Harness(chk, f"ekf{which}_sample_d{d}_N{N}{'_noise' if noise else ''}{'_sqrt' if sqrt else ''}")
    sol = solver_of(which)
    a, s, mask = field(h, d, diag)
    x0, dl = h.arr("x", d), h.scalar("delta", lo=0.4, hi=0.9, pos=True)
    args = [x0, dl]
    if noise:
        L = h.ltri("r", d, True)
        args.append(h.lift(L @ L.T))

    def run(key, x, dl, *p):
        return sol(key, x, dl, a, s, dl / N, N, sqrt=sqrt, noise=(p[0] if noise else None))

    r = h.encode(f"ekf{which}_marginal_parabola with a key", run, h.key(), *args)
    D = dl.item()
    hh = D / N
    m, P, _ = spec(h, which, x0, d, D, hh, N, ibm(h, 1, hh, 1), O(args[-1]) if noise else None, mask)
    L = Law(h, r, lambda o: cat(*o))
    L.require_affine("Gaussian sample")
    L.require("sample mean is the posterior mean", "mean", outputs(m, d))
    idx = [4 * i for i in range(d)] + [4 * i + 2 for i in range(d)] + [4 * i + 3 for i in range(d)]
    L.require("sample covariance is the joint posterior covariance", "cov", P[np.ix_(idx, idx)])


def p0_11(chk): posterior(chk, 0, 1, 1)
def p1_11(chk): posterior(chk, 1, 1, 1)
def p0_11p(chk): posterior(chk, 0, 1, 1, prior=True, noise=True)
def p1_11p(chk): posterior(chk, 1, 1, 1, prior=True, noise=True)
def p0_11s(chk): posterior(chk, 0, 1, 1, sqrt=True)
def p1_11s(chk): posterior(chk, 1, 1, 1, sqrt=True)
def p0_11ps(chk): posterior(chk, 0, 1, 1, prior=True, sqrt=True)
def p0_11ns(chk): posterior(chk, 0, 1, 1, noise=True, sqrt=True)
def p1_11ns(chk): posterior(chk, 1, 1, 1, noise=True, sqrt=True)
def p0_12(chk): posterior(chk, 0, 1, 2)
def p1_12(chk): posterior(chk, 1, 1, 2, const=True)
def p1_12f(chk): posterior(chk, 1, 1, 2)
p1_12f.thorough = True
def p0_11h(chk): posterior(chk, 0, 1, 1, sub=3)
def p0_21(chk): posterior(chk, 0, 2, 1)
def p1_21(chk): posterior(chk, 1, 2, 1)
def p0_21d(chk): posterior(chk, 0, 2, 1, prior=True, noise=True, diag=True)
def l0_11(chk): law(chk, 0, 1, 1)
def l1_11(chk): law(chk, 1, 1, 1)
def l0_11s(chk): law(chk, 0, 1, 1, sqrt=True)
def l1_11s(chk): law(chk, 1, 1, 1, sqrt=True)
def l0_11n(chk): law(chk, 0, 1, 1, noise=True)
def l0_11ns(chk): law(chk, 0, 1, 1, noise=True, sqrt=True)
def l0_21(chk): law(chk, 0, 2, 1)


def deep(chk, which, d, N, prior=False, noise=False, key=False, sub=None):
    """Longer and larger instances: numeric interval, Jacobian, diffusion (changing in time) and prior; start and drift offsets arbitrary."""
    from checks import deep as dp
    h = Harness(chk, f"ekf{which}_sized_d{d}_N{N}{'_prior' if prior else ''}{'_noise' if noise else ''}{'_sample' if key else ''}")
    sol = solver_of(which)
    f = dp.Affine(h, d)
    G0, G1 = dp.nums(h, "G0", d, d), dp.nums(h, "G1", d, d)
    g0, g1 = dp.fl(G0), dp.fl(G1)
    x0, D = h.arr("x", d), h.const(Fraction(3, 4)).item()
    M = sub or N
    args = (x0,) + ((dp.nums(h, "xi", 2), dp.spd(h, "Q", 2), dp.nums(h, "A", 2, 2)) if prior else ()) + ((dp.spd(h, "R", d),) if noise else ())

    def run(k, x, *p):
        return sol(k if key else None, x, 0.75, f, lambda x, t: g0 + g1 * t, 0.75 / M, N, sqrt=False,
                   prior=tuple(p[:3]) if prior else None, noise=p[-1] if noise else None), (x,) + p

    r = h.encode(f"ekf{which}_marginal_parabola", run, h.key(), *args)

    def want(o):
        x, *p = [O(v) for v in o]
        symb = isinstance(x[0], Value)
        dl = D if symb else 0.75
        hh = dl / M
        r6 = h.ctx.sqrt_rational(6) if symb else math.sqrt(6)
        sig = lambda t: (G0 + G1 * t) if symb else np.asarray(g0 + g1 * t)
        pr = p[:3] if prior else ibm(h, 1, hh, 1)
        n = 4 * d
        s0 = sig(0 * dl)
        B = zeros(n, 2 * d)
        for i in range(d):
            for j in range(d):
                B[4 * i + 1, j], B[4 * i + 1, d + j] = s0[i, j] / dl, s0[i, j] * r6 / dl
            B[4 * i + 2, i] = B[4 * i + 3, d + i] = 1
        C = zeros(2 * d, 2 * d)
        for i in range(d):
            C[i, i], C[d + i, d + i] = dl, dl / 2
        A, Q, xi = zeros(n, n), zeros(n, n), zeros(n)
        for i in range(d):
            A[4 * i:4 * i + 2, 4 * i:4 * i + 2], Q[4 * i:4 * i + 2, 4 * i:4 * i + 2], xi[4 * i:4 * i + 2] = pr[2], pr[1], pr[0]
            A[4 * i + 2, 4 * i + 2] = A[4 * i + 3, 4 * i + 3] = 1

        def obs(mm, t):
            x, v, W, I = mm[::4], mm[1::4], mm[2::4], mm[3::4]
            s, w1, w2 = sig(t), 1 / dl, r6 * (1 - 2 * t / dl) / dl
            H = zeros(d, n)
            Bm = f.mat(mm)
            for i in range(d):
                H[i, 4 * i + 1] = 1
                for j in range(d):
                    H[i, 4 * j + 2], H[i, 4 * j + 3] = -s[i, j] * w1, -s[i, j] * w2
                    if which == 1:
                        H[i, 4 * j] = H[i, 4 * j] - Bm[i, j]
            return v - f.val(x, t) - s @ (W * w1 + I * w2), H

        m0 = inter(x, f.val(x, 0 * dl), zeros(d), zeros(d))
        return filt(m0, B @ C @ B.T, A, Q, xi, p[-1] if noise else zeros(d, d), obs, [hh * (k + 1) for k in range(N)])

    if not key:
        h.eq("posterior mean of (state, increment, area)", r, lambda o: cat(*o[0]), lambda o: outputs(want(o[1])[0], d))
    else:
        m, P, _ = want(args)
        L = Law(h, r, lambda o: cat(*o[0]))
        L.require_affine("Gaussian sample")
        L.require("sample mean is the posterior mean", "mean", outputs(m, d))
        idx = [4 * i for i in range(d)] + [4 * i + 2 for i in range(d)] + [4 * i + 3 for i in range(d)]
        L.require("sample covariance is the joint posterior covariance", "cov", P[np.ix_(idx, idx)])
    chk.bound("sized instances (numeric interval 3/4, Jacobian, time-dependent diffusion and prior; start and drift offsets arbitrary): dim up to 5, N up to 16")


def z0(chk): deep(chk, 0, 1, 6)
def z1(chk): deep(chk, 1, 1, 6, sub=8)
def z2(chk): deep(chk, 0, 3, 2, True)
def z3(chk): deep(chk, 1, 3, 2, True, True)
def z4(chk): deep(chk, 1, 4, 1, noise=True)
def zk0(chk): deep(chk, 0, 2, 2, key=True)
def zk1(chk): deep(chk, 1, 3, 1, noise=True, key=True)
def z016(chk): deep(chk, 0, 1, 16)
def z116(chk): deep(chk, 1, 1, 16)
def z05(chk): deep(chk, 0, 5, 1)
HARNESSES = ["p0_11", "p1_11", "p0_11p", "p1_11p", "p0_11s", "p1_11s", "p0_11ps", "p0_11ns", "p1_11ns", "p0_12", "p1_12",
             "p0_11h", "p0_21", "p1_21", "p0_21d", "l0_11", "l1_11", "l0_11s", "l1_11s", "l0_11n", "l0_11ns", "l0_21",
             "p1_12f", "z0", "z1", "z2", "z3", "z4", "zk0", "zk1", "z016", "z116", "z05"]
HARNESSES += at_literals(globals(), ['p0_11', 'p1_11', 'l0_11'], ['delta'], (1, 0.25))
