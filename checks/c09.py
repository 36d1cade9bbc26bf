"""C09 order-1.5 strong Taylor scheme, diagonal noise (Kloeden & Platen 10.4)."""
from symjax.harness import *
from symjax.uf import uf, vec_fun


def diag_sigma(d):
    """b_k(x_k) on the diagonal: the diagonal-noise setting of the scheme."""
    def sigma(x):
        return jnp.stack([jnp.stack([uf(f"b{i}", x[i]) if i == j else jnp.zeros((), x.dtype) for j in range(d)]) for i in range(d)])
    return sigma


def reveal(key, d, h, N):
    """(dW, dW*h - dZ) per step, revealed by running the solver itself on two trivial SDEs."""
    from bayesian_sde_solver.sde_solvers import diag_15_scheme
    _, W = diag_15_scheme(key, jnp.zeros((d,)), lambda x: 0.0 * x, lambda x: jnp.eye(d), h, N)
    _, V = diag_15_scheme(key, jnp.zeros((d,)), lambda x: x, lambda x: jnp.eye(d), h, N)
    return W, V


def noise(o, W, V, k, dl):
    dW = O(W)[k + 1] - O(W)[k]
    x = O(V)[k]
    # on dx = x dt + dW the scheme gives x + h x + h^2/2 x + dW + dZ
    dZ = O(V)[k + 1] - x * (1 + dl + dl * dl / 2) - dW
    return dW, dZ


def step(h, f, b, x, dW, dZ, dl, d):
    """Kloeden-Platen (10.4.?) diagonal noise order 1.5 Taylor step, coefficients given pointwise."""
    a = [f(i, x, ()) for i in range(d)]
    out = []
    for k in range(d):
        bk, b1, b2 = b(k, x[k], 0), b(k, x[k], 1), b(k, x[k], 2)
        L0a = sum(a[j] * f(k, x, (j,)) for j in range(d)) + sum(
            b(j, x[j], 0) * b(j, x[j], 0) * f(k, x, (j, j)) for j in range(d)) * Fraction(1, 2)
        L1a = sum(b(j, x[j], 0) * f(k, x, (j,)) * dZ[j] for j in range(d))
        L0b = a[k] * b1 + bk * bk * b2 * Fraction(1, 2)
        LLb = bk * (b1 * b1 + bk * b2)
        out.append(x[k] + a[k] * dl + bk * dW[k] + L0a * dl * dl * Fraction(1, 2) + L1a
                   + L0b * (dW[k] * dl - dZ[k])
                   + bk * b1 * (dW[k] * dW[k] - dl) * Fraction(1, 2)
                   + LLb * (dW[k] * dW[k] * Fraction(1, 3) - dl) * dW[k] * Fraction(1, 2))
    return vec(*out)


def fb(h, d):
    def f(i, x, dv):
        return h.uf(f"f{i}", *x, deriv=[sum(1 for j in dv if j == k) for k in range(d)])

    def b(i, xi, n):
        return h.uf(f"b{i}", xi, deriv=(n,))

    return f, b


def scheme(chk, d, N, const=False):
    from bayesian_sde_solver.sde_solvers import diag_15_scheme
    h = Harness(chk, f"scheme_d{d}_N{N}{'_const' if const else ''}")
    F = vec_fun("f", d, time=False)
    x0, dt = h.arr("x", d), h.scalar("h", pos=True)
    B = h.arr("B", d)

    def run(key, x, dt, B):
        sg = (lambda x: jnp.diag(B)) if const else diag_sigma(d)
        ts, X = diag_15_scheme(key, x, F, sg, dt, N)
        W, V = reveal(key, d, dt, N)
        return ts, X, W, V, x, dt, B

    r = h.encode("diag_15_scheme", run, h.key(), x0, dt, B)
    f, b = fb(h, d)
    if const:
        h.note = None

    def spec(o):
        dl = S(o[5])
        x = O(o[4])
        bb = (lambda i, xi, n: (O(o[6])[i] if n == 0 else 0)) if const else b
        rows = [x]
        for k in range(N):
            dW, dZ = noise(o, o[2], o[3], k, dl)
            x = step(h, f, bb, x, dW, dZ, dl, d)
            rows.append(x)
        return np.stack(rows)

    h.eq("Taylor step", r, lambda o: O(o[1]), spec)
    h.eq("time grid", r, lambda o: O(o[0]), lambda o: vec(*[S(o[5]) * k for k in range(N + 1)]))
    chk.bound("dim <= 3 (1 step), dim 1-2 (2 steps, quick: constant noise; constant noise up to 12 steps in dim 1); arbitrary drift a(x), arbitrary diagonal "
              "b_k(x_k), any h, x0, key; the (dW, dZ) used by the solver are read off its own runs on dx=dW and dx=x dt+dW")


def noise_law(chk, d, N):
    h = Harness(chk, f"noise_law_d{d}_N{N}")
    dt = h.scalar("h", pos=True)
    r = h.encode("diag_15_scheme on linear SDEs", lambda key, dt: (*reveal(key, d, dt, N), dt), h.key(), dt)

    def pick(o):
        out = []
        for k in range(N):
            out += list(noise(o, o[0], o[1], k, S(o[2])))
        return cat(*out)

    L = Law(h, r, pick)
    L.require_affine("Gaussian")
    L.require("mean", "mean", zeros(2 * N * d))
    D = dt.item()
    I = eye(d)
    L.require("(dW, dZ): variances h, h^3/3, covariance h^2/2, independent across coordinates and steps", "cov",
              kron(eye(N), block([[I * D, I * (D ** 2 / 2)], [I * (D ** 2 / 2), I * (D ** 3 / 3)]])))


def s1(chk): scheme(chk, 1, 1)
def s2(chk): scheme(chk, 2, 1)
def s3(chk): scheme(chk, 3, 1)
def s12(chk): scheme(chk, 1, 2)
def s22(chk): scheme(chk, 2, 2)
def c22(chk): scheme(chk, 2, 2, True)
def c13(chk): scheme(chk, 1, 3, True)
def n11(chk): noise_law(chk, 1, 1)
def n22(chk): noise_law(chk, 2, 2)
def n32(chk): noise_law(chk, 3, 2)
s22.thorough = True
def c32(chk): scheme(chk, 3, 2, True)
def c41(chk): scheme(chk, 4, 1, True)
def c15(chk): scheme(chk, 1, 5, True)
def n14(chk): noise_law(chk, 1, 4)
def n44(chk): noise_law(chk, 4, 4)
def c112(chk): scheme(chk, 1, 12, True)
def n118(chk): noise_law(chk, 1, 18)
HARNESSES = ["n11", "n22", "n32", "s1", "s2", "s3", "s12", "c22", "c13", "s22", "c32", "c41", "c15", "n14", "n44", "c112", "n118"]
HARNESSES += at_literals(globals(), ['s2', 'c22', 'n22'], ['h'], (1, 0.25))
