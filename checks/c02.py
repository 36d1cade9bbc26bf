"""C02 sampled parabola has the Brownian law."""
from symjax.harness import *


def simpson(f0, fm, f1, dt):
    """exact integral of a parabola over [0, dt]."""
    return (f0 + 4 * fm + f1) * dt / 6


def coeff_law(chk, dim):
    from bayesian_sde_solver.foster_polynomial import get_approx
    h = Harness(chk, f"law_dim{dim}")
    dt = h.scalar("dt", pos=True)
    key = h.key()

    def f(key, dt):
        co, ev = get_approx(dim=dim)
        c = co(key, dt)
        return (*c, ev(0.0 * dt, dt, *c), ev(dt / 2, dt, *c), ev(dt, dt, *c))

    r = h.encode("get_approx", f, key, dt)
    d = dt.item()
    h.eq("starts at 0", r, lambda o: o[2], zeros(dim))
    h.eq("ends at the increment", r, lambda o: o[4], lambda o: o[0])
    L = Law(h, r, lambda o: np.concatenate([np.asarray(o[4], dtype=object), simpson(o[2], o[3], o[4], 1)]))
    L.require_affine("Gaussian")
    L.require("mean", "mean", zeros(2 * dim))
    # (W(dt), (1/dt) int_0^dt W): Var = dt, dt/3, Cov = dt/2
    I = eye(dim)
    C = block([[I * d, I * (d / 2)], [I * (d / 2), I * (d / 3)]])
    L.require("Brownian covariance of end value and time average", "cov", C)
    chk.bound(f"dim <= 8, any interval length dt > 0, any key")


def shape(chk, dim):
    """The curve is the parabola of its coefficients: quadratic in t, scale free, coordinatewise."""
    from bayesian_sde_solver.foster_polynomial import get_approx
    h = Harness(chk, f"curve_dim{dim}")
    dt, t = h.scalar("dt", pos=True), h.scalar("t")
    a, b = h.arr("a", dim), h.arr("b", dim)

    def f(t, dt, a, b):
        _, ev = get_approx(dim=dim)
        return ev(t, dt, a, b), ev(0.0 * t, dt, a, b), ev(0.5 * dt, dt, a, b), ev(dt, dt, a, b), t / dt

    r = h.encode("eval_parabola", f, t, dt, a, b)
    # value at any t is the quadratic through the three points, whose mid-deviation from the chord is +-sqrt(6)/4 b
    h.eq("quadratic interpolation", r,
         lambda o: o[0],
         lambda o: vec(*[4 * o[2][i] * (o[4].item() * (1 - o[4].item())) + o[3][i] * (o[4].item() * (2 * o[4].item() - 1))
                         for i in range(dim)]))
    h.eq("end", r, lambda o: o[3], a)
    h.eq("start", r, lambda o: o[1], zeros(dim))
    h.eq("deviation magnitude", r, lambda o: (o[2] - o[3] / 2) * (o[2] - o[3] / 2),
         vec(*[b[i] * b[i] * Fraction(6, 16) for i in range(dim)]))
    g = h.encode("eval_parabola on a grid", lambda t, dt, a, b: get_approx(dim=dim)[1](t * jnp.ones((3, 1)), dt, a, b), t, dt, a, b)
    h.eq("vectorised over times", [r, g], lambda o, q: q[1], lambda o, q: o[0])


def batch(chk):
    """Vectorised over keys: rows are independent and each has the single-key law."""
    from bayesian_sde_solver.foster_polynomial import get_approx
    h = Harness(chk, "batch")
    dt = h.scalar("dt", pos=True)

    def f(key, dt):
        co, _ = get_approx(dim=2)
        ks = jax.random.split(key, 3)
        a, b = co(ks, dt)
        a0, b0 = co(ks[1], dt)
        return a, b, a0, b0

    r = h.encode("get_approx over a batch of keys", f, h.key(), dt)
    h.eq("row equals single call", r, lambda o: np.concatenate([o[0][1], o[1][1]]),
         lambda o: np.concatenate([np.asarray(o[2]), np.asarray(o[3])]))
    L = Law(h, r, lambda o: np.concatenate([np.asarray(o[0]).reshape(-1), np.asarray(o[1]).reshape(-1)]))
    d = dt.item()
    C = kron(eye(2), eye(6))
    C = C * d
    for i in range(6, 12):
        C[i, i] = d / 2
    L.require("rows independent", "cov", C)


def law1(chk): coeff_law(chk, 1)
def law2(chk): coeff_law(chk, 2)
def law3(chk): coeff_law(chk, 3)
def curve1(chk): shape(chk, 1)
def curve2(chk): shape(chk, 2)
def law5(chk): coeff_law(chk, 5)
def law8(chk): coeff_law(chk, 8)
def curve4(chk): shape(chk, 4)
HARNESSES = ["law1", "law2", "law3", "curve1", "curve2", "batch", "law5", "law8", "curve4"]
HARNESSES += at_literals(globals(), ['law2', 'curve2', 'batch'], ['dt'], (1, 0.25))
