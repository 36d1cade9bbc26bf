"""C28 variants of a bundled test problem describe the same equation."""
from symjax.harness import *
from checks.c27 import autonomous


def square(chk, name, base):
    """Square-diffusion variant: same start, drift, noise covariance, reference moments, and a square diffusion."""
    from bayesian_sde_solver.utils import ivp
    h = Harness(chk, name)
    x, t = h.arr("x", 2), h.scalar("t", pos=True)

    def run(x, t):
        A, B = getattr(ivp, base)(), getattr(ivp, name)()
        out = []
        for x0, a, s, *m in (A, B):
            sx = s(x, t)
            out.append((x0, a(x, t), sx @ sx.T, tuple(f(t) for f in m), sx))
        return out[0], out[1]

    r = h.encode(f"{base}, {name}", run, x, t)
    h.eq("same initial value", r, lambda o: O(o[1][0]), lambda o: O(o[0][0]))
    h.eq("same drift", r, lambda o: O(o[1][1]), lambda o: O(o[0][1]))
    h.eq("same noise covariance", r, lambda o: O(o[1][2]), lambda o: O(o[0][2]))
    for k in range(len(r.out[0][3])):
        h.eq(f"same reference moment {k}", r, lambda o: O(o[1][3][k]), lambda o: O(o[0][3][k]))
    h.eq("square diffusion matrix", r, lambda o: O(o[1][4]), lambda o: O(o[1][4]).reshape(2, 2))
    h.eq("noise enters the second coordinate only", r, lambda o: O(o[1][4])[0], zeros(2))
    chk.bound("all states and times; the bundled FitzHugh-Nagumo, integrated Brownian motion and synaptic conductance problems")


def synaptic(chk):
    """The reduced synaptic model is the conductance part of the full one."""
    from bayesian_sde_solver.utils import ivp
    h = Harness(chk, "synaptic_reduced")
    v, g = h.scalar("v"), h.arr("g", 2, pos=True)

    def run(v, g):
        full, red = ivp.synaptic_conductance(), ivp.synaptic_conductance_reduced()
        x = jnp.concatenate([v[None], g])
        return (full[0][1:], autonomous(full[1])(x)[1:], autonomous(full[2])(x)[1:, :2],
                red[0], autonomous(red[1])(g), autonomous(red[2])(g), autonomous(full[2])(x)[0], autonomous(full[2])(x)[:, 2])

    r = h.encode("synaptic_conductance, synaptic_conductance_reduced", run, v, g)
    h.eq("same initial conductances", r, lambda o: O(o[3]), lambda o: O(o[0]))
    h.eq("same conductance drift", r, lambda o: O(o[4]), lambda o: O(o[1]))
    h.eq("same conductance noise", r, lambda o: O(o[5]), lambda o: O(o[2]))
    h.eq("no noise in the voltage", r, lambda o: O(o[6]), zeros(3))
    h.eq("two noise sources", r, lambda o: O(o[7]), zeros(3))
    t = h.scalar("t", pos=True)
    r2 = h.encode("reference means", lambda t: (ivp.synaptic_conductance()[3](t)[1:], ivp.synaptic_conductance_reduced()[3](t)), t)
    h.eq("same reference mean of the conductances", r2, lambda o: O(o[1]), lambda o: O(o[0]))


def usable(chk, name):
    """The problem plugs into its scheme: shapes fit, drift independent of the noise convention."""
    from bayesian_sde_solver.utils import ivp
    from bayesian_sde_solver.sde_solvers import euler_maruyama
    h = Harness(chk, f"usable_{name}")
    dt = h.scalar("h", pos=True)

    def run(key, dt):
        x0, a, s, *_ = getattr(ivp, name)()
        return euler_maruyama(key, x0, lambda x, t: autonomous(a)(x), lambda x, t: autonomous(s)(x), dt, 1)[1], x0, autonomous(a)(x0), autonomous(s)(x0), dt

    r = h.encode(f"one Euler-Maruyama step of {name}", run, h.key(), dt)
    L = Law(h, r, lambda o: O(o[0])[1])
    L.require("mean", "mean", O(r.out[1]) + O(r.out[2]) * dt.item())
    s = O(r.out[3])
    L.require("covariance", "cov", (s @ s.T) * dt.item())


def f(chk): square(chk, "square_matrix_fhn", "fhn")
def i(chk): square(chk, "square_matrix_ibm", "ibm")
def s(chk): synaptic(chk)
HARNESSES = ["f", "i", "s"]
for _n in ("fhn", "square_matrix_fhn", "ibm", "double_ibm", "square_matrix_ibm", "harmonic_oscillator", "harmonic_oscillator_square",
           "gbm", "synaptic_conductance", "synaptic_conductance_reduced"):
    globals()["u_" + _n] = (lambda n: lambda chk: usable(chk, n))(_n)
    HARNESSES.append("u_" + _n)
