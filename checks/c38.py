"""C38 every bundled problem is the model it is named after, at every state (parameters are free)."""
from symjax.harness import *
from checks.c27 import autonomous


def traced(h, name, n, m, label, pos=0):
    """drift, diffusion at a symbolic state, and the drift at probe states (0, e_i, e_i + e_j)."""
    from bayesian_sde_solver.utils import ivp
    x = h.arr("x", n)
    if pos:
        x = h.lift(np.concatenate([O(x)[:n - pos], O(h.arr("g", pos, pos=True))]))
    E = np.eye(n)
    probes = [np.zeros(n)] + [E[i] for i in range(n)] + [E[i] + E[j] for i in range(n) for j in range(i)]

    def run(x):
        x0, a, s, *_ = getattr(ivp, name)()
        a, s = autonomous(a), autonomous(s)
        return x, a(x), s(x), jnp.stack([a(jnp.asarray(p)) for p in probes]), s(jnp.ones(n)), x0

    r = h.encode(name, run, x)
    h.eq("noise sources", r, lambda o: O(o[2]).reshape(n, m), lambda o: O(o[2]))
    return r


def gt0(h, name, r, vals):
    h.ge0(name, r, lambda o: vec(*[v - (Fraction(1, 10 ** 6) if isinstance(v, Value) else 1e-6) for v in vals(o)]))


def lin(o, i, j):
    """coefficient of x_j in an affine component i, from the probes"""
    return O(o[3])[1 + j, i] - O(o[3])[0, i]


def fhn(chk, name, m):
    h = Harness(chk, name)
    r = traced(h, name, 2, m, "")

    def want(o):
        x, P = O(o[0]), O(o[3])
        k = P[0, 0] - P[2, 0]                       # 1 / eps
        return vec(k * (x[0] - x[0] * x[0] * x[0] - x[1]) + P[0, 0], lin(o, 1, 0) * x[0] - x[1] + P[0, 1])

    h.eq("drift ((x - x^3 - y + s)/eps, gamma x - y + alpha)", r, lambda o: O(o[1]), want)
    noise_last(h, r, 2, m)


def noise_last(h, r, n, m):
    """constant noise, one source, entering the last coordinate only"""
    def want(o):
        M = zeros(n, m)
        M[n - 1, 0] = O(o[4])[n - 1, 0]
        return M
    h.eq("constant noise in the last coordinate only", r, lambda o: O(o[2]), want)
    gt0(h, "there is noise", r, lambda o: [O(o[4])[n - 1, 0] * O(o[4])[n - 1, 0]])


def chain(chk, name, n, m):
    h = Harness(chk, name)
    r = traced(h, name, n, m, "")
    h.eq("each coordinate is the integral of the next", r, lambda o: O(o[1]), lambda o: cat(O(o[0])[1:], zeros(1)))
    noise_last(h, r, n, m)


def oscillator(chk, name, m):
    h = Harness(chk, name)
    r = traced(h, name, 2, m, "")
    h.eq("drift (v, -D x - gamma v)", r, lambda o: O(o[1]), lambda o: vec(O(o[0])[1], lin(o, 1, 0) * O(o[0])[0] + lin(o, 1, 1) * O(o[0])[1]))
    gt0(h, "restoring and damping", r, lambda o: [-lin(o, 1, 0), -lin(o, 1, 1)])
    noise_last(h, r, 2, m)


def gbm(chk):
    h = Harness(chk, "gbm")
    r = traced(h, "gbm", 1, 1, "")
    h.eq("drift proportional to the state", r, lambda o: O(o[1]), lambda o: lin(o, 0, 0) * O(o[0]))
    h.eq("noise proportional to the state", r, lambda o: O(o[2])[0], lambda o: O(o[4])[0, 0] * O(o[0]))


def conductances(h, r, k, n, m):
    """linear relaxation with independent square-root noise, for the coordinates from k on"""
    h.eq("conductances relax linearly", r, lambda o: O(o[1])[k:], lambda o: vec(*[lin(o, i, i) * O(o[0])[i] + O(o[3])[0, i] for i in range(k, n)]))
    gt0(h, "to a positive value", r, lambda o: [v for i in range(k, n) for v in (-lin(o, i, i), O(o[3])[0, i])])

    def want(o):
        M = zeros(n, n)
        for i in range(k, n):
            M[i, i] = O(o[4])[i, i - k] * O(o[4])[i, i - k] * O(o[0])[i]
        return M
    h.eq("square-root noise, independent, none elsewhere", r, lambda o: O(o[2]) @ O(o[2]).T, want)


def synaptic(chk):
    h = Harness(chk, "synaptic_conductance")
    r = traced(h, "synaptic_conductance", 3, 3, "", pos=2)

    def want(o):
        x, P = O(o[0]), O(o[3])
        c = lin(o, 0, 0)                            # -G_L / C
        e = P[4, 0] - P[1, 0] - P[2, 0] + P[0, 0]   # coefficient of V g, -1/C
        # -1/C g_E (V - V_E): the coefficient of g_E alone is V_E / C
        return P[0, 0] + c * x[0] + (x[1] + x[2]) * x[0] * e + lin(o, 0, 1) * x[1] + lin(o, 0, 2) * x[2]

    h.eq("voltage: leak and two conductances with their reversal potentials", r, lambda o: O(o[1])[0], lambda o: want(o))
    gt0(h, "leak and coupling are stabilising", r, lambda o: [-lin(o, 0, 0), -(O(o[3])[4, 0] - O(o[3])[1, 0] - O(o[3])[2, 0] + O(o[3])[0, 0])])
    conductances(h, r, 1, 3, 3)


def reduced(chk):
    h = Harness(chk, "synaptic_conductance_reduced")
    r = traced(h, "synaptic_conductance_reduced", 2, 2, "", pos=2)
    conductances(h, r, 0, 2, 2)
    chk.bound("all states (positive conductances), all bundled problems with deterministic coefficients; parameters are read off the code at probe states")


def f1(chk): fhn(chk, "fhn", 1)
def f2(chk): fhn(chk, "square_matrix_fhn", 2)
def i1(chk): chain(chk, "ibm", 2, 1)
def i2(chk): chain(chk, "square_matrix_ibm", 2, 2)
def i3(chk): chain(chk, "double_ibm", 3, 1)
def o1(chk): oscillator(chk, "harmonic_oscillator", 1)
def o2(chk): oscillator(chk, "harmonic_oscillator_square", 2)
def g1(chk): gbm(chk)
def s1(chk): synaptic(chk)
def s2(chk): reduced(chk)
HARNESSES = ["f1", "f2", "i1", "i2", "i3", "o1", "o2", "g1", "s1", "s2"]
