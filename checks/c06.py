"""C06 explicit Euler ODE integrator."""
from symjax.harness import *
from symjax.uf import vec_fun


def _euler(chk, d, N):
    from bayesian_sde_solver.ode_solvers import euler
    h = Harness(chk, f"euler_d{d}_N{N}")
    f = vec_fun("f", d)
    x0, dt = h.arr("x", d), h.scalar("h", lo=0.05, hi=0.6)
    r = h.encode("euler", lambda x, dt: (euler(x, f, dt, N), x, dt), x0, dt)

    def spec(o):
        x, dl = O(o[1]), S(o[2])
        for n in range(N):
            x = x + h.uf_vec("f", x, dl * n) * dl
        return x

    h.eq("N explicit Euler steps of size h from t=0", r, lambda o: O(o[0]), spec)
    chk.bound("state dim <= 5, N up to 101 steps (dim 1), 65 (dim 2), 5 (dim 5); any vector field f(x,t), any step size and start")


def _linear(chk, N):
    """Exact on constant fields, first order on x' = t: sum of left end points."""
    from bayesian_sde_solver.ode_solvers import euler
    h = Harness(chk, f"polynomial_fields_N{N}")
    x0, dt, c, a = h.arr("x", 1), h.scalar("h", lo=0.05, hi=0.6), h.scalar("c"), h.scalar("a")
    r = h.encode("euler on x'=c, x'=t, x'=a x", lambda x, dt, c, a: (
        euler(x, lambda x, t: c * jnp.ones_like(x), dt, N), euler(x, lambda x, t: t * jnp.ones_like(x), dt, N),
        euler(x, lambda x, t: a * x, dt, N)), x0, dt, c, a)
    D, X = dt.item(), x0[0]
    h.eq("constant field", r, lambda o: O(o[0]), vec(X + D * N * c.item()))
    h.eq("x'=t", r, lambda o: O(o[1]), vec(X + D * D * Fraction(N * (N - 1), 2)))
    h.eq("x'=ax", r, lambda o: O(o[2]), vec(X * (1 + a.item() * D) ** N))


def d1n1(chk): _euler(chk, 1, 1)
def d1n2(chk): _euler(chk, 1, 2)
def d1n4(chk): _euler(chk, 1, 4)
def d2n3(chk): _euler(chk, 2, 3)
def d3n2(chk): _euler(chk, 3, 2)
def d2n8(chk): _euler(chk, 2, 8)
def lin(chk):
    _linear(chk, 3)
    _linear(chk, 7)
def d1n33(chk): _euler(chk, 1, 33)
def d5n5(chk): _euler(chk, 5, 5)
def d2n12(chk): _euler(chk, 2, 12)
def d1n101(chk): _euler(chk, 1, 101)
def d2n65(chk): _euler(chk, 2, 65)
for _n in (d1n101, d2n65):
    _n.mild = 0.05
HARNESSES = ["d1n1", "d1n2", "d1n4", "d2n3", "d3n2", "lin", "d2n8", "d1n33", "d5n5", "d2n12", "d1n101", "d2n65"]
HARNESSES += at_literals(globals(), ['d2n3'], ['h'], (1, 0.25))
