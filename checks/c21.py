"""C21 interlacing vectors and covariance blocks."""
from symjax.harness import *


def vectors(chk, k, d):
    from bayesian_sde_solver.ode_solvers.probnum import interlace
    h = Harness(chk, f"vectors_{k}x{d}")
    vs = [h.arr(f"v{i}_", d) for i in range(k)]
    r = h.encode("interlace", lambda *v: (interlace(tuple(v)), tuple(v)), *vs)
    h.eq("entry k*i+j is entry i of vector j", r, lambda o: O(o[0]), lambda o: vec(*[O(o[1][j])[i] for i in range(d) for j in range(k)]))
    for j in range(k):
        h.eq(f"slice {j} recovers vector {j}", r, lambda o: O(o[0])[j::k], lambda o: O(o[1][j]))
    chk.bound("up to 6 vectors of length up to 7, covariance blocks up to 7x7, arbitrary entries")


def mats(chk, d):
    from bayesian_sde_solver.ode_solvers.probnum import interlace_matrix
    h = Harness(chk, f"blocks_{d}")
    bs = [h.arr(f"{nm}", d, d) for nm in "vwxy"]
    r = h.encode("interlace_matrix", interlace_matrix, *bs)
    M = zeros(2 * d, 2 * d)
    M[::2, ::2], M[::2, 1::2], M[1::2, ::2], M[1::2, 1::2] = bs
    h.eq("interlaced blocks", r, lambda o: O(o), M)


def consistent(chk, d):
    """interlace_matrix is the covariance of the interlaced vector: for (a, b) = (M z, N z), Cov = interlaced M/N blocks."""
    from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix
    h = Harness(chk, f"covariance_{d}")
    M, N, z = h.arr("m", d, d), h.arr("n", d, d), h.arr("z", d)

    def run(M, N):
        rows = jnp.stack([interlace((M @ e, N @ e)) for e in jnp.eye(d)])       # images of the basis
        return rows, interlace_matrix(M @ M.T, M @ N.T, N @ M.T, N @ N.T)

    r = h.encode("interlace and interlace_matrix", run, M, N)
    h.eq("covariance of the interlaced vector", r, lambda o: O(o[1]), lambda o: O(o[0]).T @ O(o[0]))


def v21(chk): vectors(chk, 2, 1)
def v23(chk): vectors(chk, 2, 3)
def v32(chk): vectors(chk, 3, 2)
def v33(chk): vectors(chk, 3, 3)
def v44(chk): vectors(chk, 4, 4)
def v12(chk): vectors(chk, 1, 2)
def m1(chk): mats(chk, 1)
def m2(chk): mats(chk, 2)
def m3(chk): mats(chk, 3)
def m4(chk): mats(chk, 4)
def c1(chk): consistent(chk, 1)
def c2(chk): consistent(chk, 2)
def c3(chk): consistent(chk, 3)
def v62(chk): vectors(chk, 6, 2)
def v27(chk): vectors(chk, 2, 7)
def m7(chk): mats(chk, 7)
def c5(chk): consistent(chk, 5)
HARNESSES = ["v21", "v23", "v32", "v33", "v44", "v12", "m1", "m2", "m3", "m4", "c1", "c2", "c3", "v62", "v27", "m7", "c5"]
