"""C22 maximum-likelihood calibration of the diffusion."""
from symjax.harness import *
from symjax.uf import vec_fun
from checks.odef import *


def formula(chk, N, d):
    from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
    h = Harness(chk, f"mle_N{N}_d{d}")
    zs = h.arr("z", N, d)
    Ss = O([symmat(h, f"S{k}_", d) for k in range(N)])
    r = h.encode("mle_diffusion", lambda z, S: (mle_diffusion(z, S), z, S), zs, Ss)

    def spec(o):
        z, Sm = O(o[1]), O(o[2])
        acc = 0
        for k in range(N):
            acc = acc + z[k] @ inv_sym(Sm[k]) @ z[k]
        return acc * Fraction(1, N * d) if isinstance(acc, Value) else acc / (N * d)

    h.eq("average Mahalanobis residual", r, lambda o: O(o[0]), lambda o: O(spec(o)))
    chk.bound("N <= 3 residuals of dimension <= 2; arbitrary residuals and symmetric invertible covariances; end to end: one and "
              "two filter steps, dim 1")


def diagonal(chk, N, d):
    """Uncorrelated residuals: the average of squared standardised residuals, whatever the ratio of the variances."""
    from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
    h = Harness(chk, f"mle_diagonal_N{N}_d{d}")
    zs, v = h.arr("z", N, d), h.arr("v", N, d, pos=True)
    r = h.encode("mle_diffusion", lambda z, v: (mle_diffusion(z, jax.vmap(jnp.diag)(v)), z, v), zs, v)

    def spec(o):
        z, v = O(o[1]), O(o[2])
        acc = sum(z[k, i] * z[k, i] / v[k, i] for k in range(N) for i in range(d))
        return acc * Fraction(1, N * d) if isinstance(acc, Value) else acc / (N * d)

    h.eq("average squared standardised residual", r, lambda o: O(o[0]), lambda o: O(spec(o)))


def score(chk, N, d):
    """The estimate is the stationary point of the Gaussian log-likelihood sum_k log N(z_k; 0, c S_k) in c."""
    from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
    h = Harness(chk, f"score_N{N}_d{d}")
    zs = h.arr("z", N, d)
    Ss = O([symmat(h, f"S{k}_", d) for k in range(N)])
    r = h.encode("mle_diffusion", lambda z, S: (mle_diffusion(z, S), z, S), zs, Ss)

    def lhs(o):
        c, z, Sm = S(o[0]), O(o[1]), O(o[2])
        acc = 0
        for k in range(N):
            acc = acc + z[k] @ inv_sym(Sm[k]) @ z[k]
        return O(acc - N * d * c)      # 2 c^2 * d(log-likelihood)/dc

    h.eq("zero score", r, lhs, lambda o: O(0 * S(o[0])))


def scale(chk, N, d):
    """Scaling all covariances by s divides the estimate by s; scaling residuals by a multiplies it by a^2."""
    from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
    h = Harness(chk, f"scale_N{N}_d{d}")
    zs, s, a = h.arr("z", N, d), h.scalar("s", pos=True), h.scalar("a")
    Ss = O([symmat(h, f"S{k}_", d) for k in range(N)])
    r = h.encode("mle_diffusion", lambda z, S, s, a: (mle_diffusion(z, S), mle_diffusion(a * z, s * S), s, a), zs, Ss, s, a)
    h.eq("equivariance", r, lambda o: O(S(o[1]) * S(o[2])), lambda o: O(S(o[0]) * S(o[3]) * S(o[3])))


def calibrated(chk, which, N):
    """Rescaling the prior by the estimate: same mean, covariance multiplied by it, and recalibrating gives exactly 1."""
    from bayesian_sde_solver.ode_solvers import ekf0_2, ekf1_2
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function as tf
    from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
    sol = (ekf0_2, ekf1_2)[which]
    h = Harness(chk, f"calibrated_ekf{which}_N{N}")
    f = vec_fun("f", 1)
    m0, dt, sg = h.arr("m", 1), h.scalar("h", pos=True), h.scalar("sigma", pos=True)

    def run(m, dt, sg):
        P = jnp.zeros((1, 1))
        def go(s):
            prior = tf(theta=0.0, sigma=s, q=1, dt=dt, dim=1)
            return sol(None, (m, m, P), f, dt, N, prior=prior, return_all=True)[1]
        a, b = go(1.0), go(sg)
        ca, cb = mle_diffusion(a[4][None], a[3][None]), mle_diffusion(b[4][None], b[3][None])
        return a[1], b[1], a[2], b[2], ca, cb, sg

    r = h.encode("filter at two prior scales and mle_diffusion", run, m0, dt, sg)
    h.eq("mean independent of the prior scale", r, lambda o: O(o[1]), lambda o: O(o[0]))
    h.eq("covariance proportional to the squared scale", r, lambda o: O(o[3]), lambda o: O(o[2]) * S(o[6]) * S(o[6]))
    h.eq("estimate inversely proportional to the squared scale", r, lambda o: O(S(o[5]) * S(o[6]) * S(o[6])), lambda o: O(o[4]))


def f11(chk): formula(chk, 1, 1)
def f31(chk): formula(chk, 3, 1)
def f12(chk): formula(chk, 1, 2)
def f22(chk): formula(chk, 2, 2)
def k21(chk): score(chk, 2, 1)
def k12(chk): score(chk, 1, 2)
def k22(chk): score(chk, 2, 2)
def s21(chk): scale(chk, 2, 1)
def d12(chk): diagonal(chk, 1, 2)
def d23(chk): diagonal(chk, 2, 3)
def s12(chk): scale(chk, 1, 2)
def c01(chk): calibrated(chk, 0, 1)
def c02(chk): calibrated(chk, 0, 2)
def c11(chk): calibrated(chk, 1, 1)
def c12(chk): calibrated(chk, 1, 2)


def deep(chk, N, d):
    """More and larger residuals, with numeric covariances."""
    from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
    from checks import deep as dp
    h = Harness(chk, f"sized_N{N}_d{d}")
    zs = h.arr("z", N, d)
    Ss = O([dp.spd(h, f"S{k}", d) for k in range(N)])
    r = h.encode("mle_diffusion", lambda z, S: (mle_diffusion(z, S), z, S), zs, Ss)

    def spec(o):
        z, Sm = O(o[1]), O(o[2])
        acc = 0
        for k in range(N):
            acc = acc + z[k] @ inv_sym(Sm[k]) @ z[k]
        return O(acc * Fraction(1, N * d) if isinstance(acc, Value) else acc / (N * d))

    h.eq("average Mahalanobis residual", r, lambda o: O(o[0]), spec)
    chk.bound("numeric covariances, arbitrary residuals: N up to 33, dimension up to 6")


def z81(chk): deep(chk, 8, 1)
def z43(chk): deep(chk, 4, 3)
def z54(chk): deep(chk, 5, 4)
def z331(chk): deep(chk, 33, 1)
def z172(chk): deep(chk, 17, 2)
def z16(chk): deep(chk, 1, 6)
HARNESSES = ["f11", "f31", "f12", "f22", "d12", "d23", "k21", "k12", "k22", "s21", "s12", "c01", "c02", "c11", "c12", "z81", "z43", "z54", "z331", "z172", "z16"]
