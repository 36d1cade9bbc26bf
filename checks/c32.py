"""C32 the scale of the prior does not move the mean, scales all covariances, and is recovered by calibration."""
from symjax.harness import *
from symjax.uf import vec_fun
from checks import deep as dp
from checks.odef import *


def filter_scale(chk, d, o, N, sqrt=False):
    """ekf with (P, Q, R) and with c^2 (P, Q, R): arbitrary observation function of state and parameter."""
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    h = Harness(chk, f"filter_d{d}_o{o}_N{N}{'_sqrt' if sqrt else ''}")
    c = h.scalar("c", lo=1.3, hi=2.2, pos=True)
    m0, ts = h.arr("m", d), h.arr("t", N)
    f = dp.Affine(h, d)
    H = dp.nums(h, "H", o, d)
    A, xi = dp.nums(h, "A", d, d), dp.nums(h, "xi", d)
    if sqrt:
        P, Q, R = (h.lift(eye(n) + np.tril(O(dp.nums(h, t, n, n)), -1)) for t, n in (("P", d), ("Q", d), ("R", o)))
    else:
        P, Q, R = dp.spd(h, "P", d), dp.spd(h, "Q", d), dp.spd(h, "R", o)
    Pf, Qf, Rf, Af, xf, Hf = map(dp.fl, (P, Q, R, A, xi, H))

    def run(m0, ts, c):
        obs = lambda x, t: Hf @ f(x, t)
        k = c if sqrt else c * c
        a = ekf((m0, Pf), obs, Af, Qf, xf, Rf, params=(ts,), lower_sqrt=sqrt, return_UC=True)
        b = ekf((m0, k * Pf), obs, Af, k * Qf, xf, k * Rf, params=(ts,), lower_sqrt=sqrt, return_UC=True)
        out = []
        for (m, P), S, z in (a, b):
            out.append((m, P @ P.T if sqrt else P, S, z))
        return out, c

    r = h.encode("ekf with a scaled model", run, m0, ts, c)
    sq = lambda o: S(o[1]) * S(o[1])
    h.eq("same mean", r, lambda o: O(o[0][1][0]), lambda o: O(o[0][0][0]))
    h.eq("covariance scales", r, lambda o: O(o[0][1][1]), lambda o: O(o[0][0][1]) * sq(o))
    h.eq("innovation covariance scales", r, lambda o: O(o[0][1][2]), lambda o: O(o[0][0][2]) * sq(o))
    h.eq("same innovation", r, lambda o: O(o[0][1][3]), lambda o: O(o[0][0][3]))
    chk.bound("filter: numeric model matrices, arbitrary scale c > 0, start, parameters and time-dependent observation offset; state dim up to 4, "
              "observation dim up to 2, N up to 4")


def calibrated(chk, which, d, N, sqrt=False):
    """One continued interval from a known point: calibrating and running again with the calibrated prior gives scale one."""
    from bayesian_sde_solver.ode_solvers import ekf0_2, ekf1_2
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function as tf
    from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
    sol = (ekf0_2, ekf1_2)[which]
    h = Harness(chk, f"calibrated_ekf{which}_d{d}_N{N}{'_sqrt' if sqrt else ''}")
    f = dp.Affine(h, d)
    x0, c = h.arr("x", d), h.scalar("c", lo=1.3, hi=2.2, pos=True)

    def run(x, c):
        out = []
        for s in (1.0, c):
            xi, Q, A = tf(theta=0.0, sigma=s, q=1, dt=0.5, dim=d)
            (_, m, P), (_, mm, PP, S, z) = sol(None, (x, x, jnp.zeros((d, d))), f, 0.5, N, sqrt=sqrt, prior=(xi, Q, A), return_all=True)
            z, S = (z, S) if z.ndim == 1 else (S, z)
            out.append((m, P, PP, mle_diffusion(z[None], S[None])))
        return out, c

    r = h.encode(f"ekf{which}_2 with prior scale 1 and c", run, x0, c)
    sq = lambda o: S(o[1]) * S(o[1])
    h.eq("same mean", r, lambda o: O(o[0][1][0]), lambda o: O(o[0][0][0]))
    h.eq("state covariance scales", r, lambda o: O(o[0][1][1]), lambda o: O(o[0][0][1]) * sq(o))
    h.eq("joint covariance scales", r, lambda o: O(o[0][1][2]), lambda o: O(o[0][0][2]) * sq(o))
    h.eq("calibrated scale is relative to the prior used", r, lambda o: vec(S(o[0][1][3]) * sq(o)), lambda o: vec(S(o[0][0][3])))
    chk.bound("continued integrators from a known point: numeric step and Jacobian, arbitrary scale, start and time-dependent part; dim up to 3, N up to 4")


def sampled(chk, which, N, sqrt=False):
    """Restarted integrator: scaling the prior scales the spread of the sample and leaves its centre."""
    from bayesian_sde_solver.ode_solvers import ekf0, ekf1
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function as tf
    sol = (ekf0, ekf1)[which]
    h = Harness(chk, f"sample_ekf{which}_N{N}{'_sqrt' if sqrt else ''}")
    f = dp.Affine(h, 1)
    x0, c = h.arr("x", 1), h.scalar("c", lo=1.3, hi=2.2, pos=True)

    def run(key, x, c):
        go = lambda k, s: sol(k, x, f, 0.5, N, sqrt=sqrt, prior=tf(theta=0.0, sigma=s, q=1, dt=0.5, dim=1))
        return go(key, 1.0), go(key, c), go(None, c), c

    r = h.encode(f"ekf{which} with prior scale 1 and c", run, h.key(), x0, c)
    L1, Lc = Law(h, r, lambda o: O(o[0]) - O(o[2])), Law(h, r, lambda o: O(o[1]) - O(o[2]))
    L1.require("centred", "mean", zeros(1))
    Lc.require("scaled: centred", "mean", zeros(1))
    Lc.require("scaled: variance scales", "cov", L1.cov() * (c.item() * c.item()))


def b1(chk): filter_scale(chk, 1, 1, 4)
def b2(chk): filter_scale(chk, 2, 1, 3)
def b3(chk): filter_scale(chk, 4, 2, 3)
def bs(chk): filter_scale(chk, 1, 1, 3, True)
def bs2(chk): filter_scale(chk, 2, 1, 1, True)
def c0(chk): calibrated(chk, 0, 1, 4)
def c1(chk): calibrated(chk, 1, 1, 4)
def c0_3(chk): calibrated(chk, 0, 3, 2)
def c1_3(chk): calibrated(chk, 1, 3, 3)
def c0s(chk): calibrated(chk, 0, 1, 3, True)
def c1s(chk): calibrated(chk, 1, 1, 3, True)
def s0(chk): sampled(chk, 0, 2)
def s1(chk): sampled(chk, 1, 2)
def s0s(chk): sampled(chk, 0, 2, True)
def s1s(chk): sampled(chk, 1, 2, True)
HARNESSES = ["b1", "b2", "b3", "bs", "bs2", "c0", "c1", "c0_3", "c1_3", "c0s", "c1s", "s0", "s1", "s0s", "s1s"]
