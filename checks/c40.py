"""C40 posterior-sampling and calibration experiments: what they report and draw belongs to the posterior they computed."""
import contextlib
import io

from symjax.harness import *
from symjax.uf import vec_fun
from checks import scripts as sc
from checks.c39 import driver, experiment, interval, problem, setup, stubbed

ALG3 = "sampling_from_posterior_alg3/"


def posterior(chk, rel, name, d=2, m=1, N=2, M=1, fine=2, draws=False):
    """Algorithm 3 experiments: posterior moments, fine, coarse and ODE references belong to the first key's path."""
    h, x0, sig, dl = setup(chk, rel, d, m, N, M, fine, False)
    own = name is None

    def run(key, x0, sig, dl):
        from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise as em
        from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
        with stubbed(True) as o:
            over = dict(x0=x0, drift=vec_fun("own_f", d), sigma=lambda x, t: sig, init=(x0, x0, jnp.zeros((d, d)))) if own else {}
            if own:
                over.update(drift_s=over["drift"], sigma_s=over["sigma"])
            got, keys, _ = experiment(rel, key, x0, sig, (dl, N, M, fine, 3) if draws else (dl, N, M, fine, 1.5), over)
            solver = o.ekf1_2
        f, s = vec_fun("own_f" if own else f"{name}_f", d), lambda x, t: sig
        from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function as tf
        prior = tf(theta=0.0, sigma=1.0 if draws else 1.5, dt=dl / M, q=1, dim=d)
        start, oth = (x0, x0, jnp.zeros((d, d))), []

        def ode(key, init, vector_field, T):
            return interval(solver, prior, M)(key, init, vector_field, T)

        sols, co = (lambda r: (r[1], r[2:]))(driver(f, s, start, keys[0], dl, N, fine, ode))
        euler = lambda key, init, vector_field, T: em(jnp.zeros((fine, m)), init, vector_field, lambda x, t: 0 * sig, T / fine, fine)[1][-1]
        eu = driver(f, s, x0, keys[0], dl, N, fine, euler)[1]
        inc = co[2].reshape(N * fine, m)
        fi = em(inc, x0, f, s, dl / fine, N * fine)[1]
        rough = em(jnp.sum(co[2], axis=1), x0, f, s, dl, N)[1]
        mean, cov = sols[1][1:], sols[2][1:]
        if not draws:
            # one run of the interval integrator per interval, from the previous state, with its full output
            st, zs, Ss, ms, Ps = start, [], [], [], []
            from bayesian_sde_solver.foster_polynomial import get_approx_fine
            _, ev = get_approx_fine(N=fine, dim=m)
            kk = jax.random.split(keys[0], N)
            for k in range(N):
                ck = [c[k] for c in co]
                vf = lambda z, t, ck=ck, k=k: f(z, t + k * dl) + s(z, t) @ jax.jacfwd(lambda t: ev(t, dl, *ck))(t)
                st, (_, mm, PP, SS, zz) = solver(jax.random.split(kk[k], 2)[1], st, vf, dl / M, M, prior=prior, return_all=True)
                zs, Ss, ms, Ps = zs + [zz], Ss + [SS], ms + [mm], Ps + [PP]
            mean, cov = jnp.stack(ms), jnp.stack(Ps)
            c = mle_diffusion(jnp.stack(zs), jnp.stack(Ss))
            return got, (mean, cov, fi, rough, eu, inc, co[0], co[1], c)
        return got[1:], (mean, cov, fi, rough, eu, inc, co[0], co[1])

    r = h.encode(f"experiment of scripts/{rel}", run, h.key(), x0, sig, dl)
    pick = lambda o, i: O(o[0][i][0]) if i in (5, 6, 7) else O(o[0][i])
    names = ["posterior means", "posterior covariances", "fine reference", "coarse reference", "ODE reference", "fine increments",
             "increments", "areas"] + ([] if draws else ["diffusion estimate"])
    for i, w in enumerate(names):
        h.eq(w, r, lambda o: pick(o, i), lambda o: O(o[1][i]))


def calibration_loop(chk):
    """The calibrated run's prior is the uncalibrated one rescaled by the estimate, whatever the estimate."""
    import ast
    rel = ALG3 + "uncertainty_calibration.py"
    h = Harness(chk, "calibration_loop")
    c = h.scalar("c", pos=True, lo=0.2, hi=4.0)

    def run(c):
        calls = []

        def experiment(delta, N, M, fine, sigma_prior=1.0):
            calls.append((delta, N, M, fine, sigma_prior))
            return (None,) * 8 + (c,)

        src, path = sc.source(rel)
        tree = ast.parse(src)
        body = []
        for s in tree.body:
            body.append(s)
            if isinstance(s, ast.FunctionDef) and s.name == "experiment":
                body += ast.parse("experiment = __arbitrary_estimate__").body
        tree.body = body
        save, jnp.save = jnp.save, lambda *a, **k: None
        try:
            with jax.ensure_compile_time_eval(), contextlib.redirect_stdout(io.StringIO()):
                exec(compile(tree, path, "exec"), {"__name__": "__main__", "__arbitrary_estimate__": experiment})
        finally:
            jnp.save = save
        if len(calls) < 2:
            raise Inconclusive("the calibration script makes fewer than two runs")
        a, b = calls[-2:]
        grid = lambda r: jnp.stack([jnp.asarray(x, dtype=float) for x in r[:4]])
        return jnp.asarray(a[4], dtype=float) ** 2 * c, jnp.asarray(b[4]) ** 2, grid(a), grid(b)

    r = h.encode("calibration loop", run, c)
    h.eq("squared scale of the calibrated prior", r, lambda o: O(o[1]), lambda o: O(o[0]))
    h.eq("same grid in both runs", r, lambda o: O(o[3]), lambda o: O(o[2]))


def samples(chk, N=2, d=2):
    """Draws from the posterior have the posterior's mean and covariance."""
    rel = ALG3 + "pathwise_sampling_from_posterior.py"
    h = Harness(chk, f"posterior_samples_N{N}_d{d}")
    m = h.arr("m", N, d)
    Ls = [h.ltri(f"L{k}_", d, posdiag=True) for k in range(N)]
    P = O([L @ L.T for L in Ls])

    def run(key, m, P):
        x0, sig = jnp.zeros(d), jnp.zeros((d, 1))
        with sc.problems(problem(x0, sig)):
            ns = sc.load(rel, JAX_KEY=key)
        S = sc.SAMPLES
        ns["keys"] = jax.random.split(key, S)
        first = lambda a: jnp.concatenate([jnp.zeros_like(a[:1]), a])

        def sde_solver(key, drift, sigma, x0, bm, delta, N, ode_int):
            co = jnp.zeros((N, 1)), jnp.zeros((N, 1)), jnp.zeros((N, 2, 1)), jnp.zeros((N, 2, 1))
            if isinstance(x0, tuple):
                return (jnp.zeros(N + 1), (first(m), first(m), first(P)), *co)
            return (jnp.zeros(N + 1), first(m), *co)
        ns["sde_solver"] = sde_solver
        out = ns["experiment"](0.5, N, 1, 2, 3)
        return out[0], out[1], out[2]

    r = h.encode("posterior samples", run, h.key(), m, P)
    for i in (0, 2):
        law = h.law(r, lambda o: O(o[0])[i].reshape(-1))
        law.require_affine(f"draw {i} is Gaussian")
        law.require(f"mean of draw {i}", "mean", O(m).reshape(-1))
        B = zeros(N * d, N * d)
        for k in range(N):
            B[k * d:(k + 1) * d, k * d:(k + 1) * d] = P[k]
        law.require(f"covariance of draw {i}", "cov", B)
    h.eq("reported means", r, lambda o: O(o[1]), lambda o: O(m))
    h.eq("reported covariances", r, lambda o: O(o[2]), lambda o: P)


def post(chk): posterior(chk, ALG3 + "pathwise_sampling_from_posterior.py", "fhn", draws=True)
def post3(chk): posterior(chk, ALG3 + "pathwise_sampling_from_posterior.py", "fhn", draws=True, N=3, M=2, fine=3)
def cal(chk): posterior(chk, ALG3 + "uncertainty_calibration.py", "fhn")
def cal3(chk): posterior(chk, ALG3 + "uncertainty_calibration.py", "fhn", N=2, M=2, fine=3)
def sanity(chk): posterior(chk, ALG3 + "sanity_check_calibration_ode.py", None, d=1)
def draws22(chk): samples(chk)
def draws32(chk): samples(chk, 3, 2)
HARNESSES = ["post", "post3", "cal", "cal3", "sanity", "calibration_loop", "draws22", "draws32"]
