"""C39 experiment scripts: method and reference share one Brownian path, sample by sample, with the stated problem and prior."""
import contextlib
import functools

from symjax.harness import *
from symjax.uf import uf, vec_fun
from checks import scripts as sc


def weight(prior, h, N, d, stub):
    """A number that tells priors apart."""
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function as tf
    xi, Q, A = prior if prior is not None else tf(theta=0.0, sigma=1.0, dt=h, q=1, dim=d)
    w = lambda M, s: jnp.sum(M * (s + jnp.arange(1.0, M.size + 1)).reshape(M.shape))
    return w(xi, 0.0) + w(Q, 0.5) + w(A, 0.25)


def stub(name):
    """An arbitrary interval integrator: any function of start, vector field, step, number of steps and prior (and a draw)."""
    def integrate(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, return_all=False):
        tup = isinstance(init, tuple)
        x = init[1] if tup else init
        d = x.shape[0]
        v = vector_field(x, h / 2)
        p = weight(prior, h, N, d, name)
        args = [*x, *v, h, p] + ([*init[2].reshape(-1)] if tup else [])
        y = jnp.stack([uf(f"{name}{N}{i}", *args) for i in range(d)])
        if not tup:
            return y
        s = y + (0.0 if key is None else jax.random.normal(key, shape=(d,)))
        st = s, y, init[2] / 2 + h * jnp.ones((d, d)) + jnp.eye(d)
        if return_all:
            return st, (jnp.tile(s, 2), jnp.tile(y, 2), jnp.kron(st[2], jnp.ones((2, 2))), 3 * st[2], 5 * y + s)
        return st
    return integrate


@contextlib.contextmanager
def stubbed(on):
    """ode_solvers.* replaced by arbitrary integrators."""
    from bayesian_sde_solver import ode_solvers as o
    saved = {n: getattr(o, n) for n in ("ekf0", "ekf1", "ekf0_2", "ekf1_2", "euler")}
    if on:
        for n in saved:
            s = stub(n)
            setattr(o, n, s if n != "euler" else lambda init, vector_field, h, N: s(None, init, vector_field, h, N))
    try:
        yield o
    finally:
        for n, f in saved.items():
            setattr(o, n, f)


@contextlib.contextmanager
def stub_priors():
    """Prior constructors replaced by numbers that are arbitrary functions of the constructors' arguments."""
    import inspect
    from bayesian_sde_solver.ode_solvers import probnum as pn
    names = ("IOUP_transition_function", "matern_transition_function", "pad_prior", "get_independently_factorized_prior")
    saved = {n: getattr(pn, n) for n in names}

    def make(name, real):
        def prior(*a, **k):
            b = inspect.signature(real).bind(*a, **k)
            b.apply_defaults()
            w = [jnp.asarray(v, dtype=float) for v in jax.tree_util.tree_leaves(tuple(b.arguments.values()))]
            return tuple(uf(name + p, *[v.reshape(-1)[0] for v in w]).reshape((1,) * n) for p, n in (("xi", 1), ("Q", 2), ("A", 2)))
        return prior

    for n in names:
        setattr(pn, n, make(n[:4], saved[n]))
    try:
        yield pn
    finally:
        for n, f in saved.items():
            setattr(pn, n, f)


def problem(x0, sig):
    """An arbitrary problem with additive noise per bundled problem name."""
    def make(name):
        f = vec_fun(f"{name}_f", x0.shape[0])
        return (x0, f, lambda x, t: sig, *[None] * (1 if name.endswith("ibm") else 2))
    return make


def driver(f, s, x0, key, delta, N, fine, ode):
    from bayesian_sde_solver.foster_polynomial import get_approx_fine
    from bayesian_sde_solver.ito_stratonovich import to_stratonovich
    from bayesian_sde_solver.sde_solver import sde_solver
    fs, ss = to_stratonovich(f, s)
    x = x0[0] if isinstance(x0, tuple) else x0
    bm = functools.partial(get_approx_fine, N=fine, dim=s(x, 0.0).shape[1])
    return sde_solver(key=key, drift=fs, sigma=ss, x0=x0, bm=bm, delta=delta, N=N, ode_int=ode)


def reference(f, s, x0, incs, delta, N, fine):
    """Euler-Maruyama over the whole fine path, read at the interval ends."""
    from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise as em
    return em(incs.reshape(N * fine, -1), x0, f, s, delta / fine, N * fine)[1][::fine]


def ibm_prior(dl, M, d, q=1):
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function as tf
    return tf(theta=0.0, sigma=1.0, dt=dl / M, q=q, dim=d)


def interval(solver, prior, M, **kw):
    return lambda key, init, vector_field, T: solver(key, init=init, vector_field=vector_field, h=T / M, N=M, prior=prior, **kw)


def setup(chk, rel, d, m, N, M, fine, real):
    h = Harness(chk, f"{rel.replace('/', '_')[:-3]}_N{N}_M{M}_fine{fine}{'_real' if real else ''}")
    return h, h.arr("x", d), h.arr("s", d, m), h.scalar("delta", lo=0.2, hi=0.8, pos=True)


def experiment(rel, key, x0, sig, args, over={}):
    with sc.problems(problem(x0, sig)):
        ns = sc.load(rel, JAX_KEY=key, **over)
    if "keys" in ns:
        ns["keys"] = jax.random.split(key, sc.SAMPLES)
    with sc.fewer_keys():
        return ns["experiment"](*args), jax.random.split(key, sc.SAMPLES), ns


def pathwise(chk, rel, name, which, d=2, m=1, N=3, M=2, fine=2, kw=None, real=False, incs=False, coarse=False, prior=True):
    """Method against fine Euler-Maruyama."""
    h, x0, sig, dl = setup(chk, rel, d, m, N, M, fine, real)
    tup = which.endswith("_2")

    def run(key, x0, sig, dl):
        from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise as em
        with stubbed(not real) as o:
            got, keys, _ = experiment(rel, key, x0, sig, (dl, N, fine) if coarse else (dl, N, M, fine))
            solver = getattr(o, which)
        f, s = vec_fun(f"{name}_f", d), lambda x, t: sig
        if which == "euler":
            ode = lambda key, init, vector_field, T: solver(init, vector_field, T / M, M)
        else:
            ode = interval(solver, ibm_prior(dl, M, d) if prior else None, M, **(dict(noise=None, sqrt=True) if kw is None else kw))
        start = (x0, x0, jnp.zeros((d, d))) if tup else x0
        out = []
        for i in range(sc.SAMPLES):
            _, sols, *co = driver(f, s, start, keys[i], dl, N, fine, ode)
            if coarse:
                sols = em(jnp.sum(co[2], axis=1), x0, f, s, dl, N)[1]
            out.append((sols[0] if tup else sols, reference(f, s, x0, co[2], dl, N, fine), co[2].reshape(N * fine, m)))
        return got, [jnp.stack(c) for c in zip(*out)]

    r = h.encode(f"experiment of scripts/{rel}", run, h.key(), x0, sig, dl)
    h.eq("method trajectories", r, lambda o: O(o[0][0]), lambda o: O(o[1][0]))
    h.eq("reference trajectories", r, lambda o: O(o[0][1]), lambda o: O(o[1][1]))
    if incs:
        h.eq("fine increments", r, lambda o: O(o[0][2]), lambda o: O(o[1][2]))
    chk.bound("every script's experiment() with 2 Monte-Carlo samples, 2-3 intervals of any length, 1-2 integrator steps and 2-3 fine "
              "steps per interval, arbitrary drift (state and time) and additive noise in place of the bundled problem, arbitrary "
              "interval integrator (and the real one on 1-2 intervals); driver loops and file names are outside, except the "
              "calibration loop")


def compare(chk, rel, d=2, m=1, N=2, M=1, fine=2, review=False):
    """Two priors against each other and the fine reference."""
    h, x0, sig, dl = setup(chk, rel, d, m, N, M, fine, False)

    def run(key, x0, sig, dl):
        with stub_priors() as pn, stubbed(True) as o:
            got, keys, ns = experiment(rel, key, x0, sig, (dl, N, M, fine))
            solver = o.ekf0
            f, s = vec_fun("fhn_f", d), lambda x, t: sig
            tf, mt, pad, fac = pn.IOUP_transition_function, pn.matern_transition_function, pn.pad_prior, pn.get_independently_factorized_prior
            if review:
                a = fac((tf(theta=1.0, sigma=1.0, dt=dl / M, q=2, dim=1), pad(tf(theta=1.0, sigma=1.0, dt=dl / M, q=1, dim=1), q=2)))
                b = fac((mt(k=2, magnitude=1.0, length=jnp.sqrt(5) / 3, dt=dl / M, dim=1),
                         pad(mt(k=1, magnitude=1.0, length=jnp.sqrt(3) / 2, dt=dl / M, dim=1, mc=True), q=2)))
            else:
                a = tf(theta=0.0, sigma=1.0, dt=dl / M, q=ns["order"], dim=d)
                b = mt(k=ns["order"], magnitude=1.0, length=1.0, dt=dl / M, dim=d)
            out = []
            for i in range(sc.SAMPLES):
                _, A, *co = driver(f, s, x0, keys[i], dl, N, fine, interval(solver, a, M))
                B = driver(f, s, x0, keys[i], dl, N, fine, interval(solver, b, M))[1]
                out.append((reference(f, s, x0, co[2], dl, N, fine), A, B))
        return got, [jnp.stack(c) for c in zip(*out)]

    r = h.encode(f"experiment of scripts/{rel}", run, h.key(), x0, sig, dl)
    for i, w in enumerate(("reference trajectories", "IBM/IOUP prior", "Matern prior")):
        h.eq(w, r, lambda o: O(o[0][i]), lambda o: O(o[1][i]))


def marginal(chk, rel, name, which, d=2, N=2, M=2):
    """Marginalised filter: each sample is the driver's run on its own key."""
    h, x0, sig, dl = setup(chk, rel, d, d, N, M, 2, False)

    def step(name):
        def solver(key, init, delta, drift, diffusion, h, N, sqrt=False, **kw):
            v = drift(init, h / 2) + diffusion(init, h / 3) @ jnp.arange(1.0, d + 1)
            y = jnp.stack([uf(f"{name}{N}{i}", *init, *v, h, delta) for i in range(d)])
            return y + jax.random.normal(key, shape=(d,)), y, jnp.outer(y, y)
        return solver

    def run(key, x0, sig, dl):
        from bayesian_sde_solver import ssm_parabola as p
        from bayesian_sde_solver.ito_stratonovich import to_stratonovich
        saved = {k: getattr(p, k) for k in ("ekf0_marginal_parabola", "ekf1_marginal_parabola")}
        try:
            for k in saved:
                setattr(p, k, step(k))
            got, keys, _ = experiment(rel, key, x0, sig, (dl, N, M, 2))
            solver = getattr(p, which)
        finally:
            for k, v in saved.items():
                setattr(p, k, v)
        f, s = to_stratonovich(vec_fun(f"{name}_f", d), lambda x, t: sig)
        go = lambda key, init, drift, diffusion, T: solver(key, init, delta=T, drift=drift, diffusion=diffusion, h=T / M, N=M)
        out = [p.ssm_parabola_ode_solver(key=keys[i], drift=f, sigma=s, x0=x0, delta=dl, N=N, solver=go)[1] for i in range(sc.SAMPLES)]
        return got, jax.tree_util.tree_map(lambda *a: jnp.stack(a), *out)

    r = h.encode(f"experiment of scripts/{rel}", run, h.key(), x0, sig, dl)
    h.eq("samples", r, lambda o: O(o[0]), lambda o: O(o[1][0] if isinstance(o[1], tuple) else o[1]))


def linear(chk, d=2, N=2, M=1, fine=2):
    """Closed form of the linear problem along the same path."""
    rel = "breaking_multidimensionnal.py"
    h, x0, dl = Harness(chk, f"breaking_multidimensionnal_N{N}_fine{fine}"), None, None
    x0, sig, dl = h.arr("x", d), h.arr("s", d, d), h.scalar("delta", lo=0.2, hi=0.8, pos=True)
    A = h.arr("A", d, d)

    def run(key, x0, sig, A, dl):
        import jax.scipy.linalg as jl
        with stubbed(True) as o:
            with sc.problems(lambda name: (x0, lambda x, t: A @ x, lambda x, t: sig)):
                ns = sc.load(rel, JAX_KEY=key)
                with sc.fewer_keys():
                    got = ns["experiment"](dl, N, M, fine, d)
            solver = o.ekf0
        keys = jax.random.split(key, sc.SAMPLES)
        ode = interval(solver, ibm_prior(dl, M, d), M)
        out = []
        for i in range(sc.SAMPLES):
            _, sols, *co = driver(lambda x, t: A @ x, lambda x, t: sig, x0, keys[i], dl, N, fine, ode)
            x, ref = x0, [x0]
            for k in range(N):
                x = jl.expm(A * dl) @ x + sum(jl.expm(A * (dl - j * dl / fine)) @ sig @ co[2][k, j] for j in range(fine))
                ref.append(x)
            out.append((sols, jnp.stack(ref)))
        return got, [jnp.stack(c) for c in zip(*out)]

    r = h.encode(f"experiment of scripts/{rel}", run, h.key(), x0, sig, A, dl)
    h.eq("method trajectories", r, lambda o: O(o[0][0]), lambda o: O(o[1][0]))
    h.eq("closed-form trajectories", r, lambda o: O(o[0][1]), lambda o: O(o[1][1]))


def local(chk, N=2, fine=2):
    """One interval: probabilistic step and fine Euler-Maruyama on one path."""
    rel = "local_order_experiment_from_scratch.py"
    h = Harness(chk, f"local_order_N{N}_fine{fine}")
    x0, sig, dl = h.arr("x", 1), h.arr("s", 1, 1), h.scalar("delta", lo=0.2, hi=0.8, pos=True)

    def run(key, x0, sig, dl):
        from bayesian_sde_solver.foster_polynomial import get_approx_fine
        f, s = vec_fun("f", 1), lambda x, t: sig
        with stubbed(True) as o:
            ns = sc.load(rel, JAX_KEY=key, init_x0=x0, drift=f, sigma=s, fine_N=fine)
            ns["parabolas"], ns["eval_parabola"] = get_approx_fine(N=fine, dim=1)
            with sc.fewer_keys():
                got = ns["experiment"](dl, N)
            solver = o.ekf0
        keys = jax.random.split(key, sc.SAMPLES)
        get, ev = get_approx_fine(N=fine, dim=1)
        out = []
        for i in range(sc.SAMPLES):
            co = get(jax.random.split(keys[i], 1)[0], dl)
            v = lambda x, t: f(x, t) + s(x, t) @ jax.jacfwd(lambda t: ev(t, dl, *co))(t)
            out.append((solver(None, x0, v, dl / N, N), reference(f, s, x0, co[2][None], dl, 1, fine)[-1]))
        return got, [jnp.stack(c) for c in zip(*out)]

    r = h.encode(f"experiment of scripts/{rel}", run, h.key(), x0, sig, dl)
    h.eq("method at the end of the interval", r, lambda o: O(o[0][0]), lambda o: O(o[1][0]))
    h.eq("reference at the end of the interval", r, lambda o: O(o[0][1]), lambda o: O(o[1][1]))


TABLE = {}


def reg(name, fn, *a, **k):
    TABLE[name] = lambda chk: fn(chk, *a, **k)
    globals()[name] = TABLE[name]


RAM, RAM2, SSM = (f"pathwise_convergence_experiment_{s}.py" for s in ("2_RAM", "2_RAM_2", "3_ssm"))
reg("ram", pathwise, RAM, "fhn", "ekf0")
reg("ram_real", pathwise, RAM, "fhn", "ekf0", N=2, M=1, real=True)
reg("ram0f", pathwise, f"EKF0_FHN/{RAM}", "fhn", "ekf0")
reg("ram0i", pathwise, f"EKF0_IBM/{RAM}", "ibm", "ekf0")
reg("ram1f", pathwise, f"EKF1_FHN/{RAM}", "fhn", "ekf1")
reg("ram1i", pathwise, f"EKF1_IBM/{RAM}", "ibm", "ekf1")
reg("emf", pathwise, f"EM_FHN/{RAM}", "fhn", "euler", coarse=True, fine=3)
reg("ram2", pathwise, RAM2, "fhn", "ekf0_2")
reg("ram2_real", pathwise, RAM2, "fhn", "ekf0_2", N=2, M=1, real=True)
reg("ram20f", pathwise, f"EKF0_FHN/{RAM2}", "fhn", "ekf0_2")
reg("ram20i", pathwise, f"EKF0_IBM/{RAM2}", "ibm", "ekf0_2")
reg("ram21f", pathwise, f"EKF1_FHN/{RAM2}", "fhn", "ekf1_2", fine=3)
reg("ram21i", pathwise, f"EKF1_IBM/{RAM2}", "ibm", "ekf1_2")
reg("stored", pathwise, "pathwise_convergence_experiment_2.py", "ibm", "ekf0", kw={}, incs=True, fine=3)
reg("strong", pathwise, "strong_convergence_parabola_ode.py", "fhn", "euler")
reg("cmp", compare, "EKF0_Mat_vs_IBM_FHN/comparison_2_RAM.py")
reg("cmpr", compare, "EKF0_Mat_vs_IBM_FHN/comparison_2_RAM_setup_in_the_response_to_the_reviewer.py", review=True)
reg("ssm", marginal, SSM, "square_matrix_fhn", "ekf0_marginal_parabola")
reg("ssm0f", marginal, f"EKF0_FHN/{SSM}", "square_matrix_fhn", "ekf0_marginal_parabola")
reg("ssm0i", marginal, f"EKF0_IBM/{SSM}", "square_matrix_ibm", "ekf0_marginal_parabola")
reg("ssm1f", marginal, f"EKF1_FHN/{SSM}", "square_matrix_fhn", "ekf1_marginal_parabola")
reg("ssm1i", marginal, f"EKF1_IBM/{SSM}", "square_matrix_ibm", "ekf1_marginal_parabola")
reg("lin", linear)
reg("loc", local)
HARNESSES = list(TABLE)
