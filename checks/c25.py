"""C25 the progress bar is transparent and complete."""
import sys

from symjax.harness import *
from symjax.interp import Interp, IntTerm, ZCond
from symjax.uf import uf, vec_fun, mat_fun


class Bar:
    """Recording stand-in for tqdm."""
    log = []

    def __init__(self, *a, **k):
        Bar.log.append(("create", 0))

    def __getattr__(self, name):
        return lambda *a, **k: self

    def update(self, n=1):
        Bar.log.append(("update", int(n)))

    def close(self):
        Bar.log.append(("close", 0))


def patch():
    import tqdm
    import tqdm.auto
    import bayesian_sde_solver.utils.progress_bar
    import bayesian_sde_solver.sde_solver
    import bayesian_sde_solver.ssm_parabola
    real = {tqdm.tqdm, tqdm.auto.tqdm}
    for name, m in list(sys.modules.items()):
        if name.startswith("bayesian_sde_solver") or name in ("tqdm", "tqdm.auto"):
            for k, v in list(vars(m).items()):
                if isinstance(v, type) and v in real:
                    setattr(m, k, Bar)
    from bayesian_sde_solver.utils.progress_bar import progress_bar
    return progress_bar


def effects(ev, ints):
    """Run one recorded host callback on the recording bar."""
    p, ins, _ = ev
    args = [np.asarray(a) if a.dtype != object else np.asarray([ints(x) for x in a.reshape(-1)]).reshape(a.shape) for a in ins]
    cb = p["callback"]
    Bar.log = []
    try:
        if "arg_treedef" in p:                                   # host_callback (id_tap / call)
            cb(jax.tree_util.tree_unflatten(p["arg_treedef"], args), None, ())
        else:                                                    # jax.debug.callback / io_callback
            cb(*args)
    except Exception:
        Bar.log.append(("error", 0))
    return list(Bar.log)


def totals(chk, N, style):
    """Trace the decorated body at a symbolic iteration index; z3 decides when each host effect fires."""
    pb = patch()
    h = Harness(chk, f"totals_N{N}_{style}")
    deco = pb(num_samples=N, message="x") if style != "default" else pb(num_samples=N)

    if style == "tuple":
        fn = lambda c, i: deco(lambda c, x: (c + 1.0, c))(c, (i, c, c))
    else:
        fn = lambda c, i: deco(lambda c, x: (c + 1.0, c))(c, i)
    closed = jax.make_jaxpr(fn)(jax.ShapeDtypeStruct((), jnp.float64), jax.ShapeDtypeStruct((), jnp.int32))
    it = Interp(h.ctx)
    iz = z3.Int("i")
    c0 = h.scalar("c")
    ci = np.empty((), dtype=object)
    ci[()] = IntTerm(iz)
    out = it.run(closed, [c0, ci])
    rec = Rec(h, "progress_bar body", fn, (c0, ci), out, count_eqns(closed.jaxpr))
    chk.note_encoding("progress_bar body", rec, it, ())
    # the carried state and output are the body's own
    ok = not (out[0].item() - c0.item() - 1).t and not (out[1].item() - c0.item()).t
    report(chk, h, f"results passed through unchanged", ok, lambda: real_run(pb, N, style)[1])

    def guard(pc):
        zs = [z3.BoolVal(bool(c)) if isinstance(c, (bool, np.bool_)) else c.z for c in pc]
        return z3.And(*zs) if zs else z3.BoolVal(True)

    def at(k):
        def g(x):
            z = x.z if isinstance(x, IntTerm) else x
            return int(z3.simplify(z3.substitute(z, (iz, z3.IntVal(k)))).as_long()) if isinstance(z, z3.ExprRef) else int(z)
        return g

    dom = z3.And(iz >= 0, iz < N)
    timeline = []           # (iteration, effect, amount) for the iterations on which the solver says an effect can fire
    for e in it.events:
        g = guard(e[2])
        s = chk.solver()
        s.add(dom, g)
        if chk.timed_check(s) == z3.unsat:
            continue
        sample = effects(e, at(0))
        symbolic = any(a.dtype == object for a in e[1])
        for k in range(N):
            if z3.is_true(z3.simplify(z3.substitute(g, (iz, z3.IntVal(k))))):
                timeline += [(k, w, n) for w, n in (effects(e, at(k)) if symbolic else sample)]
        # the solver confirms that the guard fires exactly on these iterations
        fire = sorted({k for k in range(N) if z3.is_true(z3.simplify(z3.substitute(g, (iz, z3.IntVal(k)))))})
        s = chk.solver()
        step = fire[1] - fire[0] if len(fire) > 1 else 1
        if fire == list(range(fire[0], fire[-1] + 1, step)):
            setz = z3.And(iz >= fire[0], iz <= fire[-1], (iz - fire[0]) % step == 0)
            s.add(dom, g != setz)
            if chk.timed_check(s) != z3.unsat:
                chk.inconclusive.append(f"{h.name}: firing set of a host effect not confirmed")
    timeline.sort(key=lambda t: t[0])
    creates = [k for k, w, _ in timeline if w == "create"]
    closes = [k for k, w, _ in timeline if w == "close"]
    ups = [(k, n) for k, w, n in timeline if w == "update"]
    report(chk, h, "bar created exactly once", len(creates) == 1, lambda: [w for w, _ in real_run(pb, N, style)[0]].count("create") == 1)
    report(chk, h, "bar closed exactly once", len(closes) == 1, lambda: [w for w, _ in real_run(pb, N, style)[0]].count("close") == 1)
    report(chk, h, "updates add up to the number of iterations", sum(n for _, n in ups) == N,
           lambda: sum(n for w, n in real_run(pb, N, style)[0] if w == "update") == N)
    report(chk, h, "no update before creation or after closing",
           bool(creates) and bool(closes) and all(creates[0] <= k <= closes[0] for k, n in ups if n), lambda: order(real_run(pb, N, style)[0]))
    report(chk, h, "host effects do not raise", all(w != "error" for _, w, _ in timeline), lambda: bool(real_run(pb, N, style)))
    report(chk, h, "progress never runs backwards", all(n >= 0 for _, n in ups), lambda: all(n >= 0 for w, n in real_run(pb, N, style)[0] if w == "update"))
    chk.bound("iteration index symbolic; number of iterations N in {1, 2, 3, 10, 100, 999, 1000, 1001, 1999, 2000, 2001, 2500, 2999, 3001} "
              "(thorough adds 12345, 20011); body arbitrary for the pass-through, drivers with N <= 3")


def order(log):
    try:
        a, b = [w for w, _ in log].index("create"), [w for w, _ in log].index("close")
    except ValueError:
        return False
    return all(a < k < b for k, (w, n) in enumerate(log) if w == "update" and n)


def real_run(pb, N, style):
    """The real decorated scan, executed with the recording bar."""
    from jax.experimental import host_callback
    Bar.log = []
    body = pb(num_samples=N, message="x")(lambda c, x: (c + 1.0, c))
    xs = (jnp.arange(N), jnp.arange(N) * 1.0) if style == "tuple" else jnp.arange(N)
    c, ys = jax.lax.scan(body, 0.0, xs)
    jax.block_until_ready(c)
    try:
        host_callback.barrier_wait()
    except Exception:
        pass
    jax.effects_barrier()
    return list(Bar.log), float(c) == N and np.array_equal(np.asarray(ys), np.arange(N))


def report(chk, h, name, ok, replay):
    chk.obligations += 1
    full = f"{h.name}/{name}"
    if ok:
        chk.discharged += 1
        return
    try:
        held = replay()
    except Exception:
        held = False
    if held:
        chk.inconclusive.append(f"{full}: not reproduced on the real code")
        return
    chk.violations.append((full, {"property": chk.pid, "obligation": full, "kind": "host effects"}))


def transparent(chk, N):
    """The decorated scan over an arbitrary body equals the plain scan."""
    pb = patch()
    h = Harness(chk, f"transparent_N{N}")
    x0, xs = h.arr("x", 2), h.arr("u", N, 2)

    def body(c, inp):
        i, u = inp
        y = jnp.stack([uf(f"B{k}", c[0], c[1], u[0], u[1]) for k in range(2)]) + i
        return y, (y * 2.0, c)

    def run(x, u):
        a = jax.lax.scan(pb(num_samples=N, message="m")(body), x, (jnp.arange(N), u))
        b = jax.lax.scan(body, x, (jnp.arange(N), u))
        return a, b

    r = h.encode("decorated scan vs plain scan", run, x0, xs)
    h.eq("final state", r, lambda o: O(o[0][0]), lambda o: O(o[1][0]))
    h.eq("stacked outputs", r, lambda o: O(o[0][1][0]), lambda o: O(o[1][1][0]))
    h.eq("stacked states", r, lambda o: O(o[0][1][1]), lambda o: O(o[1][1][1]))


def drivers(chk, which):
    """Both drivers really run N intervals: the bar of a run of N intervals completes, whatever N."""
    pb = patch()
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.ssm_parabola import ssm_parabola_ode_solver
    from bayesian_sde_solver.foster_polynomial import get_approx
    h = Harness(chk, f"driver_{which}")
    for N in (1, 2, 3):
        if which == "foster":
            run = lambda key, x, d: sde_solver(key, lambda x, t: x, lambda x, t: jnp.ones((1, 1)), x, get_approx, d, N,
                                               lambda key, init, vector_field, T: init + T * vector_field(init, 0.0))[1]
        else:
            run = lambda key, x, d: ssm_parabola_ode_solver(key, lambda x, t: x, lambda x, t: jnp.ones((1, 1)), x, d, N,
                                                            lambda key, init, drift, diffusion, T: (init + T * drift(init, 0.0), T))[1]
        r = h.encode(f"{which} driver", run, h.key(), h.arr("x", 1), h.scalar("d", pos=True))
        log = []
        for e in r.interp.events:
            if all(c is True or (isinstance(c, (bool, np.bool_)) and c) for c in e[2]):
                log += effects(e, int)
        good = lambda log: (sum(n for w, n in log if w == "update") == N and [w for w, _ in log].count("create") == 1
                            and [w for w, _ in log].count("close") == 1 and order(log))

        def replay():
            from jax.experimental import host_callback
            Bar.log = []
            jax.block_until_ready(run(jax.random.PRNGKey(0), jnp.ones(1), 0.1))
            host_callback.barrier_wait()
            jax.effects_barrier()
            return good(list(Bar.log))

        report(chk, h, f"N={N}: one bar, N updates, closed", good(log), replay)


NS = [1, 2, 3, 10, 100, 999, 1000, 1001, 1999, 2000, 2001, 2500, 2999, 3001]
HARNESSES = []


def _mk(N, style, thorough=False):
    def f(chk):
        totals(chk, N, style)
    f.thorough = thorough
    n = f"n{N}_{style}"
    globals()[n] = f
    HARNESSES.append(n)


for _n in NS:
    _mk(_n, "tuple")
_mk(7, "bare")
_mk(2001, "bare")
_mk(5, "default")
_mk(12345, "tuple", True)
_mk(20011, "tuple", True)
def t1(chk): transparent(chk, 1)
def t2(chk): transparent(chk, 2)
def t3(chk): transparent(chk, 3)
def df(chk): drivers(chk, "foster")
def ds(chk): drivers(chk, "ssm")
HARNESSES += ["t1", "t2", "t3", "df", "ds"]
