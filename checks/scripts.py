"""Loading an experiment script of the repository with its driver loop left out and its problem made arbitrary."""
import ast
import contextlib
import os
import sys
import types

from symjax.harness import *
from symjax.uf import uf, vec_fun

SAMPLES = 2         # bound: number of Monte-Carlo replicas; the scripts ask for up to 100 000


def source(rel):
    root = os.environ.get("VERIF_REPO", "/repo")
    with open(os.path.join(root, "scripts", rel)) as f:
        return f.read(), os.path.join(root, "scripts", rel)


@contextlib.contextmanager
def fewer_keys():
    """`jax.random.split(key, n)` for a Monte-Carlo sample size n yields SAMPLES keys."""
    old = jax.random.split

    def split(key, num=2):
        return old(key, SAMPLES if isinstance(num, int) and num >= 10 else num)

    jax.random.split = split
    try:
        yield
    finally:
        jax.random.split = old


@contextlib.contextmanager
def problems(make):
    """The bundled problems replaced by arbitrary ones; make(name) gives the problem tuple."""
    from bayesian_sde_solver.utils import ivp
    import bayesian_sde_solver.utils as u
    saved = []
    for mod in (ivp, u):
        for name in ("fhn", "ibm", "double_ibm", "square_matrix_fhn", "square_matrix_ibm", "gbm", "random_linear_sde"):
            if hasattr(mod, name):
                saved.append((mod, name, getattr(mod, name)))
                setattr(mod, name, (lambda n: lambda *a, **k: make(n))(name))
    try:
        yield
    finally:
        for mod, name, f in saved:
            setattr(mod, name, f)


def load(rel, drop=True, **override):
    """Globals of the script after its definitions (top-level loops and bare expressions left out unless drop=False)."""
    src, path = source(rel)
    tree = ast.parse(src)
    skip = (ast.For, ast.While, ast.With) if drop else ()
    tree.body = [s for s in tree.body if not isinstance(s, skip + (ast.Expr,))]
    mpl = {m: types.ModuleType(m) for m in ("matplotlib", "matplotlib.pyplot") if m not in sys.modules}
    mpl and setattr(mpl["matplotlib"], "pyplot", mpl["matplotlib.pyplot"])
    sys.modules.update(mpl)
    ns = {"__name__": "script"}
    try:
        exec(compile(tree, path, "exec"), ns)
    finally:
        for m in mpl:
            del sys.modules[m]
    ns.update(override)
    return ns
