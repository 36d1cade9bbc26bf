"""Uninterpreted smooth functions as a JAX primitive.

`UF(name, n)` builds a callable usable inside any traced JAX code.  Tracing the real
code with it yields a jaxpr that is generic in the function: the symbolic interpreter
treats every application (and every partial derivative) as an uninterpreted symbol.
For replay the same primitive lowers to a concrete smooth "shadow" function, so the very
same harness runs as ordinary compiled JAX code.
"""
import math
import random

import jax
import jax.numpy as jnp
import numpy as np
from jax import core
from jax.interpreters import ad, batching, mlir

uf_p = core.Primitive("uf")

_COEF = {}
SEED = [1]


def coef(name, n):
    m = MILD[0]
    key = (name, n, SEED[0], m)
    if key not in _COEF:
        r = random.Random(f"uf:{name}:{n}:{SEED[0]}")
        _COEF[key] = dict(
            a=r.uniform(0.4, 0.9) * r.choice([-1, 1]),
            b=[m * r.uniform(-0.7, 0.7) for _ in range(n)],
            v=[m * m * r.uniform(-0.5, 0.5) for _ in range(n)],
            c=r.uniform(0.3, 0.8),
            w=[r.uniform(0.3, 1.1) * r.choice([-1, 1]) for _ in range(n)],
            p=r.uniform(0, 6))
    return _COEF[key]


MILD = [1.0]        # < 1: slowly growing stand-ins, for long recursions
OFFSETS = {}        # (name, deriv) -> shift; for replaying a solver's choice of an uninterpreted function's value


def shadow(xp, name, deriv, args):
    out = _shadow(xp, name, deriv, args)
    off = OFFSETS.get((name, tuple(deriv)))
    return out if off is None else out + off


def _shadow(xp, name, deriv, args):
    """a + b.x + (v.x)^2 + c sin(w.x + p), differentiated `deriv` times, in closed form."""
    n = len(args)
    k = coef(name, n)
    order = sum(deriv)
    arg = k["p"]
    for w, x in zip(k["w"], args):
        arg = arg + w * x
    amp = k["c"]
    for w, d in zip(k["w"], deriv):
        amp = amp * w ** d
    out = amp * xp.sin(arg + order * math.pi / 2)
    if order == 0:
        lin = k["a"]
        q = 0.0
        for b, v, x in zip(k["b"], k["v"], args):
            lin = lin + b * x
            q = q + v * x
        out = out + lin + q * q
    elif order == 1:
        j = deriv.index(1)
        q = 0.0
        for v, x in zip(k["v"], args):
            q = q + v * x
        out = out + k["b"][j] + 2 * k["v"][j] * q
    elif order == 2:
        js = [i for i, d in enumerate(deriv) for _ in range(d)]
        out = out + 2 * k["v"][js[0]] * k["v"][js[1]]
    return out


def _impl(*args, name, deriv):
    args = [jnp.asarray(a) for a in args]
    return shadow(jnp, name, deriv, args)


def _abstract(*avals, name, deriv):
    a = avals[0]
    for b in avals:
        assert b.shape == a.shape, (a, b)
    return core.ShapedArray(a.shape, a.dtype)


def _jvp(primals, tangents, *, name, deriv):
    out = uf_p.bind(*primals, name=name, deriv=deriv)
    tan = None
    for j, t in enumerate(tangents):
        if type(t) is ad.Zero:
            continue
        d = tuple(x + (1 if i == j else 0) for i, x in enumerate(deriv))
        term = uf_p.bind(*primals, name=name, deriv=d) * t
        tan = term if tan is None else tan + term
    if tan is None:
        tan = ad.Zero.from_value(out)
    return out, tan


def _batch(args, dims, *, name, deriv):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
    full = [batching.bdim_at_front(a, d, size) for a, d in zip(args, dims)]
    return uf_p.bind(*full, name=name, deriv=deriv), 0


uf_p.def_impl(_impl)
uf_p.def_abstract_eval(_abstract)
ad.primitive_jvps[uf_p] = _jvp
batching.primitive_batchers[uf_p] = _batch
mlir.register_lowering(uf_p, mlir.lower_fun(_impl, multiple_results=False))


def uf(name, *scalars):
    dt = jnp.result_type(*[jnp.asarray(s).dtype for s in scalars], jnp.float32)
    ss = [jnp.asarray(s, dt) for s in scalars]
    return uf_p.bind(*ss, name=name, deriv=(0,) * len(ss))


def vec_fun(name, d, out=None, time=True, deps=None):
    """x in R^d (and t) -> R^out; component i depends on the x-indices deps[i] (default all)."""
    out = d if out is None else out

    def f(x, *t):
        comps = []
        for i in range(out):
            idx = range(d) if deps is None else deps[i]
            a = [x[j] for j in idx] + ([t[0]] if (time and t) else [])
            comps.append(uf(f"{name}{i}", *a))
        return jnp.stack(comps)

    return f


def mat_fun(name, d, m, out=None, time=True, mask=None, deps=None):
    out = d if out is None else out

    def f(x, *t):
        rows = []
        for i in range(out):
            row = []
            for j in range(m):
                if mask is not None and not mask[i][j]:
                    row.append(jnp.zeros((), jnp.result_type(x)))
                    continue
                idx = range(d) if deps is None else deps[i]
                a = [x[k] for k in idx] + ([t[0]] if (time and t) else [])
                row.append(uf(f"{name}{i}{j}", *a))
            rows.append(jnp.stack(row))
        return jnp.stack(rows)

    return f
