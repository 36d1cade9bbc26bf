"""Obligations, SMT discharge, replay on the real code, evidence."""
from fractions import Fraction
import itertools
import json
import math
import os
import sys
import time
import traceback

import jax
import jax.numpy as jnp
import numpy as np
import z3

from . import alg
from .alg import Cond, Ctx, Point, Unsupported, Value, c_and, c_not, c_or, _mmul
from .interp import Interp, KeyElem, KeyTerm, oarr, key_data, ZCond, IntTerm

RTOL = 2e-7
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
QTO = 240_000 if THOROUGH else 60_000


class Inconclusive(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, detail):
        self.what, self.detail = what, detail


# ---------------------------------------------------------------- helpers on arrays of Values / floats
def _any_ctx(*arrs):
    for a in arrs:
        for x in np.asarray(a, dtype=object).reshape(-1):
            if isinstance(x, Value):
                return x.ctx
    return None


def kron(A, B):
    A, B = np.asarray(A), np.asarray(B)
    out = np.empty((A.shape[0] * B.shape[0], A.shape[1] * B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(A.shape[1]):
            for k in range(B.shape[0]):
                for l in range(B.shape[1]):
                    out[i * B.shape[0] + k, j * B.shape[1] + l] = A[i, j] * B[k, l]
    return out


def block(rows):
    return np.concatenate([np.concatenate(r, axis=1) for r in rows], axis=0)


WARM = bool(os.environ.get("VERIF_WARM"))


def inv_sym(A):
    """Matrix inverse by adjugate (works on Values and floats)."""
    n = A.shape[0]
    if n == 1:
        return np.array([[1 / A[0, 0]]], dtype=object)
    d = det(A)
    di = 1 / d
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            M = np.delete(np.delete(A, j, 0), i, 1)
            out[i, j] = det(M) * ((-1) ** (i + j)) * di
    return out


def det(A):
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    s = 0
    for j in range(n):
        M = np.delete(np.delete(A, 0, 0), j, 1)
        s = s + A[0, j] * det(M) * ((-1) ** j)
    return s


def eye(n):
    return np.array([[1 if i == j else 0 for j in range(n)] for i in range(n)], dtype=object)


def zeros(*shape):
    a = np.empty(shape, dtype=object)
    a.fill(0)
    return a


def vec(*xs):
    a = np.empty((len(xs),), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def tomat(rows):
    return np.array(rows, dtype=object)


# ---------------------------------------------------------------- records
class Rec:
    """One encoded call of real code: function, symbolic arguments, symbolic outputs."""

    def __init__(self, h, label, fn, args, out, neqn):
        self.h, self.label, self.fn, self.args, self.out, self.neqn = h, label, fn, args, out, neqn
        self._jit = None
        self._cache = {}
        self.interp = None

    def nargs(self, pt):
        def leaf(a):
            a0 = a.reshape(-1)
            if a.size and isinstance(a0[0], KeyElem):
                k = np.stack([np.asarray(key_data(pt, x.k))[x.j] for x in a0]).reshape(a.shape)
                return jnp.asarray(k.astype(np.uint32))
            return jnp.asarray(np.array([_f(x.num(pt)) for x in a0], dtype=np.float64).reshape(a.shape))
        return jax.tree_util.tree_map(leaf, self.args)

    def real(self, pt):
        """The real code, compiled and run at this point."""
        if pt not in self._cache:
            if getattr(pt, "offsets", None):
                jax.clear_caches()
                fn = self.fn
                out = (jax.jit(lambda *a: fn(*a)) if self.h.jit else fn)(*self.nargs(pt))
                self._cache[pt] = jax.tree_util.tree_map(lambda x: np.asarray(x), out)
                return self._cache[pt]
            if self._jit is None:
                self._jit = jax.jit(self.fn) if self.h.jit else self.fn
            out = self._jit(*self.nargs(pt))
            self._cache[pt] = jax.tree_util.tree_map(lambda x: np.asarray(x), out)
        return self._cache[pt]


def _f(x):
    if isinstance(x, complex):
        return float("nan")
    if isinstance(x, Value):
        return float(x.const_value()) if x.is_const() else float("nan")
    return float(x)


LITERAL = {}        # scalar argument name -> Python number given to the code instead of a symbolic scalar


def at_literals(glob, names, params, values):
    """Variants of harness functions in which the named scalars are plain Python numbers (ints included), as a user writes them."""
    out = []
    for n in names:
        for v in values:
            def fn(chk, f=glob[n]):
                f(chk)
            fn.__name__ = f"{n}_at{v}"
            fn.literal = {p: v for p in params}
            glob[fn.__name__] = fn
            out.append(fn.__name__)
    return out


class Harness:
    def __init__(self, check, name, jit=True):
        self.literals = []
        name += "".join(f"_{k}={v!r}" for k, v in LITERAL.items())
        self.check = check
        self.name = name
        self.jit = jit
        self.ctx = Ctx()
        self.ctx.points = [Point(self.ctx, 1000 * SEED + k) for k in range(4)]
        self.recs = []
        self.assumes = []
        self.assume_desc = []
        check.harnesses.append(self)

    # ---- inputs
    def arr(self, name, *shape, pos=False, lo=None, hi=None):
        n = int(np.prod(shape, dtype=int))
        if shape == ():
            return oarr((), [self.ctx.var(name, pos, lo, hi)])
        names = ["".join(map(str, idx)) for idx in np.ndindex(*shape)]
        return oarr(shape, [self.ctx.var(f"{name}{s}", pos, lo, hi) for s in names])

    def scalar(self, name, pos=False, lo=None, hi=None):
        if name in LITERAL:
            a = oarr((), [self.ctx.const(Fraction(LITERAL[name]))])
            self.literals.append((a, LITERAL[name]))
            return a
        return self.arr(name, pos=pos, lo=lo, hi=hi)

    def ltri(self, name, n, posdiag=False):
        """Arbitrary lower-triangular matrix (so L L^T ranges over all PSD matrices)."""
        return oarr((n, n), [self.ctx.var(f"{name}{i}{j}", posdiag and i == j) if j <= i else self.ctx.zero
                             for i in range(n) for j in range(n)])

    def const(self, a):
        a = np.asarray(a)
        return oarr(a.shape, [self.ctx.const(Fraction(x).limit_denominator(10 ** 9)) if not isinstance(x, Value) else x
                              for x in a.reshape(-1).tolist()])

    def key(self, name="key"):
        k = KeyTerm(("root", name))
        return oarr((2,), [KeyElem(k, 0), KeyElem(k, 1)])

    def V(self, x):
        return self.ctx.const(x)

    def lift(self, a):
        """numbers -> Values, elementwise."""
        a = np.asarray(a, dtype=object)
        return oarr(a.shape, [x if isinstance(x, Value) else self.ctx.const(Fraction(x)) for x in a.reshape(-1)])

    def uf(self, name, *args, deriv=None):
        from .uf import shadow
        deriv = tuple(deriv) if deriv is not None else (0,) * len(args)
        if args and not any(isinstance(a, Value) for a in args) and any(isinstance(a, (float, np.floating)) for a in args):
            return float(shadow(np, name, deriv, [float(a) for a in args]))
        args = [a if isinstance(a, Value) else self.ctx.const(a) for a in args]
        dn = "".join(map(str, deriv)) if any(deriv) else ""
        sh = lambda *xs: float(shadow(np, name, deriv, xs))
        return self.ctx.uf(("uf", name, deriv), args, name + ("_" + dn if dn else ""), data=sh)

    def assume(self, cond, desc):
        self.assumes.append(cond)
        self.assume_desc.append(desc)

    # ---- encoding
    def close_over(self, fn, args):
        leaves, tree = jax.tree_util.tree_flatten(args)
        num = [next((v for b, v in self.literals if b is a), None) for a in leaves]

        def call(*dyn):
            it = iter(dyn)
            out = fn(*jax.tree_util.tree_unflatten(tree, [next(it) if v is None else v for v in num]))
            return jax.tree_util.tree_map(lambda x: float(x) if isinstance(x, int) else x, out)

        return call, tuple(a for a, v in zip(leaves, num) if v is None)

    def encode(self, label, fn, *args, funcs=(), dce=False):
        if self.literals:
            fn, args = self.close_over(fn, args)
        args = jax.tree_util.tree_map(lambda a: a if isinstance(a, np.ndarray) else np.asarray(a, dtype=object), args)

        def sds(a):
            if a.size and isinstance(a.reshape(-1)[0], KeyElem):
                return jax.ShapeDtypeStruct(a.shape, jnp.uint32)
            return jax.ShapeDtypeStruct(a.shape, jnp.float64)

        structs = jax.tree_util.tree_map(sds, args)
        rec = Rec(self, label, fn, args, None, 0)
        if WARM:
            fn(*rec.nargs(self.ctx.points[3]))
        try:
            closed, oshape = jax.make_jaxpr(fn, return_shape=True)(*structs)
        except Exception as e:
            tb = traceback.format_exc()
            pt = self.ctx.points[0]
            try:
                fn(*rec.nargs(pt))
            except Exception as e2:
                raise Violation(f"{self.name}/{label}: the call raises {type(e2).__name__}: {str(e2)[:300]}",
                                {"harness": self.name, "call": label, "error": traceback.format_exc()[-3000:],
                                 "args": _dump(rec.nargs(pt)), "kind": "raises"})
            raise Inconclusive(f"{self.name}/{label}: cannot be traced symbolically: {type(e).__name__}: {str(e)[:300]}\n{tb[-1500:]}")
        if dce:         # dead code cannot be observed
            from jax.interpreters import partial_eval as pe
            j, _ = pe.dce_jaxpr(closed.jaxpr, [True] * len(closed.jaxpr.outvars), instantiate=True)
            closed = closed.replace(jaxpr=j)
        it = Interp(self.ctx)
        leaves, tree = jax.tree_util.tree_flatten(args)
        out = it.run(closed, leaves)
        oleaves, otree = jax.tree_util.tree_flatten(oshape)
        rec.out = jax.tree_util.tree_unflatten(otree, out)
        rec.interp = it
        rec.neqn = count_eqns(closed.jaxpr)
        rec.closed = closed
        self.recs.append(rec)
        self.check.note_encoding(label, rec, it, funcs)
        self.validate(rec)
        return rec

    def points(self, n=2):
        return self.ctx.points[:n]

    def validate(self, rec):
        """Encoder validation: the encoding, evaluated numerically, equals the real run."""
        bad = None
        for pt in self.points(2):
            sym = [np.asarray(o) for o in jax.tree_util.tree_leaves(rec.out) if o is not None]
            real = jax.tree_util.tree_leaves(rec.real(pt))
            for s, r in zip(sym, real):
                if s.dtype != object:
                    if not np.array_equal(s, np.asarray(r)):
                        bad = f"{rec.label}: integer output differs"
                    continue
                flat = s.reshape(-1)
                if flat.size and isinstance(flat[0], KeyElem):
                    continue
                for i, x in enumerate(flat):
                    if not isinstance(x, Value):
                        continue
                    v, sc = x.num_scaled(pt)
                    rv = np.asarray(r).reshape(-1)[i]
                    if v is None or isinstance(v, complex) and abs(v.imag) > 1e-9:
                        v = float("nan")
                        sc = 1
                    v = float(np.real(v))
                    if math.isnan(v) and (math.isnan(rv) or math.isinf(rv)):
                        continue
                    if not abs(v - rv) <= 1e-6 * (1 + abs(v) + min(sc, 1e3)):
                        bad = f"{rec.label}[{i}]: encoding {v!r} vs real run {rv!r} at {pt.seed}"
                self.check.validated += 1
        if bad:
            self.check.mismatches.append(f"{self.name}/{bad}")

    # ---- obligations
    def eq(self, name, recs, lhs, rhs, assume=()):
        """Obligation: lhs(outputs) == rhs for every input.  lhs/rhs: functions of the records'
        outputs, usable on symbolic and on float arrays; rhs may also be an array of Values."""
        if isinstance(recs, Rec):
            recs = [recs]
        L = np.asarray(lhs(*[r.out for r in recs]), dtype=object)
        Rr = np.asarray(rhs(*[r.out for r in recs]) if callable(rhs) else rhs, dtype=object)
        L, Rr = self.lift(L), self.lift(Rr)
        if L.shape != Rr.shape:
            raise Violation(f"{self.name}/{name}: result has shape {L.shape}, expected {Rr.shape}",
                            {"harness": self.name, "obligation": name, "shape": list(L.shape), "expected": list(Rr.shape),
                             "kind": "shape"})

        def replay(pt):
            real = np.asarray(lhs(*[r.real(pt) for r in recs]), dtype=object)
            if callable(rhs):
                exp = np.asarray(rhs(*[r.real(pt) for r in recs]), dtype=object)
            else:
                exp = oarr(Rr.shape, [_f(x.num(pt)) for x in Rr.reshape(-1)])
            return real, exp, [r.nargs(pt) for r in recs]

        self.check.discharge(self, name, L, Rr, list(assume), replay)

    def ge0(self, name, recs, lhs, assume=()):
        """Obligation: every entry of lhs(outputs) is >= 0."""
        if isinstance(recs, Rec):
            recs = [recs]
        L = self.lift(np.asarray(lhs(*[r.out for r in recs]), dtype=object))

        def replay(pt):
            real = np.asarray(lhs(*[r.real(pt) for r in recs]), dtype=object)
            return real, None, [r.nargs(pt) for r in recs]

        self.check.discharge(self, name, L, None, list(assume), replay)

    def law(self, rec, pick, name="law"):
        return Law(self, rec, pick)

    # ---- convenience
    def uf_vec(self, name, x, t=None, out=None, deps=None, deriv_x=None):
        d = len(x)
        out = d if out is None else out
        r = np.empty((out,), dtype=object)
        for i in range(out):
            idx = range(d) if deps is None else deps[i]
            r[i] = self.uf(f"{name}{i}", *([x[j] for j in idx] + ([t] if t is not None else [])))
        return r

    def uf_jac(self, name, x, t=None, out=None, deps=None):
        """matrix of partial derivatives d name_i / d x_j."""
        d = len(x)
        out = d if out is None else out
        r = np.empty((out, d), dtype=object)
        for i in range(out):
            idx = list(range(d)) if deps is None else list(deps[i])
            for j in range(d):
                if j not in idx:
                    r[i, j] = self.ctx.zero
                    continue
                a = [x[k] for k in idx] + ([t] if t is not None else [])
                r[i, j] = self.uf(f"{name}{i}", *a, deriv=[1 if k == j else 0 for k in idx] + ([0] if t is not None else []))
        return r

    def uf_dt(self, name, x, t, out=None):
        d = len(x)
        out = d if out is None else out
        return vec(*[self.uf(f"{name}{i}", *list(x), t, deriv=[0] * d + [1]) for i in range(out)])

    def uf_mat(self, name, x, t, m, out=None, mask=None, deps=None, deriv=None):
        d = len(x)
        out = d if out is None else out
        r = np.empty((out, m), dtype=object)
        for i in range(out):
            for j in range(m):
                if mask is not None and not mask[i][j]:
                    r[i, j] = self.ctx.zero
                    continue
                idx = list(range(d)) if deps is None else list(deps[i])
                a = [x[k] for k in idx] + ([t] if t is not None else [])
                dv = None
                if deriv is not None:
                    if any(deriv[k] and k not in idx for k in range(d)):
                        r[i, j] = self.ctx.zero
                        continue
                    dv = [deriv[k] for k in idx] + ([deriv[d]] if t is not None else [])
                r[i, j] = self.uf(f"{name}{i}{j}", *a, deriv=dv)
        return r


def count_eqns(j):
    n = 0
    for e in j.eqns:
        n += 1
        for p in e.params.values():
            for q in (p if isinstance(p, (tuple, list)) else [p]):
                if hasattr(q, "jaxpr") and hasattr(q.jaxpr, "eqns"):
                    n += count_eqns(q.jaxpr)
                elif hasattr(q, "eqns"):
                    n += count_eqns(q)
    return n


def _dump(x):
    return jax.tree_util.tree_map(lambda a: np.asarray(a).tolist(), x)


# ---------------------------------------------------------------- laws (Gaussian moments)
def is_z(ctx, i):
    a = ctx.atoms[i]
    return a.kind == "draw" and a.data.normal


def wick(e):
    if e % 2:
        return 0
    r = 1
    for k in range(1, e, 2):
        r *= k
    return r


class Law:
    """Law of a vector that is polynomial in independent standard-normal draws."""

    def __init__(self, h, rec, pick):
        self.h, self.rec, self.pick = h, rec, pick
        self.x = h.lift(np.asarray(pick(rec.out), dtype=object)).reshape(-1)
        ctx = h.ctx
        self.zs = set()
        for v in self.x:
            for i in v.atom_ids():
                if is_z(ctx, i):
                    self.zs.add(i)
        # draws must occur polynomially only
        deep = set()
        for v in self.x:
            for i in v.atom_ids():
                if not is_z(ctx, i):
                    deep |= deep_draws(ctx, i)
        self.deep = deep
        self.zs |= {i for i in deep if is_z(ctx, i)}
        self.ctx = ctx

    def split(self, v):
        """v = sum_m Zmono_m * coef_m."""
        out = {}
        for m, c in v.t.items():
            zm = tuple((i, e) for i, e in m if i in self.zs)
            rm = tuple((i, e) for i, e in m if i not in self.zs)
            out.setdefault(zm, {})[rm] = c
        return {k: Value(self.ctx, t) for k, t in out.items()}

    def expect(self, v):
        acc = self.ctx.zero
        if self.deep:
            raise Inconclusive(f"{self.h.name}: draws occur inside non-polynomial terms")
        if alg.FOLD is not None and any(self.ctx.atoms[i].kind == "opq" and deep_draws(self.ctx, i) for i in v.atom_ids()):
            raise Inconclusive(f"{self.h.name}: draws folded into an opaque value")
        for zm, c in self.split(v).items():
            w = 1
            for _, e in zm:
                if not isinstance(e, int) or e < 0:
                    raise Inconclusive("negative power of a draw")
                w *= wick(e)
                if w == 0:
                    break
            if w:
                acc = acc + c * w
        return acc

    def mean(self):
        return vec(*[self.expect(v) for v in self.x])

    def cov(self):
        m = self.mean()
        n = len(self.x)
        d = [v - mm for v, mm in zip(self.x, m)]
        C = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(i, n):
                C[i, j] = C[j, i] = self.expect(d[i] * d[j])
        return C

    def moment(self, idx, central=False):
        m = self.mean() if central else None
        p = self.ctx.one
        for i in idx:
            p = p * (self.x[i] - m[i] if central else self.x[i])
        return self.expect(p)

    # ---- numeric law of the real code, recovered from real runs by exact regression
    def fit(self, pt):
        monos = {()}
        for v in self.x:
            monos |= set(self.split(v))
        for z in sorted(self.zs):
            monos.add(((z, 1),))
        monos = sorted(monos)
        K = 3 * len(monos) + 12
        A = np.empty((K, len(monos)))
        Y = []
        base = dict(pt.base)
        for a in self.ctx.atoms:
            if a.kind in ("var", "free"):
                base[a.name] = pt.atom(a.id)
        for k in range(K):
            p = Point(self.ctx, pt.seed * 1000 + k + 17, base)
            zv = {z: p.atom(z) for z in self.zs}
            for c, m in enumerate(monos):
                A[k, c] = np.prod([zv[i] ** e for i, e in m]) if m else 1.0
            Y.append(np.asarray(self.pick(self.rec.real(p)), dtype=float).reshape(-1))
            self.rec._cache.pop(p, None)
        Y = np.array(Y)
        if not np.all(np.isfinite(Y)):
            return None, float("nan"), monos
        C, *_ = np.linalg.lstsq(A, Y, rcond=None)
        resid = np.abs(A @ C - Y).max()
        return C, resid, monos

    def nlaw(self, pt):
        """(mean, cov, moment(idx, central)) of the real code at this point."""
        C, resid, monos = self.fit(pt)
        n = len(self.x)
        if C is None or resid > 1e-6 * (1 + np.abs(C).max()):
            nanm = np.full((n,), np.nan)
            return nanm, np.full((n, n), np.nan), lambda idx, central=False: float("nan"), C, monos
        polys = [{m: C[k, i] for k, m in enumerate(monos)} for i in range(n)]

        def pmul(a, b):
            r = {}
            for m1, c1 in a.items():
                for m2, c2 in b.items():
                    m, _ = _mmul(m1, m2)
                    r[m] = r.get(m, 0) + c1 * c2
            return r

        def E(p):
            return sum(c * np.prod([wick(e) for _, e in m]) if m else c for m, c in p.items())

        mean = np.array([E(p) for p in polys])
        cen = [dict(p) for p in polys]
        for p, m in zip(cen, mean):
            p[()] = p.get((), 0) - m
        cov = np.array([[E(pmul(cen[i], cen[j])) for j in range(n)] for i in range(n)])

        def moment(idx, central=False):
            p = {(): 1.0}
            for i in idx:
                p = pmul(p, cen[i] if central else polys[i])
            return E(p)

        return mean, cov, moment, C, monos

    def require(self, name, what, spec, assume=()):
        """what: 'mean' | 'cov' | [idx tuples] (central moments)."""
        if what == "mean":
            L = self.mean()
        elif what == "cov":
            L = self.cov()
        else:
            L = vec(*[self.moment(i, True) for i in what])
        spec = self.h.lift(np.asarray(spec, dtype=object))
        if L.shape != spec.shape:
            raise Violation(f"{self.h.name}/{name}: law of shape {L.shape}, expected {spec.shape}",
                            {"harness": self.h.name, "obligation": name, "kind": "shape"})

        def replay(pt):
            mean, cov, mom, _, _ = self.nlaw(pt)
            r = mean if what == "mean" else cov if what == "cov" else np.array([mom(i, True) for i in what])
            exp = oarr(spec.shape, [_f(x.num(pt)) for x in spec.reshape(-1)])
            return np.asarray(r, dtype=object), exp, [self.rec.nargs(pt)]

        self.h.check.discharge(self.h, name, L, spec, list(assume), replay)

    def require_affine(self, name):
        """Gaussianity: the sampled vector is an affine function of the normal draws."""
        L = []
        for v in self.x:
            acc = self.ctx.zero
            for zm, c in self.split(v).items():
                if sum(e for _, e in zm) > 1:
                    acc = acc + c * Value(self.ctx, {zm: 1})
            L.append(acc)
        L = vec(*L)

        def replay(pt):
            C, resid, monos = self.fit(pt)
            if C is None:
                return np.full((len(self.x),), np.nan, dtype=object), np.zeros(len(self.x), dtype=object), [self.rec.nargs(pt)]
            bad = np.zeros(len(self.x))
            for k, m in enumerate(monos):
                if sum(e for _, e in m) > 1:
                    bad = np.maximum(bad, np.abs(C[k]))
            if resid > 1e-6 * (1 + np.abs(C).max()):
                bad = bad + resid
            return np.asarray(bad, dtype=object), np.zeros(len(self.x), dtype=object), [self.rec.nargs(pt)]

        if self.deep:
            # some draw did not cancel symbolically: look for a point (one per side of every case distinction, found by the
            # solver) where the real code is visibly not affine in its draws
            chk = self.h.check
            chk.obligations += 1
            chk._replay(self.h, f"{self.h.name}/{name}", name, replay, list(self.h.assumes), None, None,
                        why="draws inside non-polynomial terms", again=tuple)
            return
        self.h.check.discharge(self.h, name, L, self.h.lift(zeros(len(self.x))), [], replay)


def deep_draws(ctx, i, seen=None):
    """ids of draw atoms occurring inside the definition of atom i."""
    seen = seen if seen is not None else {}
    if i in seen:
        return seen[i]
    seen[i] = set()
    a = ctx.atoms[i]
    out = set()
    for v in atom_children(a):
        for j in v.atom_ids():
            if ctx.atoms[j].kind == "draw":
                out.add(j)
            else:
                out |= deep_draws(ctx, j, seen)
    seen[i] = out
    return out


def cond_values(c):
    if not isinstance(c, Cond):
        return []
    out = []
    for x in c.args:
        if isinstance(x, Value):
            out.append(x)
        elif isinstance(x, Cond):
            out += cond_values(x)
    return out


def atom_children(a):
    k = a.kind
    if k in ("sqrt", "inv", "exp", "opq"):
        return [a.data]
    if k == "uf":
        return list(a.data[1])
    if k == "ite":
        return cond_values(a.data[0]) + [a.data[1], a.data[2]]
    return []


# ---------------------------------------------------------------- SMT
class SMT:
    def __init__(self, ctx, congruent=False):
        self.ctx = ctx
        self.vars = {}
        self.expo = {}
        self.congruent = congruent      # f(a) = f(b) whenever a = b, also when that is only provable

    def prepare(self, values):
        """exponent denominators per atom over everything that will be translated."""
        need = set()
        stack = list(values)
        seen_atoms = set()
        self.den = {}
        defs = []
        while stack:
            v = stack.pop()
            for m in v.t:
                for i, e in m:
                    if not isinstance(e, int):
                        d = Fraction(e).denominator
                        self.den[i] = self.den.get(i, 1) * d // math.gcd(self.den.get(i, 1), d)
                    if i not in seen_atoms:
                        seen_atoms.add(i)
                        a = self.ctx.atoms[i]
                        defs.append(a)
                        if a.kind in ("sqrt", "inv"):
                            stack.append(a.data)
                        elif a.kind == "ite":
                            stack += cond_values(a.data[0]) + [a.data[1], a.data[2]]
                        elif rounding(a) or self.congruent and a.kind == "uf":
                            stack += a.data[1]
        self.atoms_used = defs
        return defs

    def var(self, i):
        if i not in self.vars:
            self.vars[i] = z3.Real(f"a{i}_{self.ctx.atoms[i].name}")
        return self.vars[i]

    def poly(self, v):
        """exact translation; negative exponents cleared by the caller."""
        terms = []
        for m, c in v.t.items():
            fs = []
            for i, e in m:
                k = Fraction(e) * self.den.get(i, 1)
                assert k.denominator == 1 and k >= 0, (self.ctx.atoms[i], e)
                x = self.var(i)
                fs += [x] * int(k)
            c = Fraction(c)
            if c != 1 or not fs:
                fs = [z3.Q(c.numerator, c.denominator)] + fs
            t = fs[0] if len(fs) == 1 else z3.Product(fs)
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def shift(self, *vs):
        """multiply all by a common monomial so that exponents are nonnegative; returns (list, monomial)."""
        mn = {}
        for v in vs:
            for m in v.t:
                for i, e in m:
                    if e < 0:
                        mn[i] = min(mn.get(i, 0), e)
        if not mn:
            return list(vs), ()
        sh = tuple(sorted((i, -e) for i, e in mn.items()))
        out = []
        for v in vs:
            out.append(Value(self.ctx, {_mmul(m, sh)[0]: c for m, c in v.t.items()}))
        return out, sh

    def ratio(self, v):
        """(N, D) polynomials without reciprocal atoms or negative exponents, v = N/D."""
        N, D = v.clear()
        Dv = self.ctx.one
        for p, k in D:
            for _ in range(k):
                Dv = Dv * p
        (N2,), sh = self.shift(N)
        if sh:
            Dv = Dv * Value(self.ctx, {sh: 1})
        (D2,), sh = self.shift(Dv)
        if sh:
            N2 = N2 * Value(self.ctx, {sh: 1})
        return N2, D2

    def cond(self, c):
        if not isinstance(c, Cond):
            return z3.BoolVal(bool(c))
        if c.op in ("lt", "le", "eq"):
            N, D = self.ratio(c.args[0])
            if c.op == "eq":
                return self.poly(N) == 0
            q = self.poly(N)
            if not D.known_pos() and not D.is_one():
                q = q * self.poly(D)
            return q < 0 if c.op == "lt" else q <= 0
        if c.op == "not":
            return z3.Not(self.cond(c.args[0]))
        if c.op == "and":
            return z3.And(*[self.cond(a) for a in c.args])
        if c.op == "or":
            return z3.Or(*[self.cond(a) for a in c.args])
        raise Unsupported(c.op)

    def defs(self):
        out = []
        for a in list(self.atoms_used):
            x = self.var(a.id)
            k = a.kind
            d = self.den.get(a.id, 1)
            if k == "prime":
                out += [x > 0, _zpow(x, d) == a.data]
                continue
            if a.pos:
                out.append(x > 0)
            if k == "var":
                pass
            elif k == "sqrt":
                N, D = self.ratio(a.data)
                out.append(x >= 0)
                out.append(x * x * self.poly(D) == self.poly(N))
            elif k == "inv":
                (N,), sh = self.shift(a.data)
                lhs = x * self.poly(N)
                rhs = self.poly(Value(self.ctx, {sh: 1})) if sh else z3.RealVal(1)
                out.append(lhs == rhs)
            elif k == "sign":
                out.append(z3.Or(x == 1, x == -1))
            elif k == "ite":
                c, p, q = a.data
                for cc, v in ((self.cond(c), p), (z3.Not(self.cond(c)), q)):
                    N, D = self.ratio(v)
                    out.append(z3.Implies(cc, x * self.poly(D) == self.poly(N)))
            elif rounding(a):
                xs = []
                for n, v in enumerate(a.data[1]):
                    N, D = self.ratio(v)
                    y = z3.Real(f"r{a.id}_{n}")
                    out.append(y * self.poly(D) == self.poly(N))
                    xs.append(y)
                n = z3.ToReal(z3.Int(f"n{a.id}"))
                op, y = rounding(a), xs[0]
                if op == "floor":
                    out += [x == n, n <= y, y < n + 1]
                elif op == "ceil":
                    out += [x == n, n >= y, y > n - 1]
                elif op == "round":
                    out += [x == n, n - y <= z3.Q(1, 2), y - n <= z3.Q(1, 2)]
                else:
                    z = xs[1]
                    out += [y == z * n + x, x * x < z * z, z3.Or(x == 0, (x > 0) == (y > 0))]
            elif k == "draw" and not a.data.normal:
                out += [x >= 0, x < 1]
        if self.congruent:
            out += self.congruences()
        return out

    def apps(self):
        groups = {}
        for a in self.atoms_used:
            if a.kind == "uf" and self.den.get(a.id, 1) == 1:
                groups.setdefault(a.data[0], []).append(a)
        return [g for g in groups.values() if len(g) > 1]

    def congruences(self, most=150):
        out = []
        for g in self.apps():
            for a, b in itertools.combinations(g, 2):
                if len(out) >= most:
                    return out
                eqs = []
                for x, y in zip(a.data[1], b.data[1]):
                    if id_of(x) != id_of(y):
                        (N, D), (N2, D2) = self.ratio(x), self.ratio(y)
                        eqs.append(self.poly(N) * self.poly(D2) == self.poly(N2) * self.poly(D))
                out.append(z3.Implies(z3.And(*eqs), self.var(a.id) == self.var(b.id)))
        return out


def rounding(a):
    """name of the rounding operation that an opaque atom stands for"""
    if a.kind == "uf" and a.data[0][0] == "op" and a.data[0][1][0] in ("floor", "ceil", "round", "rem") \
            and len(a.data[1]) == (2 if a.data[0][1][0] == "rem" else 1):
        return a.data[0][1][0]
    return None


def _zpow(x, k):
    r = x
    for _ in range(k - 1):
        r = r * x
    return r


class Check:
    """All harnesses of one property."""

    def __init__(self, pid, known=()):
        self.pid = pid
        self.harnesses = []
        self.t0 = time.time()
        self.queries = 0
        self.solver_time = 0.0
        self.obligations = 0
        self.discharged = 0
        self.validated = 0
        self.mismatches = []
        self.inconclusive = []
        self.violations = []
        self.known_hits = []
        self.encoded = {}
        self.prims = {}
        self.stubs = set()
        self.bounds = []
        self.assumptions = []
        self.samples = []
        self.sat_twins = 0
        self.known = known
        self.trivial = 0
        self.domain_seen = set()

    def note_encoding(self, label, rec, it, funcs):
        e = self.encoded.setdefault(label, {"equations": 0, "times": 0})
        e["equations"] = max(e["equations"], rec.neqn)
        e["times"] += 1
        for k, n in it.prims.items():
            self.prims[k] = self.prims.get(k, 0) + n
        self.stubs |= it.stubs

    def snapshot(self):
        return (self.obligations, self.discharged, self.sat_twins, self.validated, len(self.inconclusive), len(self.mismatches),
                len(self.harnesses))

    def restore(self, snap):
        self.obligations, self.discharged, self.sat_twins, self.validated = snap[:4]
        del self.inconclusive[snap[4]:]
        del self.mismatches[snap[5]:]
        del self.harnesses[snap[6]:]

    def bound(self, s):
        if s not in self.bounds:
            self.bounds.append(s)

    def note(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def solver(self):
        s = z3.Solver()
        s.set("timeout", QTO)
        s.set("random_seed", SEED & 0xffff)
        return s

    def timed_check(self, s):
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        return r

    def formula(self, ctx, lv, rv, conds, congruent=False):
        """(translation, cleared pairs, well-definedness side conditions, definitions, disagreement per entry)"""
        smt = SMT(ctx, congruent)
        pairs = []
        for a, b in zip(lv, rv):
            if b is None:
                N, D = smt.ratio(a.simp())
                pairs.append((N, D, None))
                continue
            an, ad = a.simp().clear() if a.t else (a, [])
            bn, bd = b.simp().clear() if b.t else (b, [])
            A, B = an, bn
            dm = {}
            for p, k in ad:
                dm[id_of(p)] = [p, k, 0]
            for p, k in bd:
                e = dm.setdefault(id_of(p), [p, 0, 0])
                e[2] += k
            for p, ka, kb in dm.values():
                lo = min(ka, kb)
                ka, kb = ka - lo, kb - lo
                for _ in range(ka):
                    B = B * p
                for _ in range(kb):
                    A = A * p
            # products may reintroduce nothing new (p are inv-free)
            (A, B), _ = smt.shift(A, B)
            pairs.append((A, B, True))
        vals = [x for p in pairs for x in p[:2]]
        cv = [v for c in conds for v in cond_values(c)]
        # prepare all values that will be translated (conditions are ratio'd first)
        pre = []
        for v in cv + list(ctx.nonzero) + list(ctx.nonneg):
            pre += list(smt.ratio(v))
        smt.prepare(vals + [x for v in cv for x in smt.ratio(v)])
        used = {a.id for a in smt.atoms_used}
        # close over definitions (ratio of radicands etc.)
        grow = True
        extra = []
        while grow:
            n0 = len(used)
            more = []
            for a in list(smt.atoms_used):
                if a.kind == "sqrt":
                    more += list(smt.ratio(a.data))
                elif a.kind == "inv":
                    more += smt.shift(a.data)[0] + [Value(ctx, {smt.shift(a.data)[1]: 1})]
                elif a.kind == "ite":
                    for v in cond_values(a.data[0]) + [a.data[1], a.data[2]]:
                        more += list(smt.ratio(v))
                elif rounding(a) or congruent and a.kind == "uf":
                    for v in a.data[1]:
                        more += list(smt.ratio(v))
            side = []
            for v in ctx.nonzero:
                if v.atom_ids() and v.atom_ids() <= used:
                    side.append(("nz", v))
            for v in ctx.nonneg:
                if v.atom_ids() and v.atom_ids() <= used:
                    side.append(("nn", v))
            for _, v in side:
                more += list(smt.ratio(v))
            smt.prepare(vals + [x for v in cv for x in smt.ratio(v)] + more)
            used = {a.id for a in smt.atoms_used}
            grow = len(used) > n0
        base = [smt.cond(c) for c in conds] + smt.defs()
        for kind, v in side:
            N, D = smt.ratio(v)
            base.append(smt.poly(N) != 0 if kind == "nz" else smt.poly(N) * smt.poly(D) >= 0)
        bad = []
        for A, B, iseq in pairs:
            if iseq:
                bad.append(smt.poly(A) != smt.poly(B))
            else:
                q = smt.poly(A)
                bad.append((q < 0) if B.is_one() or B.known_pos() else (q * smt.poly(B) < 0))
        return smt, pairs, side, base, bad

    # ---- one obligation
    def discharge(self, h, name, L, R, assume, replay):
        ctx = h.ctx
        full = f"{h.name}/{name}"
        self.obligations += 1
        lv = list(L.reshape(-1))
        rv = list(R.reshape(-1)) if R is not None else [None] * len(lv)
        conds = list(h.assumes) + list(assume)
        nanpos = [k for k, (a, b) in enumerate(zip(lv, rv)) if a.has_nan() or (b is not None and b.has_nan())]
        if nanpos:
            # symbolic NaN (division by zero, Cholesky of a singular matrix) where a number is required
            self._replay(h, full, name, replay, conds, R, L, why="NaN", again=tuple)
            return
        smt, pairs, side, base, bad = self.formula(ctx, lv, rv, conds)
        s = self.solver()
        s.add(*base)
        s.push()
        s.add(z3.Or(*bad))
        s.set("timeout", min(QTO, 15_000))
        res = self.timed_check(s)
        model = s.model() if res == z3.sat else None
        if res != z3.unsat and any(a.kind == "opq" for a in smt.atoms_used):
            # opaque values are free reals: look for a counterexample with inputs and opaque values pinned consistently
            res, model = z3.unknown, None
            for pt in h.ctx.points[:2]:
                s.push()
                s.set("timeout", 10_000)
                self.pin(s, smt, pt)
                if self.timed_check(s) == z3.sat:
                    res, model = z3.sat, s.model()
                s.pop()
                if res == z3.sat:
                    break
            s.pop()
            self._replay(h, full, name, replay, conds, R, L, why=f"{res} (opaque intermediate values)", model=model, smt=smt, again=tuple)
            return
        if res == z3.unknown:
            # a counterexample with the inputs pinned to rational sample values?
            for pt in h.ctx.points[:2]:
                s.push()
                s.set("timeout", 5_000)
                self.pin(s, smt, pt)
                r2 = self.timed_check(s)
                if r2 == z3.sat:
                    res, model = r2, s.model()
                s.pop()
                if res == z3.sat:
                    break
        if res == z3.unknown:
            # decide entry by entry
            res = z3.unsat
            for b in bad:
                s2 = self.solver()
                s2.add(*base)
                s2.add(b)
                r2 = self.timed_check(s2)
                if r2 != z3.unsat:
                    res = r2
                    model = s2.model() if r2 == z3.sat else None
                    break
        s.pop()
        if res == z3.sat and smt.apps():
            # the values of the uninterpreted functions were free: now equal arguments give equal values
            f2 = self.formula(ctx, lv, rv, conds, True)
            s2 = self.solver()
            s2.set("timeout", 20_000)
            s2.add(*f2[3], z3.Or(*f2[4]))
            r2 = self.timed_check(s2)
            if r2 != z3.unknown:
                smt, pairs, side, base, bad = f2
                res, model = r2, s2.model() if r2 == z3.sat else None
        if res == z3.unsat:
            self.discharged += 1
            # vacuity guard: assumptions + definitions satisfiable, and a perturbed twin is refuted
            self.vacuity(h, full, smt, base, pairs, conds)
            self.domain(h, full, name, smt, base, side, conds, replay, R)
            if len(self.samples) < 4:
                self.samples.append({"obligation": full, "entries": len(pairs),
                                     "impl": repr(lv[0])[:300], "spec": repr(rv[0])[:300]})
            return
        def again():
            """further models: moderate inputs first, then a visible difference"""
            vs = [(a, smt.vars[a.id]) for a in smt.atoms_used if a.kind in ("var", "free", "uf", "draw") and a.id in smt.vars]
            box = [z3.And(v <= 8, v >= (z3.Q(1, 8) if a.pos else -8)) for a, v in vs]
            big = [z3.And(v <= 500, v >= -500) for a, v in vs]
            gap = z3.Or(*[((smt.poly(A) - smt.poly(B)) * (smt.poly(A) - smt.poly(B)) > z3.Q(1, 10 ** 4) if iseq else b)
                          for (A, B, iseq), b in zip(pairs, bad)])
            for more in ([gap] + box, [z3.Or(*bad)] + box, [z3.Or(*bad)] + big):
                s3 = self.solver()
                s3.add(*base)
                s3.add(*more)
                s3.set("timeout", 10_000)
                if self.timed_check(s3) == z3.sat:
                    yield s3.model()
        self._replay(h, full, name, replay, conds, R, L, why=str(res), model=model, smt=smt, again=again if res == z3.sat else tuple)

    def witness(self, h, conds, rounded=None):
        """a model of the conditions with moderate inputs (where the atom `rounded` is not its operand)"""
        smt = SMT(h.ctx)
        try:
            vals = [x for c in conds for v in cond_values(c) for x in smt.ratio(v)]
            if rounded is not None:
                diff = h.ctx.of_atom(rounded) - rounded.data[1][0]
                vals += list(smt.ratio(diff))
            smt.prepare(vals)
            while True:
                n0, more = len(smt.atoms_used), []
                for a in list(smt.atoms_used):
                    if a.kind == "sqrt":
                        more += list(smt.ratio(a.data))
                    elif a.kind == "inv":
                        more += smt.shift(a.data)[0] + [Value(h.ctx, {smt.shift(a.data)[1]: 1})]
                    elif a.kind == "ite":
                        for v in cond_values(a.data[0]) + [a.data[1], a.data[2]]:
                            more += list(smt.ratio(v))
                    elif rounding(a):
                        for v in a.data[1]:
                            more += list(smt.ratio(v))
                smt.prepare(vals + more)
                if len(smt.atoms_used) == n0:
                    break
            s = self.solver()
            s.add(*[smt.cond(c) for c in conds], *smt.defs())
            if rounded is not None:
                s.add(smt.poly(smt.ratio(diff)[0]) != 0)
            for big in (8, 5000):
                s.push()
                s.add(*[z3.And(smt.vars[a.id] <= big, smt.vars[a.id] >= (z3.Q(1, 8) if a.pos else -big))
                        for a in smt.atoms_used if a.kind in ("var", "free") and a.id in smt.vars])
                s.set("timeout", 5_000)
                if self.timed_check(s) == z3.sat:
                    return s.model(), smt
                s.pop()
            return None
        except Unsupported:
            return None

    def pin(self, s, smt, pt):
        if any(a.kind == "opq" for a in smt.atoms_used):
            base = {}
            for a in h_atoms(smt):
                if a.kind in ("var", "free"):
                    v = pt.atom(a.id)
                    if not isinstance(v, complex) and math.isfinite(v):
                        q = Fraction(v).limit_denominator(64)
                        base[a.name] = float(q if q > 0 or not a.pos else Fraction(1, 64))
            pt = Point(smt.ctx, pt.seed, base)
            for a in smt.atoms_used:
                if a.kind == "opq":
                    v = pt.atom(a.id)
                    if isinstance(v, complex) or math.isnan(v) or math.isinf(v):
                        continue
                    q = Fraction(v).limit_denominator(10 ** 9)
                    s.add(smt.var(a.id) == z3.Q(q.numerator, q.denominator))
        for a in smt.atoms_used:
            if a.kind in ("var", "draw", "uf", "free") and smt.den.get(a.id, 1) == 1:
                v = pt.atom(a.id)
                if isinstance(v, complex) or not math.isfinite(v):
                    continue
                q = Fraction(v).limit_denominator(64)
                if a.pos and q <= 0:
                    q = Fraction(1, 64)
                s.add(smt.var(a.id) == z3.Q(q.numerator, q.denominator))

    def domain(self, h, full, name, smt, base, side, conds, replay, R):
        """Divisors and radicands are taken to be well defined.  Where one of them contains a case distinction of the code,
        the code itself may leave that domain: look for a point where the other branch would have been well defined, and
        replay it (a number is required, the real code yields NaN or something else)."""
        if R is None:
            return
        for kind, v in side:
            for i in sorted(v.atom_ids()):
                a = h.ctx.atoms[i]
                key = (h.name, kind, id_of(v), i)
                if a.kind != "ite" or key in self.domain_seen:
                    continue
                self.domain_seen.add(key)
                c, p, q = a.data
                N, D = smt.ratio(v)
                ok = lambda N, D: smt.poly(N) != 0 if kind == "nz" else smt.poly(N) * smt.poly(D) >= 0
                alts = []
                for b in (p, q):
                    try:
                        Nb, Db = smt.ratio(_branch(v, i, b))
                        alts.append(ok(Nb, Db))
                    except (Unsupported, ZeroDivisionError, AssertionError, KeyError):
                        pass
                if not alts:
                    continue
                k0 = len(base) - len(side)
                s = self.solver()
                s.set("timeout", 5_000)
                s.add(*base[:k0], *[b for m, b in enumerate(base[k0:]) if side[m][1].atom_ids().isdisjoint({i})])
                s.add(z3.Not(ok(N, D)), z3.Or(*alts))
                if self.timed_check(s) != z3.sat:
                    continue
                n0 = len(self.inconclusive)
                self._replay(h, full + " (well-definedness)", name, replay, conds, None, None,
                             why="sat", model=s.model(), smt=smt, again=None)
                del self.inconclusive[n0:]

    def vacuity(self, h, full, smt, base, pairs, conds):
        """The perturbed twin (impl + 1) must be refutable at a concrete point satisfying every assumption."""
        s = self.solver()
        s.set("timeout", 20_000)
        tw = []
        for A, B, iseq in pairs[:4]:
            tw.append(smt.poly(A) + 1 != smt.poly(B) if iseq else smt.poly(A) >= 0)
        s.add(*base)
        s.add(z3.Or(*tw))
        ok = False
        # pin the free inputs to rational sample values: only definitions remain to be solved
        deep = any(a.kind in ("sqrt", "sqrtm") for a in smt.atoms_used)
        for pt in ([] if deep else [h.ctx.points[0], None]):
            s.push()
            s.set("timeout", 3_000)
            if pt is not None:
                self.pin(s, smt, pt)
            r = self.timed_check(s)
            s.pop()
            if r == z3.sat:
                ok = True
                break
        if ok:
            self.sat_twins += 1
            return
        # numeric witness as a last resort (definitions hold at every sample point by construction)
        for pt in h.ctx.points:
            if all((c if isinstance(c, bool) else c.num(pt)) for c in conds):
                self.sat_twins += 1
                return
        self.inconclusive.append(f"{full}: assumptions look unsatisfiable (vacuous)")

    def _replay(self, h, full, name, replay, conds, R, L, why, model=None, smt=None, again=None):
        """Find a concrete point where the solver's disagreement shows, and run the real code there."""
        ctx = h.ctx
        cands = []

        def of_model(model, smt=smt):
            base = {}
            for a in ctx.atoms:
                if a.kind in ("var", "free") and a.id in smt.vars:
                    mv = model.eval(smt.vars[a.id], model_completion=True)
                    try:
                        v = _z3float(mv)
                    except Exception:
                        continue
                    base[a.name] = v ** smt.den.get(a.id, 1)
            return base

        def shifted(model):
            """the model's point, with the uninterpreted functions shifted to the model's values"""
            from . import uf as ufm
            pt = Point(ctx, 1000 * SEED, of_model(model))
            pt.offsets = {}
            ufm.OFFSETS = pt.offsets
            try:
                for a in ctx.atoms:
                    if a.kind == "uf" and a.data[0][0] == "uf" and a.id in smt.vars and smt.den.get(a.id, 1) == 1 \
                            and (a.data[0][1], a.data[0][2]) not in pt.offsets:
                        v = _z3float(model.eval(smt.vars[a.id], model_completion=True))
                        key, args, data = a.data
                        pt.offsets[key[1], key[2]] = v - float(np.real(data(*[x.num(pt) for x in args])))
            except Exception:
                return None
            finally:
                ufm.OFFSETS = {}
            return pt if pt.offsets else None

        def candidates():
            if model is not None:
                yield Point(ctx, 1000 * SEED, of_model(model))
            yield from ctx.points
            for k in range(4):
                yield Point(ctx, 1000 * SEED + 50 + k)
            if again is None:
                return
            t0, seen = time.time(), [] if model is None else [of_model(model)]
            models = [] if model is None else [model]
            for m in again():
                models.append(m)
                seen.append(of_model(m))
                yield Point(ctx, 1000 * SEED, seen[-1])
            for m in models:
                pt = shifted(m)
                if pt is not None:
                    yield pt
            # one point per side of every case distinction in the code
            for c in [e[0] for e in ctx.ite_table[:8]]:
                for want in (c, c_not(c)):
                    if time.time() - t0 > 40:
                        break
                    w = self.witness(h, [want] + list(conds))
                    if w is not None:
                        seen.append(of_model(*w))
                        yield Point(ctx, 1000 * SEED, seen[-1])
            # ... and one where each rounding operation matters
            for a in [a for a in ctx.atoms if rounding(a)][:8]:
                if time.time() - t0 > 50:
                    break
                w = self.witness(h, list(conds), a)
                if w is not None:
                    seen.append(of_model(*w))
                    yield Point(ctx, 1000 * SEED, seen[-1])
            # opaque operations say nothing about where they matter: inputs of very different sizes
            if any(a.kind == "uf" and a.data[0][0] == "op" and not rounding(a) for a in ctx.atoms):
                import random
                for k in range(8):
                    r = random.Random(f"{SEED}:{k}")
                    yield Point(ctx, 1000 * SEED, {a.name: (1 if a.pos or r.random() < 0.5 else -1) * 10 ** r.uniform(-3, 2)
                                                   for a in ctx.atoms if a.kind == "var" and a.data["lo"] is None})
            # the model may sit exactly on a case boundary: neighbouring floats of its inputs
            for b in seen:
                for n in list(b)[:12]:
                    for to in (math.inf, -math.inf):
                        if time.time() - t0 > 60:
                            return
                        yield Point(ctx, 1000 * SEED, {**b, n: math.nextafter(b[n], to)})

        cands = candidates()
        best = None
        from . import uf as ufm
        for pt in cands:
            try:
                ufm.OFFSETS = getattr(pt, "offsets", {})
                if not all((c if isinstance(c, (bool, np.bool_)) else c.num(pt)) for c in conds):
                    continue
                if not (-1e6 < max([abs(pt.base.get(n, 0)) for n in pt.base] or [0]) < 1e6):
                    continue
                real, exp, nargs = replay(pt)
            except (OverflowError, ZeroDivisionError, ValueError):
                continue
            finally:
                if ufm.OFFSETS:
                    ufm.OFFSETS = {}
                    jax.clear_caches()
            rf = np.array([_f(x) for x in np.asarray(real, dtype=object).reshape(-1)])
            if exp is None:
                neg = (rf < -RTOL * (1 + np.abs(rf).max())) | np.isnan(rf)
                if neg.any():
                    best = (pt, real, exp, nargs, int(np.argmax(neg)))
                    break
                continue
            ef = np.array([_f(x) for x in np.asarray(exp, dtype=object).reshape(-1)])
            if not np.isfinite(ef).all():
                continue
            dv = np.abs(rf - ef)
            scale = 1 + np.abs(ef).max()
            badm = ~(dv <= 10 * RTOL * scale)
            if badm.any():
                best = (pt, real, exp, nargs, int(np.argmax(badm)))
                break
            # a small disagreement counts when the real run shows exactly the difference that the solver's terms predict
            if R is not None and np.isfinite(rf).all() and L.size == rf.size:
                for k in np.argsort(-dv):
                    if dv[k] < 1e-10 * scale:
                        break
                    d = (L.reshape(-1)[k] - R.reshape(-1)[k]).simp().num_scaled(pt)[0]
                    if d is None or isinstance(d, complex):
                        continue
                    if abs((rf[k] - ef[k]) - d) <= 0.05 * abs(d):
                        best = (pt, real, exp, nargs, int(k))
                        break
                if best is not None:
                    break
        if best is None:
            self.inconclusive.append(f"{full}: solver said {why} but no disagreement reproduced on the real code")
            return
        pt, real, exp, nargs, k = best
        rf = np.asarray(real, dtype=object).reshape(-1)
        ef = np.asarray(exp, dtype=object).reshape(-1) if exp is not None else None
        self.violations.append((full, {
            "property": self.pid, "obligation": full, "entry": k,
            "real_code": [_f(x) for x in rf], "required": None if ef is None else [_f(x) for x in ef],
            "solver": why, "arguments": [_dump(a) for a in nargs],
            "inputs": {a.name: pt.atom(a.id) for a in ctx.atoms if a.kind == "var"},
            "uninterpreted_functions": "replayed with the smooth shadow functions of symjax/uf.py",
            "kind": "counterexample"}))

    # ---- finish
    def finish(self):
        wall = time.time() - self.t0
        ev = {
            "property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "other",
            "coverage": {
                "explanation": "bounded symbolic execution of the real code: each harness traces the function(s) from /repo "
                               "into JAX's IR, interprets that IR over exact reals with every input symbolic, and asks z3 "
                               "whether implementation and specification can differ",
                "functions_encoded": self.encoded,
                "obligations": self.obligations, "discharged": self.discharged,
                "solver_queries": self.queries, "solver_time_s": round(self.solver_time, 3),
                "vacuity_twins_refuted": self.sat_twins,
                "encoder_validation_runs": self.validated,
                "ir_primitives_interpreted": self.prims,
                "library_contracts": sorted(self.stubs),
                "bounds": self.bounds,
                "samples": self.samples,
                "known_findings_hit": self.known_hits,
            },
            "assumptions": self.assumptions + sorted({d for h in self.harnesses for d in h.assume_desc}),
            "wall_s": round(wall, 2), "violations": len(self.violations),
        }
        return ev


def h_atoms(smt):
    """every atom of the harness (an opaque value may depend on atoms that the query does not mention)."""
    return smt.ctx.atoms


def _branch(v, i, b):
    """v with atom i replaced by the value b"""
    acc = v.ctx.zero
    for m, c in v.t.items():
        e = dict(m).get(i, 0)
        if not isinstance(e, int) or (e < 0 and not b.t):
            raise Unsupported("power of a case distinction")
        t = Value(v.ctx, {tuple(x for x in m if x[0] != i): c})
        acc = acc + (t * b ** e if e else t)
    return acc


def id_of(p):
    return frozenset(p.t.items())


def _z3float(v):
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return a.numerator_as_long() / a.denominator_as_long()
    raise ValueError


def S(x):
    """scalar output (symbolic or float)."""
    return np.asarray(x, dtype=object).item()


def O(x):
    return np.asarray(x, dtype=object)


def cat(*xs):
    return np.concatenate([O(x).reshape(-1) for x in xs])
