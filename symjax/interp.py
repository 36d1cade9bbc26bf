"""Symbolic interpreter for jaxprs: executes the real, traced code over exact reals."""
from fractions import Fraction
import functools
import math

import jax
import jax.numpy as jnp
import numpy as np
from jax import core

from .alg import Atom, Cond, Ctx, Unsupported, Value, c_and, c_not, c_or
from .uf import uf_p, shadow


# ---------------------------------------------------------------- constants
def rationalise(x, eps):
    """float -> (Fraction q, is_sqrt, sign): simplest exact reading of a float constant."""
    if x == int(x) and abs(x) < 1e15:
        return Fraction(int(x)), False
    f = Fraction(x)
    tol = abs(f) * Fraction(eps) * 3
    q = _cf(f, tol, 10 ** 6)
    if q is not None:
        return q, False
    q = _cf(f * f, f * f * Fraction(eps) * 6, 2 * 10 ** 4)
    if q is not None and q.numerator < 10 ** 6:
        return (q, True)
    return f, False


def _cf(f, tol, maxden):
    """First continued-fraction convergent within tol."""
    a, h0, k0, h1, k1 = f, 0, 1, 1, 0
    for _ in range(40):
        i = math.floor(a)
        h0, h1 = h1, i * h1 + h0
        k0, k1 = k1, i * k1 + k0
        if k1 > maxden:
            return None
        c = Fraction(h1, k1)
        if abs(c - f) <= tol:
            return c
        if a == i:
            return c
        a = 1 / (a - i)
    return None


class KeyTerm:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, KeyTerm) and self.t == o.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return _kstr(self.t)


def _kstr(t):
    if isinstance(t, KeyTerm):
        t = t.t
    if t[0] == "root":
        return t[1]
    if t[0] == "split":
        return f"{_kstr(t[1])}.{t[2]}/{t[3]}"
    return str(t)


class KeyElem:
    """One of the two uint32 words of a raw key."""
    __slots__ = ("k", "j")

    def __init__(self, k, j):
        self.k, self.j = k, j


class Bits:
    __slots__ = ("key", "shape", "idx", "width", "stage")

    def __init__(self, key, shape, idx, width, stage=0):
        self.key, self.shape, self.idx, self.width, self.stage = key, shape, idx, width, stage


class IntTerm:
    """Symbolic integer (z3)."""
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z


class ZCond:
    """Symbolic boolean over IntTerms (z3)."""
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z


POISON = object()


class Draw:
    """Numeric reading of a random draw: what JAX's generator really returns for the key."""

    def __init__(self, interp, key, shape, idx, width, normal):
        self.interp, self.key, self.shape, self.idx, self.width, self.normal = interp, key, shape, idx, width, normal

    def numeric(self, pt):
        cache = pt.__dict__.setdefault("draws", {})
        ck = (self.key, self.shape, self.width)
        if ck not in cache:
            k = key_data(pt, self.key)
            dt = {64: jnp.float64, 32: jnp.float32}[self.width]
            u = np.asarray(jax.random.uniform(k, self.shape, dt), dtype=float)
            z = np.asarray(jax.random.normal(k, self.shape, dt), dtype=float)
            cache[ck] = (u, z)
        u, z = cache[ck]
        return float((z if self.normal else u).reshape(-1)[self.idx])


def key_data(pt, key):
    cache = pt.__dict__.setdefault("keys", {})
    if key not in cache:
        t = key.t
        if t[0] == "root":
            import zlib
            cache[key] = jax.random.PRNGKey(zlib.crc32(f"{pt.seed}:{t[1]}".encode()) & 0x7fffffff)
        elif t[0] == "concrete":
            cache[key] = jnp.array(t[1], dtype=jnp.uint32)
        elif t[0] == "split":
            ks = jax.random.split(key_data(pt, t[1]), t[3])
            for j in range(t[3]):
                cache[KeyTerm(("split", t[1], j, t[3]))] = ks[j]
        elif t[0] == "fold":
            cache[key] = jax.random.fold_in(key_data(pt, t[1]), t[2])
        elif t[0] == "seed":
            cache[key] = jax.random.PRNGKey(t[1])
        else:
            raise Unsupported(str(t))
    return cache[key]


def oarr(shape, it):
    a = np.empty(shape, dtype=object)
    a_flat = a.reshape(-1)
    for i, v in enumerate(it):
        a_flat[i] = v
    return a_flat.reshape(shape)


def is_obj(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def is_float_aval(av):
    return jnp.issubdtype(av.dtype, jnp.floating)


_CANON = {}


def canon_jaxpr(name, avals):
    """JAX's own jaxpr for a stubbed library function at these shapes."""
    import jax.scipy.linalg as jl
    key = (name, tuple((a.shape, str(a.dtype)) for a in avals))
    if key not in _CANON:
        f = {"expm": jl.expm, "_sqrtm": jl.sqrtm}[name]
        if len(avals[0].shape) > 2 and name == "expm":
            f = jax.vmap(f)
        j = jax.make_jaxpr(f)(*[jax.ShapeDtypeStruct(a.shape, a.dtype) for a in avals])
        found = None
        for e in j.eqns:
            if e.primitive.name == "pjit" and e.params["name"] == name:
                found = str(e.params["jaxpr"])
        _CANON[key] = found
    return _CANON[key]


class Interp:
    def __init__(self, ctx):
        self.ctx = ctx
        self.events = []          # host callbacks, in program order (with path condition)
        self.consumed = []        # (KeyTerm, shape)
        self.split_keys = []
        self.draw_atoms = {}
        self.prims = {}
        self.pathcond = []
        self.stubs = set()
        self.unif_of_normal = {}

    # ------------------------------------------------------------ conversion
    def fconst(self, x, dtype):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            return self.ctx.nan()
        if x == 0:
            return self.ctx.zero
        eps = {4: 2 ** -24, 8: 2 ** -53, 2: 2 ** -11}[np.dtype(dtype).itemsize]
        q, s = rationalise(x, eps)
        if s:
            v = self.ctx.sqrt_rational(q)
            return v if x > 0 else -v
        return self.ctx.const(q)

    def lift(self, a):
        """concrete array -> representation (floats become exact Values)."""
        if is_obj(a):
            return a
        if isinstance(a, np.ndarray) and (np.issubdtype(a.dtype, np.floating)):
            dt = a.dtype
            cache = {}
            def conv(x):
                x = float(x)
                if x not in cache:
                    cache[x] = self.fconst(x, dt)
                return cache[x]
            return oarr(a.shape, (conv(x) for x in a.reshape(-1)))
        if hasattr(a, "dtype") and jnp.issubdtype(a.dtype, jax.dtypes.prng_key):
            data = np.asarray(jax.random.key_data(a))
            ks = [KeyTerm(("concrete", tuple(int(v) for v in row))) for row in data.reshape(-1, data.shape[-1])]
            return oarr(a.shape, ks)
        a = np.asarray(a)
        if np.issubdtype(a.dtype, np.floating) or a.dtype == jnp.bfloat16:
            return self.lift(a.astype(np.float64)) if a.dtype == jnp.bfloat16 else self.lift(np.array(a))
        return np.array(a)

    # ------------------------------------------------------------ driver
    def run(self, closed, args):
        return self.eval_jaxpr(closed.jaxpr, [self.lift(np.asarray(c) if not _is_key(c) else c) for c in closed.consts], args)

    def eval_jaxpr(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if type(v) is core.Literal:
                return self.lift(np.asarray(v.val, dtype=v.aval.dtype))
            return env[v]

        for v, a in zip(jaxpr.constvars, consts):
            env[v] = a
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            outs = self.eqn(eqn, ins)
            for v, o in zip(eqn.outvars, outs):
                if type(v) is not core.DropVar:
                    if o is not POISON and tuple(o.shape) != tuple(v.aval.shape):
                        raise Unsupported(f"shape mismatch in {eqn.primitive.name}: {o.shape} vs {v.aval.shape}")
                    env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def eqn(self, eqn, ins):
        try:
            return self.exact(eqn, ins)
        except Unsupported as e:
            out = self.opaque(eqn, ins)
            if out is None:
                raise
            return out

    def opaque(self, eqn, ins):
        """An operation on numbers without an exact encoding: arbitrary values, equal for equal operands.  Sound for proofs;
        a counterexample that depends on them counts only if the real code shows it."""
        if any(i is POISON for i in ins) or not any(is_float_aval(v.aval) for v in eqn.outvars):
            return None
        if eqn.primitive.name in ("floor", "ceil", "round", "rem") and all(is_obj(i) for i in ins):
            a = np.broadcast_arrays(*ins)
            if all(isinstance(x, Value) for i in a for x in i.reshape(-1)):
                return [oarr(a[0].shape, (self.opaque_scalar(eqn, xs) for xs in zip(*[i.reshape(-1) for i in a])))]
        flat, num = [], []
        for i in ins:
            if is_obj(i):
                if not all(isinstance(x, Value) for x in i.reshape(-1)):
                    return None
                num.append((i.shape, len(flat)))
                flat += list(i.reshape(-1))
            else:
                num.append(np.asarray(i))
        if not flat or len(flat) > 200 or sum(int(np.prod(v.aval.shape)) for v in eqn.outvars) > 200:
            return None
        memo = {}

        def numeric(args):
            key = tuple(float(np.real(a)) for a in args)
            if key not in memo:
                vals = [jnp.asarray(np.array(key[n[1]:n[1] + int(np.prod(n[0], dtype=int))]).reshape(n[0])) if isinstance(n, tuple)
                        else jnp.asarray(n) for n in num]
                subfuns, params = eqn.primitive.get_bind_params(eqn.params)
                with jax.ensure_compile_time_eval():
                    r = eqn.primitive.bind(*subfuns, *vals, **params)
                memo[key] = [np.asarray(x, dtype=float) for x in (r if eqn.primitive.multiple_results else [r])]
            return memo[key]

        ident = (eqn.primitive.name, repr(eqn.params)[:2000], tuple(n if isinstance(n, tuple) else (n.shape, n.tobytes()) for n in num))
        outs = []
        for k, v in enumerate(eqn.outvars):
            if not is_float_aval(v.aval):
                outs.append(POISON)
                continue
            outs.append(oarr(v.aval.shape, (self.ctx.uf(("op", ident, k, j), flat, eqn.primitive.name,
                                                        data=lambda *a, k=k, j=j: float(numeric(a)[k].reshape(-1)[j]))
                                            for j in range(int(np.prod(v.aval.shape, dtype=int))))))
        self.stubs.add(f"opaque {eqn.primitive.name}")
        return outs

    def opaque_scalar(self, eqn, xs):
        name = eqn.primitive.name
        num = {"floor": np.floor, "ceil": np.ceil, "round": np.round, "rem": np.fmod}[name]
        return self.ctx.uf(("op", (name,), 0, 0), list(xs), name, data=lambda *a: float(num(*[float(np.real(x)) for x in a])))

    def exact(self, eqn, ins):
        name = eqn.primitive.name
        self.prims[name] = self.prims.get(name, 0) + 1
        if any(i is POISON for i in ins):
            return [POISON] * len(eqn.outvars)
        if eqn.primitive is uf_p:
            return [self.p_uf(ins, **eqn.params)]
        h = getattr(self, "p_" + name.replace("-", "_"), None)
        if h is not None:
            return h(eqn, ins)
        if not any(is_obj(i) for i in ins):
            # purely concrete integers/booleans: run the real primitive
            return self.concrete(eqn, ins)
        if name in MOVES:
            return self.move(eqn, ins)
        if name in UNARY:
            f = getattr(self, "u_" + name)
            a = ins[0]
            if not is_obj(a):
                return self.concrete(eqn, ins)
            return [oarr(a.shape, (f(x) for x in a.reshape(-1)))]
        if name in BINARY:
            f = getattr(self, "b_" + name)
            a, b = np.broadcast_arrays(self._o(ins[0]), self._o(ins[1]))
            out = oarr(a.shape, (f(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1))))
            return [self._maybe_concrete(out, eqn.outvars[0].aval)]
        raise Unsupported(f"primitive {name}")

    def _o(self, a):
        if is_obj(a):
            return a
        return oarr(a.shape, (x.item() if hasattr(x, "item") else x for x in a.reshape(-1)))

    def _maybe_concrete(self, out, aval):
        if aval.dtype == np.bool_ or np.issubdtype(aval.dtype, np.integer):
            if all(isinstance(x, (bool, int, np.bool_, np.integer)) for x in out.reshape(-1)):
                return np.array([x for x in out.reshape(-1)], dtype=aval.dtype).reshape(out.shape)
        return out

    def concrete(self, eqn, ins):
        subfuns, bind_params = eqn.primitive.get_bind_params(eqn.params)
        outs = eqn.primitive.bind(*subfuns, *[jnp.asarray(i) for i in ins], **bind_params)
        if not eqn.primitive.multiple_results:
            outs = [outs]
        return [self.lift(np.asarray(o)) for o in outs]

    # ------------------------------------------------------------ data movement
    def move(self, eqn, ins):
        """Run the real primitive on integer element ids, then map ids back to elements."""
        table = []
        fids = []
        idx_from = MOVES[eqn.primitive.name]
        for k, a in enumerate(ins):
            if idx_from is not None and k >= idx_from[0] and k < idx_from[1](len(ins)):
                if is_obj(a):
                    raise Unsupported(f"symbolic index in {eqn.primitive.name}")
                fids.append(jnp.asarray(a))
                continue
            o = self._o(a)
            ids = np.arange(len(table), len(table) + o.size, dtype=np.int32).reshape(o.shape)
            table.extend(o.reshape(-1).tolist() if o.ndim else [o.item()])
            fids.append(jnp.asarray(ids))
        subfuns, bp = eqn.primitive.get_bind_params(eqn.params)
        if "fill_value" in bp:
            bp = dict(bp, fill_value=None)
        outs = eqn.primitive.bind(*subfuns, *fids, **bp)
        if not eqn.primitive.multiple_results:
            outs = [outs]
        res = []
        nan = None
        for o in outs:
            o = np.asarray(o)
            def get(i):
                if 0 <= i < len(table):
                    return table[i]
                return self.ctx.nan()
            res.append(self._maybe_concrete(oarr(o.shape, (get(int(i)) for i in o.reshape(-1))), eqn.outvars[0].aval))
        return res

    def p_select_n(self, eqn, ins):
        pred, *cases = ins
        if not is_obj(pred):
            if all(not is_obj(c) for c in cases):
                return self.concrete(eqn, ins)
            cs = [self._o(c) for c in cases]
            p = np.broadcast_to(pred, cs[0].shape)
            return [oarr(cs[0].shape, (cs[int(pp)].reshape(-1)[i] for i, pp in enumerate(p.reshape(-1))))]
        cs = [self._o(c) for c in cases]
        if len(cs) != 2:
            raise Unsupported("select_n with symbolic index")
        p = np.broadcast_to(pred, cs[0].shape)
        return [oarr(cs[0].shape, (self.ite(pp, b, a) for pp, a, b in
                                   zip(p.reshape(-1), cs[0].reshape(-1), cs[1].reshape(-1))))]

    def ite(self, c, a, b):
        if isinstance(c, ZCond):
            import z3
            az = a.z if isinstance(a, (IntTerm, ZCond)) else a
            bz = b.z if isinstance(b, (IntTerm, ZCond)) else b
            if isinstance(a, ZCond) or isinstance(b, ZCond) or isinstance(az, (bool, np.bool_)):
                return ZCond(z3.If(c.z, az, bz))
            if isinstance(a, Value) or isinstance(b, Value):
                if isinstance(a, Value) and a.eq(b):
                    return a
                raise Unsupported("float value depends on a symbolic integer")
            return IntTerm(z3.If(c.z, az, bz))
        if not isinstance(c, Cond):
            return a if bool(c) else b
        if isinstance(a, Value):
            return self.ctx.ite(c, a, b)
        if isinstance(a, (bool, np.bool_, Cond)):
            return c_or(c_and(c, a), c_and(c_not(c), b))
        if a == b:
            return a
        raise Unsupported("integer select on a symbolic condition")

    # ------------------------------------------------------------ elementwise
    def u_neg(self, x):
        if isinstance(x, IntTerm):
            return IntTerm(-x.z)
        return -x

    def u_sqrt(self, x):
        return self.ctx.sqrt(x)

    def u_rsqrt(self, x):
        return self.ctx.one / self.ctx.sqrt(x)

    def u_cbrt(self, x):
        return self.ctx.uf(("cbrt",), [x], "cbrt", data=lambda v: float(np.cbrt(v)))

    def u_square(self, x):
        return x * x

    def u_exp(self, x):
        return self.ctx.exp(x)

    def u_expm1(self, x):
        return self.ctx.exp(x) - 1

    def u_exp2(self, x):
        return self.ctx.uf(("exp2",), [x], "exp2", True, data=lambda v: 2.0 ** v)

    def _uf1(self, nm, x, f, pos=False):
        return self.ctx.uf((nm,), [x], nm, pos, data=f)

    def u_log(self, x):
        x = x.simp()
        if x.is_one():
            return self.ctx.zero
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1 and len(m) == 1 and self.ctx.atoms[m[0][0]].kind == "exp":
                return self.ctx.atoms[m[0][0]].data * self.ctx.const(Fraction(m[0][1]))
        return self._uf1("log", x, lambda v: math.log(v))

    def u_log1p(self, x):
        return self.u_log(x + 1)

    def u_sin(self, x):
        return self.ctx.zero if x.is_zero() else self._uf1("sin", x, math.sin)

    def u_cos(self, x):
        return self.ctx.one if x.is_zero() else self._uf1("cos", x, math.cos)

    def u_tan(self, x):
        return self.u_sin(x) / self.u_cos(x)

    def u_sinh(self, x):
        e = self.ctx.exp(x)
        return (e - self.ctx.inv(e)) / 2

    def u_cosh(self, x):
        e = self.ctx.exp(x)
        return (e + self.ctx.inv(e)) / 2

    def u_tanh(self, x):
        return self._uf1("tanh", x, math.tanh)

    def u_logistic(self, x):
        return self._uf1("logistic", x, lambda v: 1 / (1 + math.exp(-v)))

    def u_abs(self, x):
        if x.known_nonneg():
            return x
        return self.ctx.ite(Cond.cmp("lt", x, self.ctx.zero), -x, x)

    def u_sign(self, x):
        if isinstance(x, IntTerm):
            import z3
            return IntTerm(z3.If(x.z > 0, z3.IntVal(1), z3.If(x.z < 0, z3.IntVal(-1), z3.IntVal(0))))
        if x.known_pos():
            return self.ctx.one
        return self.ctx.ite(Cond.cmp("lt", x, self.ctx.zero), self.ctx.const(-1),
                            self.ctx.ite(Cond.cmp("eq", x, self.ctx.zero), self.ctx.zero, self.ctx.one))

    def u_is_finite(self, x):
        return not x.has_nan()

    def u_real(self, x):
        return x

    def u_conj(self, x):
        return x

    def u_imag(self, x):
        return self.ctx.zero

    def u_copy(self, x):
        return x

    u_copy_p = u_copy

    def u_stop_gradient(self, x):
        return x

    def u_not(self, x):
        if isinstance(x, ZCond):
            import z3
            return ZCond(z3.Not(x.z))
        return c_not(x)

    def u_erf_inv(self, x):
        # 2U-1 with U uniform: Z = sqrt(2) erf_inv(2U-1) is a standard normal draw
        for m, c in x.t.items():
            if len(m) == 1 and c == 2 and m[0][1] == 1:
                a = self.ctx.atoms[m[0][0]]
                if a.kind == "draw" and not a.data.normal and (x - self.ctx.of_atom(a) * 2 + 1).is_zero():
                    z = self.normal_of(a)
                    return z / self.ctx.sqrt_rational(2)
        raise Unsupported("erf_inv outside the normal sampler")

    def b_add(self, x, y):
        if isinstance(x, IntTerm) or isinstance(y, IntTerm):
            return IntTerm(_z(x) + _z(y))
        return x + y

    def b_sub(self, x, y):
        if isinstance(x, IntTerm) or isinstance(y, IntTerm):
            return IntTerm(_z(x) - _z(y))
        return x - y

    def b_mul(self, x, y):
        if isinstance(x, IntTerm) or isinstance(y, IntTerm):
            return IntTerm(_z(x) * _z(y))
        return x * y

    b_add_any = b_add

    def b_div(self, x, y):
        if isinstance(x, IntTerm) or isinstance(y, IntTerm):
            return IntTerm(_trunc_div(_z(x), _z(y)))
        return x / y

    def b_rem(self, x, y):
        if isinstance(x, IntTerm) or isinstance(y, IntTerm):
            xz, yz = _z(x), _z(y)
            return IntTerm(xz - yz * _trunc_div(xz, yz))
        raise Unsupported("float rem")

    def b_max(self, x, y):
        if isinstance(x, IntTerm) or isinstance(y, IntTerm):
            import z3
            return IntTerm(z3.If(_z(x) >= _z(y), _z(x), _z(y)))
        return self.ite(Cond.cmp("lt", x, y), y, x)

    def b_min(self, x, y):
        if isinstance(x, IntTerm) or isinstance(y, IntTerm):
            import z3
            return IntTerm(z3.If(_z(x) <= _z(y), _z(x), _z(y)))
        return self.ite(Cond.cmp("lt", x, y), x, y)

    def b_pow(self, x, y):
        if not isinstance(y, Value):
            return x ** int(y)
        if not y.is_const():
            raise Unsupported("pow with symbolic exponent")
        return x ** Fraction(y.const_value())

    def b_atan2(self, x, y):
        return self.ctx.uf(("atan2",), [x, y], "atan2", data=lambda a, b: math.atan2(a, b))

    def _cmp(self, op, x, y):
        if isinstance(x, (IntTerm,)) or isinstance(y, IntTerm):
            a, b = _z(x), _z(y)
            return ZCond({"lt": lambda: a < b, "le": lambda: a <= b, "eq": lambda: a == b}[op]())
        if isinstance(x, (ZCond, Cond)) or isinstance(y, (ZCond, Cond)):
            if op != "eq":
                raise Unsupported("order on booleans")
            return c_or(c_and(x, y), c_and(c_not(x), c_not(y)))
        if isinstance(x, Value) or isinstance(y, Value):
            return Cond.cmp(op, x, y)
        return {"lt": x < y, "le": x <= y, "eq": x == y}[op]

    def b_lt(self, x, y):
        return self._cmp("lt", x, y)

    def b_le(self, x, y):
        return self._cmp("le", x, y)

    def b_gt(self, x, y):
        return self._cmp("lt", y, x)

    def b_ge(self, x, y):
        return self._cmp("le", y, x)

    def b_eq(self, x, y):
        return self._cmp("eq", x, y)

    def b_ne(self, x, y):
        c = self._cmp("eq", x, y)
        return self.u_not(c)

    b_eq_to = b_eq

    def b_and(self, x, y):
        if isinstance(x, ZCond) or isinstance(y, ZCond):
            import z3
            return ZCond(z3.And(_zb(x), _zb(y)))
        return c_and(x, y)

    def b_or(self, x, y):
        if isinstance(x, Bits) or isinstance(y, Bits):
            b, c = (x, y) if isinstance(x, Bits) else (y, x)
            one = {64: 0x3ff0000000000000, 32: 0x3f800000}[b.width]
            if b.stage == 1 and int(c) == one:
                return Bits(b.key, b.shape, b.idx, b.width, 2)
            raise Unsupported("random bits used outside the uniform sampler")
        if isinstance(x, ZCond) or isinstance(y, ZCond):
            import z3
            return ZCond(z3.Or(_zb(x), _zb(y)))
        return c_or(x, y)

    def b_shift_right_logical(self, x, y):
        if isinstance(x, Bits):
            if x.stage == 0 and int(y) == {64: 12, 32: 9}[x.width]:
                return Bits(x.key, x.shape, x.idx, x.width, 1)
        raise Unsupported("shift on random bits outside the uniform sampler")

    def u_bitcast_convert_type(self, x):
        if isinstance(x, Bits) and x.stage == 2:
            return self.uniform(x) + 1
        raise Unsupported("bitcast")

    def p_clamp(self, eqn, ins):
        lo, x, hi = ins
        if not any(is_obj(i) for i in ins):
            return self.concrete(eqn, ins)
        lo, x, hi = np.broadcast_arrays(*[self._o(i) for i in ins])
        return [oarr(x.shape, (self.b_min(self.b_max(b, a), c) for a, b, c in
                               zip(lo.reshape(-1), x.reshape(-1), hi.reshape(-1))))]

    def p_integer_pow(self, eqn, ins):
        y = eqn.params["y"]
        a = ins[0]
        if not is_obj(a):
            return self.concrete(eqn, ins)
        return [oarr(a.shape, (x ** y for x in a.reshape(-1)))]

    def p_convert_element_type(self, eqn, ins):
        a = ins[0]
        new = np.dtype(eqn.params["new_dtype"]) if not hasattr(eqn.params["new_dtype"], "name") else eqn.params["new_dtype"]
        fl = jnp.issubdtype(new, jnp.floating) or jnp.issubdtype(new, jnp.complexfloating)
        if not is_obj(a):
            if fl:
                return [oarr(a.shape, (self.ctx.const(int(x)) for x in a.reshape(-1)))]
            return self.concrete(eqn, ins)
        el = a.reshape(-1)
        if fl:
            def cv(x):
                if isinstance(x, Value):
                    return x
                if isinstance(x, Cond):
                    return self.ctx.ite(x, self.ctx.one, self.ctx.zero)
                if isinstance(x, (bool, int, np.bool_, np.integer)):
                    return self.ctx.const(int(x))
                raise Unsupported("int->float of symbolic integer")
            return [oarr(a.shape, (cv(x) for x in el))]
        if jnp.issubdtype(new, jnp.integer):
            def ci(x):
                if isinstance(x, (IntTerm, Bits, KeyElem)):
                    return x
                if isinstance(x, ZCond):
                    import z3
                    return IntTerm(z3.If(x.z, z3.IntVal(1), z3.IntVal(0)))
                if isinstance(x, Value) and x.is_const():
                    return int(x.const_value())      # truncation
                if isinstance(x, (bool, np.bool_, int, np.integer)):
                    return int(x)
                raise Unsupported("float->int of a symbolic value")
            return [self._maybe_concrete(oarr(a.shape, (ci(x) for x in el)), eqn.outvars[0].aval)]
        if new == np.bool_:
            def cb(x):
                if isinstance(x, Value):
                    return c_not(Cond.cmp("eq", x, self.ctx.zero))
                if isinstance(x, IntTerm):
                    return ZCond(x.z != 0)
                return x
            return [self._maybe_concrete(oarr(a.shape, (cb(x) for x in el)), eqn.outvars[0].aval)]
        raise Unsupported(f"convert to {new}")

    def p_iota(self, eqn, ins):
        p = eqn.params
        a = np.asarray(jax.lax.broadcasted_iota(jnp.int32, p["shape"], p["dimension"]))
        if jnp.issubdtype(p["dtype"], jnp.floating):
            return [oarr(a.shape, (self.ctx.const(int(x)) for x in a.reshape(-1)))]
        return [a.astype(p["dtype"])]

    def p_stop_gradient(self, eqn, ins):
        return [ins[0]]

    # ------------------------------------------------------------ uf
    def p_uf(self, ins, name, deriv):
        arrs = np.broadcast_arrays(*[self._o(i) for i in ins])
        flat = [a.reshape(-1) for a in arrs]
        shp = arrs[0].shape
        dn = "".join(map(str, deriv)) if any(deriv) else ""
        label = name + ("_" + dn if dn else "")

        def app(args):
            if any(x.has_nan() for x in args):
                return self.ctx.nan()
            sh = lambda *xs: float(shadow(np, name, deriv, xs))
            return self.ctx.uf(("uf", name, deriv), list(args), label, data=sh)

        return oarr(shp, (app(t) for t in zip(*flat)))

    # ------------------------------------------------------------ reductions / contractions
    def _reduce(self, eqn, ins, f, init):
        a = ins[0]
        if not is_obj(a):
            return self.concrete(eqn, ins)
        axes = tuple(eqn.params["axes"])
        keep = [i for i in range(a.ndim) if i not in axes]
        b = np.transpose(a, keep + list(axes)).reshape([a.shape[i] for i in keep] + [-1])
        out = np.empty(b.shape[:-1], dtype=object)
        for idx in np.ndindex(*b.shape[:-1]):
            acc = init
            for x in b[idx]:
                acc = x if acc is None else f(acc, x)
            out[idx] = acc
        return [self._maybe_concrete(out, eqn.outvars[0].aval)]

    def p_reduce_sum(self, eqn, ins):
        return self._reduce(eqn, ins, self.b_add, self.ctx.zero if is_float_aval(eqn.outvars[0].aval) else 0)

    def p_reduce_prod(self, eqn, ins):
        return self._reduce(eqn, ins, self.b_mul, self.ctx.one if is_float_aval(eqn.outvars[0].aval) else 1)

    def p_reduce_max(self, eqn, ins):
        return self._reduce(eqn, ins, self.b_max, None)

    def p_reduce_min(self, eqn, ins):
        return self._reduce(eqn, ins, self.b_min, None)

    def p_reduce_and(self, eqn, ins):
        return self._reduce(eqn, ins, self.b_and, True)

    def p_reduce_or(self, eqn, ins):
        return self._reduce(eqn, ins, self.b_or, False)

    def _cum(self, eqn, ins, f):
        a = ins[0]
        if not is_obj(a):
            return self.concrete(eqn, ins)
        ax, rev = eqn.params["axis"], eqn.params["reverse"]
        b = np.moveaxis(a, ax, 0)
        if rev:
            b = b[::-1]
        out = np.empty(b.shape, dtype=object)
        for idx in np.ndindex(*b.shape[1:]):
            acc = None
            for k in range(b.shape[0]):
                x = b[(k,) + idx]
                acc = x if acc is None else f(acc, x)
                out[(k,) + idx] = acc
        if rev:
            out = out[::-1]
        return [np.moveaxis(out, 0, ax)]

    def p_cumsum(self, eqn, ins):
        return self._cum(eqn, ins, self.b_add)

    def p_cumprod(self, eqn, ins):
        return self._cum(eqn, ins, self.b_mul)

    def p_dot_general(self, eqn, ins):
        (lc, rc), (lb, rb) = eqn.params["dimension_numbers"]
        a, b = self._o(ins[0]), self._o(ins[1])
        if not is_obj(ins[0]) and not is_obj(ins[1]):
            return self.concrete(eqn, ins)
        fl = is_float_aval(eqn.outvars[0].aval) or jnp.issubdtype(eqn.outvars[0].aval.dtype, jnp.complexfloating)
        if fl:
            a = oarr(a.shape, (x if isinstance(x, Value) else self.ctx.const(int(x)) for x in a.reshape(-1)))
            b = oarr(b.shape, (x if isinstance(x, Value) else self.ctx.const(int(x)) for x in b.reshape(-1)))
        lf = [i for i in range(a.ndim) if i not in lc and i not in lb]
        rf = [i for i in range(b.ndim) if i not in rc and i not in rb]
        A = np.transpose(a, list(lb) + lf + list(lc))
        B = np.transpose(b, list(rb) + rf + list(rc))
        bs = [a.shape[i] for i in lb]
        ls = [a.shape[i] for i in lf]
        rs = [b.shape[i] for i in rf]
        A = A.reshape(int(np.prod(bs, dtype=int)), int(np.prod(ls, dtype=int)), -1)
        B = B.reshape(int(np.prod(bs, dtype=int)), int(np.prod(rs, dtype=int)), -1)
        out = np.empty((A.shape[0], A.shape[1], B.shape[1]), dtype=object)
        zero = self.ctx.zero if fl else 0
        for n in range(A.shape[0]):
            for i in range(A.shape[1]):
                for j in range(B.shape[1]):
                    acc = zero
                    for k in range(A.shape[2]):
                        x, y = A[n, i, k], B[n, j, k]
                        if fl:
                            if x.t and y.t or x.has_nan() or y.has_nan():
                                acc = acc + x * y
                        else:
                            acc = acc + x * y
                    out[n, i, j] = acc
        return [out.reshape(bs + ls + rs)]

    def p_scatter_add(self, eqn, ins):
        op, idx, upd = ins
        if not any(is_obj(i) for i in ins):
            return self.concrete(eqn, ins)
        if is_obj(idx):
            raise Unsupported("symbolic scatter index")
        op, upd = self._o(op), self._o(upd)
        subfuns, bp = eqn.primitive.get_bind_params(eqn.params)
        n = upd.size
        out = op.copy()
        zeros = jnp.zeros(op.shape, jnp.float32)
        for k in range(n):
            u = np.zeros(n, np.float32)
            u[k] = 1
            r = np.asarray(eqn.primitive.bind(*subfuns, zeros, jnp.asarray(idx), jnp.asarray(u.reshape(upd.shape)), **bp))
            for pos in zip(*np.nonzero(r)):
                out[pos] = out[pos] + upd.reshape(-1)[k]
        return [out]

    p_scatter_add_ = p_scatter_add

    # ------------------------------------------------------------ control flow
    def p_pjit(self, eqn, ins):
        name = eqn.params["name"]
        cj = eqn.params["jaxpr"]
        if name in ("expm", "_sqrtm"):
            avals = [v.aval for v in eqn.invars]
            try:
                same = canon_jaxpr(name, avals) == str(cj)
            except Exception:
                same = False
            if same:
                self.stubs.add("jax.scipy.linalg." + name.strip("_"))
                return [self.batched(ins[0], 2, self.expm if name == "expm" else self.sqrtm)]
        return self.eval_jaxpr(cj.jaxpr, [self.lift(np.asarray(c) if not _is_key(c) else c) for c in cj.consts], ins)

    def _closed(self, cj, ins):
        return self.eval_jaxpr(cj.jaxpr, [self.lift(np.asarray(c) if not _is_key(c) else c) for c in cj.consts], ins)

    def p_closed_call(self, eqn, ins):
        return self._closed(eqn.params["call_jaxpr"], ins)

    def p_core_call(self, eqn, ins):
        return self.eval_jaxpr(eqn.params["call_jaxpr"], [], ins)

    def p_remat2(self, eqn, ins):
        return self.eval_jaxpr(eqn.params["jaxpr"], [], ins)

    p_checkpoint = p_remat2
    p_remat = p_remat2

    def p_custom_jvp_call(self, eqn, ins):
        return self._closed(eqn.params["call_jaxpr"], ins)

    def p_custom_vjp_call_jaxpr(self, eqn, ins):
        return self._closed(eqn.params["fun_jaxpr"], ins)

    def p_custom_vjp_call(self, eqn, ins):
        return self._closed(eqn.params["call_jaxpr"], ins)

    def p_scan(self, eqn, ins):
        p = eqn.params
        nc, nk, L = p["num_consts"], p["num_carry"], p["length"]
        consts, carry, xs = ins[:nc], ins[nc:nc + nk], ins[nc + nk:]
        if nk == 0 and L > 64:
            # a map: the batched body computes the same values at once
            try:
                f = jax.vmap(core.jaxpr_as_fun(p["jaxpr"]), in_axes=[None] * nc + [0] * len(xs))
                avals = [v.aval for v in eqn.invars]
                batched = jax.make_jaxpr(f)(*[jax.ShapeDtypeStruct(a.shape, a.dtype) for a in avals])
            except Exception:
                batched = None
            if batched is not None:
                return self._closed(batched, list(ins))
        ys = None
        order = range(L - 1, -1, -1) if p["reverse"] else range(L)
        slots = [None] * L
        for i in order:
            x = [np.asarray(a[i]) if not is_obj(a) else _idx(a, i) for a in xs]
            outs = self._closed(p["jaxpr"], consts + list(carry) + x)
            carry = outs[:nk]
            slots[i] = outs[nk:]
        res = list(carry)
        for k in range(len(eqn.outvars) - nk):
            aval = eqn.outvars[nk + k].aval
            if L == 0:
                res.append(np.empty(aval.shape, dtype=object if is_float_aval(aval) else aval.dtype))
            else:
                if any(slots[i][k] is POISON for i in range(L)):
                    res.append(POISON)
                    continue
                if any(is_obj(slots[i][k]) for i in range(L)):
                    st = np.empty((L,) + tuple(slots[0][k].shape), dtype=object)
                    for i in range(L):
                        st[i] = self._o(slots[i][k])
                    res.append(st)
                else:
                    res.append(np.stack([slots[i][k] for i in range(L)]))
        return res

    def p_while(self, eqn, ins):
        p = eqn.params
        cn, bn = p["cond_nconsts"], p["body_nconsts"]
        cc, bc, st = ins[:cn], ins[cn:cn + bn], ins[cn + bn:]
        n = 0
        while True:
            c, = self._closed(p["cond_jaxpr"], cc + st)
            if is_obj(c):
                c = c.item() if c.ndim == 0 else None
                if not isinstance(c, (bool, np.bool_)):
                    raise Unsupported("while loop with symbolic condition")
            if not bool(c):
                return st
            st = self._closed(p["body_jaxpr"], bc + st)
            n += 1
            if n > 20000:
                raise Unsupported("while loop bound exceeded")

    def p_cond(self, eqn, ins):
        pred, *ops = ins
        br = eqn.params["branches"]
        if is_obj(pred):
            pv = pred.item()
        else:
            pv = int(pred)
        if isinstance(pv, (int, bool, np.integer, np.bool_)):
            k = min(max(int(pv), 0), len(br) - 1)
            return self._closed(br[k], ops)
        if len(br) != 2:
            raise Unsupported("switch on a symbolic index")
        c = pv
        if isinstance(c, IntTerm):
            c = ZCond(c.z != 0)
        outs = []
        for k, cc in ((0, self.u_not(c)), (1, c)):
            self.pathcond.append(cc)
            outs.append(self._closed(br[k], ops))
            self.pathcond.pop()
        res = []
        for a, b in zip(*outs):
            ao, bo = self._o(a), self._o(b)
            res.append(oarr(ao.shape, (y if (x is y) else self.ite(c, y, x) for x, y in zip(ao.reshape(-1), bo.reshape(-1)))))
        return res

    def p_outside_call(self, eqn, ins):
        p = eqn.params
        self.events.append((p, list(ins), list(self.pathcond)))
        if not p.get("identity", False):
            raise Unsupported("host callback returning a value")
        return list(ins)

    def p_debug_callback(self, eqn, ins):
        self.events.append((eqn.params, list(ins), list(self.pathcond)))
        return []

    # ------------------------------------------------------------ random
    def p_random_wrap(self, eqn, ins):
        a = ins[0]
        if not is_obj(a):
            d = np.asarray(a).reshape(-1, a.shape[-1])
            return [oarr(a.shape[:-1], (KeyTerm(("concrete", tuple(int(v) for v in r))) for r in d))]
        d = a.reshape(-1, a.shape[-1])
        out = []
        for r in d:
            if not (isinstance(r[0], KeyElem) and isinstance(r[1], KeyElem) and r[0].k == r[1].k
                    and r[0].j == 0 and r[1].j == 1):
                raise Unsupported("key words recombined")
            out.append(r[0].k)
        return [oarr(a.shape[:-1], out)]

    def p_random_unwrap(self, eqn, ins):
        a = ins[0]
        return [oarr(a.shape + (2,), (KeyElem(k, j) for k in a.reshape(-1) for j in (0, 1)))]

    def p_random_split(self, eqn, ins):
        a = ins[0]
        shp = tuple(eqn.params["shape"])
        n = int(np.prod(shp, dtype=int))
        out = []
        for k in a.reshape(-1):
            self.split_keys.append((k, n))
            out.extend(KeyTerm(("split", k, j, n)) for j in range(n))
        return [oarr(a.shape + shp, out)]

    def p_random_fold_in(self, eqn, ins):
        a, d = ins
        if is_obj(d):
            raise Unsupported("symbolic fold_in")
        a, d = np.broadcast_arrays(a, d)
        self.split_keys.extend((k, ("fold", int(m))) for k, m in zip(a.reshape(-1), d.reshape(-1)))
        return [oarr(a.shape, (KeyTerm(("fold", k, int(m))) for k, m in zip(a.reshape(-1), d.reshape(-1))))]

    def p_random_seed(self, eqn, ins):
        a = ins[0]
        if is_obj(a):
            raise Unsupported("symbolic seed")
        return [oarr(a.shape, (KeyTerm(("seed", int(x))) for x in a.reshape(-1)))]

    def p_random_bits(self, eqn, ins):
        a = ins[0]
        shp, w = tuple(eqn.params["shape"]), eqn.params["bit_width"]
        n = int(np.prod(shp, dtype=int))
        out = []
        for k in a.reshape(-1):
            self.consumed.append((k, shp, w))
            out.extend(Bits(k, shp, i, w) for i in range(n))
        return [oarr(a.shape + shp, out)]

    def uniform(self, b):
        key = ("U", b.key, b.shape, b.idx, b.width)
        if key not in self.draw_atoms:
            at = self.ctx.new_atom(f"U[{b.key}:{b.shape}#{b.idx}]", "draw", True,
                                   Draw(self, b.key, b.shape, b.idx, b.width, False))
            self.draw_atoms[key] = at
            self.unif_of_normal[at.id] = b
        return self.ctx.of_atom(self.draw_atoms[key])

    def normal_of(self, ua):
        b = self.unif_of_normal[ua.id]
        key = ("Z", b.key, b.shape, b.idx, b.width)
        if key not in self.draw_atoms:
            self.draw_atoms[key] = self.ctx.new_atom(f"Z[{b.key}:{'x'.join(map(str, b.shape))}#{b.idx}]", "draw", False,
                                                     Draw(self, b.key, b.shape, b.idx, b.width, True))
        return self.ctx.of_atom(self.draw_atoms[key])

    # ------------------------------------------------------------ linear algebra
    def batched(self, a, nd, f):
        a = self._o(a)
        lead = a.shape[:-nd]
        if not lead:
            return f(a)
        out = None
        for idx in np.ndindex(*lead):
            r = f(a[idx])
            if out is None:
                out = np.empty(lead + r.shape, dtype=object)
            out[idx] = r
        return out

    def p_cholesky(self, eqn, ins):
        self.stubs.add("cholesky")
        return [self.batched(ins[0], 2, self.cholesky)]

    def cholesky(self, A):
        n = A.shape[0]
        c = self.ctx
        L = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                L[i, j] = c.zero
        for j in range(n):
            s = A[j, j]
            for k in range(j):
                s = s - L[j, k] * L[j, k]
            s = s.simp()
            if s.is_zero():
                # LAPACK potrf reports failure on a non-positive pivot, JAX turns it into NaN
                for a in range(n):
                    for b in range(a + 1):
                        L[a, b] = c.nan()
                return L
            d = c.sqrt(s)
            L[j, j] = d
            dinv = c.inv(d)
            for i in range(j + 1, n):
                s = A[i, j]
                for k in range(j):
                    s = s - L[i, k] * L[j, k]
                L[i, j] = _s(s * dinv)
        return L

    def p_triangular_solve(self, eqn, ins):
        p = eqn.params
        a, b = self._o(ins[0]), self._o(ins[1])
        lead = a.shape[:-2]
        out = np.empty(b.shape, dtype=object)
        for idx in np.ndindex(*lead):
            out[idx] = self.trsolve(a[idx], b[idx], p)
        return [out]

    def trsolve(self, A, B, p):
        c = self.ctx
        lower = p["lower"]
        left = p["left_side"]
        if p["transpose_a"]:
            A = A.T
            lower = not lower
        if not left:
            A = A.T
            lower = not lower
            B = B.T
        n = A.shape[0]
        X = np.empty(B.shape, dtype=object)
        rng = range(n) if lower else range(n - 1, -1, -1)
        for i in rng:
            di = c.one if p["unit_diagonal"] else c.inv(A[i, i])
            for j in range(B.shape[1]):
                s = B[i, j]
                for k in (range(i) if lower else range(i + 1, n)):
                    if A[i, k].t and X[k, j].t or A[i, k].has_nan() or X[k, j].has_nan():
                        s = s - A[i, k] * X[k, j]
                X[i, j] = _s(s * di)
        return X if left else X.T

    def p_custom_linear_solve(self, eqn, ins):
        cl = eqn.params["const_lengths"]
        jx = eqn.params["jaxprs"]
        pos = 0
        parts = {}
        for nm in ("matvec", "vecmat", "solve", "transpose_solve"):
            n = getattr(cl, nm)
            parts[nm] = ins[pos:pos + n]
            pos += n
        b = ins[pos:]
        r = self.solve_contract(jx.matvec, parts["matvec"], b)
        if r is not None:
            return r
        return self._closed(jx.solve, list(parts["solve"]) + list(b))

    def solve_contract(self, matvec, consts, b):
        """x with A x = b for a small symmetric A (Cholesky or LU alike): adjugate over determinant."""
        if matvec is None or len(b) != 1 or not is_obj(b[0]):
            return None
        B0 = self._o(b[0])
        c = self.ctx
        for axis in ((0,) if B0.ndim == 1 else (1, 0)):
            if B0.ndim not in (1, 2) or not 2 <= B0.shape[axis] <= 3:
                continue
            A = self.matrix_of(matvec, consts, B0.shape, axis)
            if A is not None:
                break
        else:
            return None
        n = A.shape[0]
        B = B0[:, None] if B0.ndim == 1 else (B0 if axis == 0 else B0.T)
        for i in range(n):
            for j in range(i):
                if not A[i, j].eq(A[j, i]):
                    return None
        if any(x.has_nan() for x in A.reshape(-1)):
            return None

        def det(M):
            if M.shape[0] == 1:
                return M[0, 0]
            acc = c.zero
            for j in range(M.shape[0]):
                if M[0, j].t:
                    acc = acc + M[0, j] * det(np.delete(np.delete(M, 0, 0), j, 1)) * ((-1) ** j)
            return acc

        if all(not A[i, j].t for i in range(n) for j in range(n) if i != j):
            if any(A[i, i].is_zero() for i in range(n)):
                return None
            inv = np.empty((n, n), dtype=object)
            inv.fill(c.zero)
            for i in range(n):
                inv[i, i] = c.inv(A[i, i])
        else:
            d = det(A).simp()
            if d.is_zero():
                return None
            di = c.inv(d)
            inv = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(n):
                    inv[i, j] = det(np.delete(np.delete(A, j, 0), i, 1)) * ((-1) ** (i + j)) * di
        self.stubs.add("symmetric linear solve")
        X = _mm(c, inv, B)
        return [X[:, 0] if B0.ndim == 1 else (X if axis == 0 else X.T)]

    def matrix_of(self, matvec, consts, shape, axis):
        """A such that the linear map acts as A on the given axis and identically on the other."""
        c = self.ctx
        n = shape[axis]
        k = 1 if len(shape) == 1 else shape[1 - axis]
        A = np.empty((n, n), dtype=object)
        for q in range(k):
            for j in range(n):
                e = np.empty(shape, dtype=object)
                e.fill(c.zero)
                e[(j,) if len(shape) == 1 else ((j, q) if axis == 0 else (q, j))] = c.one
                try:
                    col = self._o(self._closed(matvec, list(consts) + [e])[0])
                except Unsupported:
                    return None
                col = col[:, None] if len(shape) == 1 else (col if axis == 0 else col.T)
                for i in range(n):
                    for r in range(k):
                        v = col[i, r]
                        if r != q:
                            if v.t:
                                return None
                        elif q == 0:
                            A[i, j] = v
                        elif v.t != A[i, j].t:
                            return None
        return A

    # ---- spectral factors of a symmetric positive semi-definite P: P = F F^T with F = U sqrt(s)
    def p_svd(self, eqn, ins):
        self.stubs.add("svd")
        if not eqn.params["compute_uv"]:
            raise Unsupported("svd without vectors")
        a = self._o(ins[0])
        if a.ndim != 2 or a.shape[0] != a.shape[1]:
            raise Unsupported("svd of a stack or a rectangular matrix")
        U, sv = self.spectral(a, True)
        return [sv, U, oarr(U.shape, U.T.reshape(-1))]

    def p_eigh(self, eqn, ins):
        self.stubs.add("eigh")
        a = self._o(ins[0])
        if a.ndim != 2:
            raise Unsupported("eigh of a stack")
        U, sv = self.spectral(a, False)
        return [U, sv]

    def spectral(self, P, desc):
        """(U, s) with U diag(s) U^T = P; the columns of F = U sqrt(s) are unknowns related by F F^T = P only."""
        c, n = self.ctx, P.shape[0]
        P = oarr((n, n), (x.simp() for x in P.reshape(-1)))
        for i in range(n):
            for j in range(i):
                if not P[i, j].eq(P[j, i]):
                    raise Unsupported("spectral factors of a non-symmetric matrix")
        if n == 1:
            c.nonneg.append(P[0, 0])
            return oarr((1, 1), [c.one]), oarr((1,), [P[0, 0]])
        if all(x.is_zero() for x in P.reshape(-1)):
            return oarr((n, n), (c.one if i == j else c.zero for i in range(n) for j in range(n))), oarr((n,), [c.zero] * n)
        for (P0, d0, out) in c.__dict__.setdefault("spectral_memo", []):
            if d0 == desc and P0.shape == P.shape and all(x.eq(y) for x, y in zip(P0.reshape(-1), P.reshape(-1))):
                return out
        memo = {}

        def numeric(pt):
            if pt not in memo:
                M = np.array([[float(np.real(x.num(pt))) for x in r] for r in P])
                if desc:
                    u, w, _ = np.linalg.svd(M)
                else:
                    w, u = np.linalg.eigh(M)
                memo[pt] = u * np.sqrt(np.maximum(w, 0)), np.maximum(w, 0)[:, None]
            return memo[pt]

        F = np.empty((n, n), dtype=object)
        ids = {}
        for i in range(n):
            for k in range(n):
                at = c.new_atom(f"eig{i}{k}", "sqrtm", False, _MatNum(lambda pt: numeric(pt)[0], i, k))
                F[i, k], ids[i, k] = c.of_atom(at), at.id
        sv = []
        for k in range(n):
            at = c.new_atom(f"eigval{k}", "sqrtm", True, _MatNum(lambda pt: numeric(pt)[1], k, 0))
            sv.append(at)
        for i in range(n):
            for j in range(i, n):
                rhs = P[i, j]
                for k in range(n - 1):
                    rhs = rhs - F[i, k] * F[j, k]
                a, b = ids[i, n - 1], ids[j, n - 1]
                c.pair_ids.update((a, b))
                c.pair_rules[(min(a, b), max(a, b))] = rhs
        U = oarr((n, n), (F[i, k] * Value(c, {((sv[k].id, Fraction(-1, 2)),): 1}) for i in range(n) for k in range(n)))
        out = U, oarr((n,), [c.of_atom(a) for a in sv])
        c.spectral_memo.append((P, desc, out))
        return out

    def p_qr(self, eqn, ins):
        self.stubs.add("qr")
        full = eqn.params["full_matrices"]
        r = self.batched(ins[0], 2, lambda A: self.qr_r(A, full))
        return [POISON, r]

    def qr_r(self, A, full):
        """All R with R^T R = A^T A, R upper trapezoidal (Householder/Givens contract)."""
        c = self.ctx
        m, n = A.shape
        k = min(m, n)
        rows = m if full else k
        R = np.empty((rows, n), dtype=object)
        for i in range(rows):
            for j in range(n):
                R[i, j] = c.zero
        G = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(i, n):
                acc = c.zero
                for t in range(m):
                    acc = acc + A[t, i] * A[t, j]
                G[i, j] = G[j, i] = acc
        memo = {}
        A = oarr(A.shape, (x.simp() for x in A.reshape(-1)))
        qkey = (rows, A.shape, tuple(frozenset(x.t.items()) for x in A.reshape(-1)))
        done = c.__dict__.setdefault("qr_memo", {})
        if qkey in done:
            return done[qkey]       # deterministic: same argument, same signs
        done[qkey] = R

        def numeric(pt):
            if pt not in memo:
                memo[pt] = np.linalg.qr(np.array([[float(np.real(x.num(pt))) for x in r] for r in A]), mode="r")
            return memo[pt]

        for i in range(k):
            s = G[i, i]
            for t in range(i):
                s = s - R[t, i] * R[t, i]
            s = s.simp()
            if s.is_zero():
                # zero pivot: the remaining row is not determined by the contract
                for j in range(i + 1, n):
                    resid = G[j, j]
                    for t in range(i):
                        resid = resid - R[t, j] * R[t, j]
                    if resid.is_zero():
                        continue
                    at = c.new_atom("qrfree", "sqrtm", False, _QRNum(numeric, i, j, False))
                    R[i, j] = c.of_atom(at)
                continue
            e = c.sign_atom()
            c.atoms[max(e.atom_ids())].data = _QRNum(numeric, i, i, True)
            d = c.sqrt(s)
            R[i, i] = e * d
            di = c.inv(d) * e
            for j in range(i + 1, n):
                s = G[i, j]
                for t in range(i):
                    s = s - R[t, i] * R[t, j]
                R[i, j] = _s(s * di)
        return R

    def p_lu(self, eqn, ins):
        """LU with the identity permutation: exact in real arithmetic when all pivots are nonzero."""
        self.stubs.add("lu")
        a = self._o(ins[0])
        lead = a.shape[:-2]
        n = a.shape[-1]
        c = self.ctx
        out = np.empty(a.shape, dtype=object)
        for idx in np.ndindex(*lead):
            U = a[idx].copy()
            for k in range(n):
                for i in range(k + 1, n):
                    U[i, k] = _s(U[i, k] * c.inv(U[k, k]))
                    for j in range(k + 1, n):
                        U[i, j] = _s(U[i, j] - U[i, k] * U[k, j])
            out[idx] = U
        piv = np.broadcast_to(np.arange(n, dtype=np.int32), lead + (n,)).copy()
        return [out, piv, piv.copy()]

    # ---- matrix functions (contracts)
    def expm(self, M):
        n = M.shape[0]
        c = self.ctx
        eye = _eye(c, n)
        diag0 = M[0, 0]
        # M = lam*I + Nil ?
        lam = diag0
        tr = c.zero
        for i in range(n):
            tr = tr + M[i, i]
        for lamc in ([c.zero] if tr.is_zero() else [(tr / n).simp()]):
            Nn = M.copy()
            for i in range(n):
                Nn[i, i] = (M[i, i] - lamc).simp()
            P = eye
            S = eye.copy()
            term = eye
            ok = False
            for k in range(1, n + 1):
                term = _mm(c, term, Nn)
                if all(x.is_zero() for x in term.reshape(-1)):
                    ok = True
                    break
                if k == n:
                    break
                for i in range(n):
                    for j in range(n):
                        term[i, j] = (term[i, j] / k).simp()
                        S[i, j] = S[i, j] + term[i, j]
            if ok:
                e = c.exp(lamc)
                return oarr((n, n), (_s(x * e) for x in S.reshape(-1)))
        # [[N, v], [0, a]] with N nilpotent: last column (a - N)^{-1} (e^a - e^N) v
        a = M[n - 1, n - 1].simp()
        if n >= 2 and a.t and all(not M[n - 1, j].t for j in range(n - 1)):
            Nn, v = M[:n - 1, :n - 1], M[:n - 1, n - 1]
            pows = [_eye(c, n - 1)]
            for k in range(1, n):
                pows.append(_mm(c, pows[-1], Nn))
            if all(x.is_zero() for x in pows[n - 1].reshape(-1)):
                e, ai = c.exp(a), c.inv(a)
                E = _eye(c, n - 1)
                R = oarr((n - 1, n - 1), (x * ai for x in pows[0].reshape(-1)))
                f, w = 1, ai
                for k in range(1, n - 1):
                    f *= k
                    w = w * ai
                    E = oarr(E.shape, (x + y * Fraction(1, f) for x, y in zip(E.reshape(-1), pows[k].reshape(-1))))
                    R = oarr(R.shape, (x + y * w for x, y in zip(R.reshape(-1), pows[k].reshape(-1))))
                D = oarr(E.shape, ((e if i // (n - 1) == i % (n - 1) else c.zero) - x for i, x in enumerate(E.reshape(-1))))
                col = _mm(c, R, _mm(c, D, v[:, None]))
                out = np.empty((n, n), dtype=object)
                out.fill(c.zero)
                out[:n - 1, :n - 1] = E
                out[:n - 1, n - 1] = [_s(x) for x in col[:, 0]]
                out[n - 1, n - 1] = e
                return out
        # otherwise opaque but functional
        args = [x.simp() for x in M.reshape(-1)]
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                def num(*xs, i=i, j=j):
                    import scipy.linalg as sl
                    return float(sl.expm(np.array(xs, dtype=float).reshape(n, n))[i, j])
                out[i, j] = c.uf(("expm", n, i, j), args, f"expm{i}{j}", data=num)
        return out

    def sqrtm(self, P):
        n = P.shape[0]
        c = self.ctx
        P = oarr((n, n), (x.simp() for x in P.reshape(-1)))
        for i in range(n):
            for j in range(i):
                if not P[i, j].eq(P[j, i]):
                    return self._sqrtm_general(P)
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                out[i, j] = c.zero
        seen = set()
        for s in range(n):
            if s in seen:
                continue
            comp = [s]
            seen.add(s)
            for a in comp:
                for b in range(n):
                    if b not in seen and not P[a, b].is_zero():
                        seen.add(b)
                        comp.append(b)
            comp.sort()
            sub = P[np.ix_(comp, comp)]
            R = self._sqrtm_block(sub)
            for x, a in enumerate(comp):
                for y, b in enumerate(comp):
                    out[a, b] = R[x, y]
        return out

    def _sqrtm_general(self, P):
        """Principal root of a matrix that is not symmetric: an unconstrained function of the entries."""
        n = P.shape[0]

        def num(*xs, i, j):
            import scipy.linalg as sl
            return float(np.real(sl.sqrtm(np.array([np.real(x) for x in xs], dtype=float).reshape(n, n))[i, j]))
        args = list(P.reshape(-1))
        return oarr((n, n), (self.ctx.uf(("sqrtmg", n, i, j), args, f"sqrtmg{i}{j}", data=functools.partial(num, i=i, j=j))
                             for i in range(n) for j in range(n)))

    def _sqrtm_block(self, P):
        c = self.ctx
        n = P.shape[0]
        if n == 1:
            return oarr((1, 1), [c.sqrt(P[0, 0])])
        if n == 2:
            det = (P[0, 0] * P[1, 1] - P[0, 1] * P[0, 1]).simp()
            sd = c.sqrt(det)
            den = c.inv(c.sqrt((P[0, 0] + P[1, 1] + sd * 2).simp()))
            return oarr((2, 2), [_s((P[0, 0] + sd) * den), _s(P[0, 1] * den),
                                 _s(P[0, 1] * den), _s((P[1, 1] + sd) * den)])
        # opaque symmetric square root with the defining quadratic relations as rewrite rules
        for (P0, X0) in c.__dict__.setdefault("sqrtm_memo", []):
            if P0.shape == P.shape and all(x.eq(y) for x, y in zip(P0.reshape(-1), P.reshape(-1))):
                return X0
        memo = {}

        def numeric(pt):
            if pt not in memo:
                M = np.array([[float(np.real(x.num(pt))) for x in r] for r in P])
                w, V = np.linalg.eigh(M)
                memo[pt] = (V * np.sqrt(np.maximum(w, 0))) @ V.T
            return memo[pt]

        X = np.empty((n, n), dtype=object)
        ids = {}
        for i in range(n):
            for j in range(i, n):
                at = c.new_atom(f"sq{i}{j}", "sqrtm", False, _MatNum(numeric, i, j))
                X[i, j] = X[j, i] = c.of_atom(at)
                ids[i, j] = ids[j, i] = at.id
        for i in range(n):
            for j in range(i, n):
                rhs = P[i, j]
                for k in range(n - 1):
                    rhs = rhs - X[i, k] * X[j, k]
                a, b = ids[i, n - 1], ids[j, n - 1]
                c.pair_ids.add(a)
                c.pair_ids.add(b)
                c.pair_rules[(min(a, b), max(a, b))] = rhs
        c.__dict__["sqrtm_memo"].append((P, X))
        return X


class _QRNum:
    def __init__(self, numeric, i, j, sign):
        self.numeric, self.i, self.j, self.sign = numeric, i, j, sign

    def __call__(self, pt):
        v = float(self.numeric(pt)[self.i, self.j])
        return (1.0 if v >= 0 else -1.0) if self.sign else v


class _MatNum:
    def __init__(self, numeric, i, j):
        self.numeric, self.i, self.j = numeric, i, j

    def __call__(self, pt):
        return float(self.numeric(pt)[self.i, self.j])


def _s(v):
    return v.simp() if len(v.t) > 1 else v


def _mm(c, A, B):
    n, k, m = A.shape[0], A.shape[1], B.shape[1]
    out = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            acc = c.zero
            for t in range(k):
                if A[i, t].t and B[t, j].t:
                    acc = acc + A[i, t] * B[t, j]
            out[i, j] = acc
    return out


def _eye(c, n):
    return oarr((n, n), (c.one if i == j else c.zero for i in range(n) for j in range(n)))


def _idx(a, i):
    r = a[i]
    if not isinstance(r, np.ndarray):
        r = oarr((), [r])
    return r


def _is_key(c):
    return hasattr(c, "dtype") and jnp.issubdtype(c.dtype, jax.dtypes.prng_key)


def _z(x):
    if isinstance(x, IntTerm):
        return x.z
    import z3
    return z3.IntVal(int(x))


def _zb(x):
    import z3
    if isinstance(x, ZCond):
        return x.z
    return z3.BoolVal(bool(x))


def _trunc_div(a, b):
    """C-style truncated division on z3 integers (lax.div on ints)."""
    import z3
    q = z3.If(a >= 0, a, -a) / z3.If(b >= 0, b, -b)
    return z3.If((a >= 0) == (b >= 0), q, -q)


# name -> None (all operands are data) or (first index operand, end function)
MOVES = {
    "broadcast_in_dim": None, "reshape": None, "transpose": None, "slice": None,
    "concatenate": None, "squeeze": None, "expand_dims": None, "rev": None, "pad": None,
    "copy": None, "dynamic_slice": (1, lambda n: n), "dynamic_update_slice": (2, lambda n: n),
    "gather": (1, lambda n: 2), "scatter": (1, lambda n: 2), "device_put": None, "copy_p": None,
    "optimization_barrier": None,
}
UNARY = {n[2:] for n in dir(Interp) if n.startswith("u_")}
BINARY = {n[2:] for n in dir(Interp) if n.startswith("b_")}
