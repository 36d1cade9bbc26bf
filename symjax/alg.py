"""Exact symbolic real algebra: values are polynomials over Q in *atoms*.

Atoms: free inputs, uninterpreted-function applications, random draws, square
roots (s >= 0, s*s == radicand), reciprocals (i*p == 1), exponentials, if-then-else
joins, sign atoms (e*e == 1), and principal matrix-square-root entries.
Every atom carries the defining constraints that the SMT query asserts for it.
"""
from fractions import Fraction
import cmath
import math


class Unsupported(Exception):
    pass


class Atom:
    __slots__ = ("id", "name", "kind", "pos", "data", "deps")

    def __init__(self, id, name, kind, pos=False, data=None):
        self.id = id
        self.name = name
        self.kind = kind
        self.pos = pos
        self.data = data
        self.deps = None

    def __repr__(self):
        return self.name


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class TimeUp(BaseException):
    """A harness used up its time budget (raised from the alarm handler)."""


# Fallback mode: when the exact normal form of a harness explodes (it never does on the unchanged tree), the harness is
# run again with FOLD set, and any intermediate value with more terms than that becomes an opaque real.  An opaque real
# is unconstrained for the solver, so `unsat` still covers every value; `sat` only nominates points for the replay.
FOLD = None

PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47]


class Ctx:
    """Atom table + numeric sample points + side conditions for one harness."""

    def __init__(self):
        self.atoms = []
        self.special = {}        # atom id -> ('sqrt'|'prime'|'sign')
        self.pair_rules = {}     # (id,id) -> Value for sqrtm monomials
        self.pair_ids = set()
        self.by_name = {}
        self.inv_table = {}
        self.opq_table = {}
        self.sqrt_table = []
        self.exp_table = {}
        self.uf_exact = {}
        self.uf_table = {}       # key -> list of (argvals, atom)
        self.ite_table = []
        self.nonzero = []        # Values assumed nonzero (denominators)
        self.nonneg = []         # Values assumed >=0 (radicands)
        self.assumptions = []    # Cond assumed by harness
        self.points = [Point(self, 1)]
        self.nan_atom = None
        self.stats = {"ops": 0}
        self.prime_ids = {}

    # ---- atoms
    def new_atom(self, name, kind, pos=False, data=None):
        base, k = name, 1
        while name in self.by_name:
            k += 1
            name = f"{base}#{k}"
        a = Atom(len(self.atoms), name, kind, pos, data)
        self.atoms.append(a)
        self.by_name[name] = a
        return a

    def var(self, name, pos=False, lo=None, hi=None):
        a = self.new_atom(name, "var", pos, {"lo": lo, "hi": hi})
        return self.of_atom(a)

    def of_atom(self, a, e=1):
        return Value(self, {((a.id, e),): 1})

    def const(self, c):
        if isinstance(c, Value):
            return c
        if isinstance(c, float):
            raise TypeError("use fconst for floats")
        c = _norm(Fraction(c)) if not isinstance(c, int) else c
        return Value(self, {(): c} if c != 0 else {})

    @property
    def zero(self):
        return Value(self, {})

    @property
    def one(self):
        return Value(self, {(): 1})

    def nan(self):
        if self.nan_atom is None:
            self.nan_atom = self.new_atom("NaN", "nan")
        return self.of_atom(self.nan_atom)

    def prime(self, p):
        if p not in self.prime_ids:
            a = self.new_atom(f"prime{p}", "prime", True, p)
            self.prime_ids[p] = a.id
            self.special[a.id] = "prime"
        return self.prime_ids[p]

    # ---- square roots
    def sqrt_rational(self, q):
        """sqrt of a nonnegative rational, exact."""
        q = Fraction(q)
        if q < 0:
            return self.nan()
        if q == 0:
            return self.zero
        n = q.numerator * q.denominator
        out = Fraction(1, q.denominator)
        mono = {}
        for p in _primes_upto(n):
            e = 0
            while n % p == 0:
                n //= p
                e += 1
            out *= p ** (e // 2)
            if e % 2:
                mono[self.prime(p)] = Fraction(1, 2)
        if n > 1:
            r = math.isqrt(n)
            if r * r == n:
                out *= r
            else:
                mono[self.prime(n)] = Fraction(1, 2)   # n is cofactor treated as a 'prime'
        return Value(self, {tuple(sorted(mono.items())): _norm(out)})

    def sqrt(self, v):
        v = v.simp()
        if v.is_zero():
            return self.zero
        if v.has_nan():
            return self.nan()
        if v.is_const():
            return self.sqrt_rational(v.const_value())
        # content extraction
        c, m, rest = v.content()
        out = self.sqrt_rational(c) if c > 0 else None
        if out is None:
            c, out = 1, self.one
            rest = v
            m = ()
        pos_m, keep = [], []
        for (i, e) in m:
            a = self.atoms[i]
            if a.pos and i not in self.special:
                pos_m.append((i, _norm(Fraction(e) / 2)))
            else:
                keep.append((i, e))
        out = out * Value(self, {tuple(pos_m): 1})
        rest = rest * Value(self, {tuple(keep): 1})
        if rest.is_one():
            return out
        for (rv, at) in self.sqrt_table:
            if rv.eq(rest):
                return out * self.of_atom(at)
        a = self.new_atom(f"sqrt{len(self.sqrt_table)}", "sqrt", rest.known_pos(), rest)
        self.sqrt_table.append((rest, a))
        self.special[a.id] = "sqrt"
        self.nonneg.append(rest)
        return out * self.of_atom(a)

    def sign_atom(self):
        a = self.new_atom("sgn", "sign")
        self.special[a.id] = "sign"
        return self.of_atom(a)

    # ---- exp / unary functions
    def exp(self, v):
        v = v.simp()
        if v.has_nan():
            return self.nan()
        out = self.one
        for m, c in v.t.items():
            if m not in self.exp_table:
                nm = "E[" + mono_str(self, m) + "]"
                a = self.new_atom(nm, "exp", True, Value(self, {m: 1}))
                self.exp_table[m] = a
            a = self.exp_table[m]
            out = out * Value(self, {((a.id, c),): 1})
        return out

    def uf(self, key, args, label, pos=False, data=None):
        """Uninterpreted application with congruence (exact argument equality)."""
        exact = self.uf_exact.setdefault(key, {})
        args = [x.simp() for x in args]
        ek = tuple(frozenset(x.t.items()) for x in args)
        if ek in exact:
            return self.of_atom(exact[ek])
        lst = self.uf_table.setdefault(key, [])
        sig = self.sig(args)
        for (av, at, sg) in lst:
            if sg is not None and sig is not None and any(abs(p - q) > 1e-6 * (1 + abs(p)) for p, q in zip(sg, sig)):
                continue
            if len(av) == len(args) and all(x.eq(y) for x, y in zip(av, args)):
                exact[ek] = at
                return self.of_atom(at)
        a = self.new_atom(f"{label}@{len(lst)}", "uf", pos, (key, args, data))
        lst.append((args, a, sig))
        exact[ek] = a
        return self.of_atom(a)

    def sig(self, args):
        out = []
        for x in args:
            v = x.num_scaled(self.points[0])[0]
            if v is None or isinstance(v, complex) and abs(v.imag) > 1e-9:
                return None
            out.append(v.real if isinstance(v, complex) else v)
        return out

    def ite(self, cond, a, b):
        if cond is True:
            return a
        if cond is False:
            return b
        if a.eq(b):
            return a
        for (c2, a2, b2, at) in self.ite_table:
            if c2.same(cond) and a2.eq(a) and b2.eq(b):
                return self.of_atom(at)
        at = self.new_atom(f"ite{len(self.ite_table)}", "ite", a.known_pos() and b.known_pos(),
                           (cond, a, b))
        self.ite_table.append((cond, a, b, at))
        return self.of_atom(at)

    def opaque(self, v):
        if v.has_nan():
            return self.nan()
        key = frozenset(v.t.items())
        if key not in self.opq_table:
            self.opq_table[key] = self.new_atom(f"opq{len(self.opq_table)}", "opq", v.known_pos(), v)
        return self.of_atom(self.opq_table[key])

    # ---- reciprocal
    def inv(self, v):
        if FOLD is not None and len(v.t) > FOLD:
            v = self.opaque(v)
        v = v.simp()
        if v.has_nan():
            return self.nan()
        if v.is_zero():
            return self.nan()
        if len(v.t) == 1:
            (m, c), = v.t.items()
            r = Value(self, {(): _norm(Fraction(1) / Fraction(c))})
            for (i, e) in m:
                k = self.special.get(i)
                if k == "sqrt":
                    r = r * self.of_atom(self.atoms[i]) * self.inv(self.atoms[i].data)
                elif k == "sign":
                    r = r * self.of_atom(self.atoms[i])
                else:
                    if not self.atoms[i].pos and self.atoms[i].kind != "inv":
                        self._note_nonzero(self.of_atom(self.atoms[i]))
                    if self.atoms[i].kind == "inv":
                        r = r * _pow(self.atoms[i].data, e)
                    else:
                        r = r * Value(self, {((i, -e),): 1})
            return r
        N, D = v.clear()
        c, m, rest = N.content()
        out = Value(self, {(): _norm(Fraction(1) / Fraction(c))})
        for (p, k) in D:
            out = out * _pow(p, k)
        mi = Value(self, {m: 1})
        if m:
            out = out * self.inv(mi)
        if rest.is_one():
            return out
        # share factors with known reciprocal bases
        changed = True
        while changed and len(rest.t) > 1:
            changed = False
            for key, at in list(self.inv_table.items()):
                p = at.data
                if 1 < len(p.t) <= len(rest.t):
                    if p.t == rest.t:
                        out = out * self.of_atom(at)
                        return out
                    q = exact_div(rest, p)
                    if q is not None:
                        out = out * self.of_atom(at)
                        rest = q
                        changed = True
                        break
        if len(rest.t) == 1:
            return out * self.inv(rest)
        c, m, rest = rest.content()
        out = out * Value(self, {(): _norm(Fraction(1) / Fraction(c))})
        if m:
            out = out * self.inv(Value(self, {m: 1}))
        # sign-normalise
        lead = max(rest.t)
        if rest.t[lead] < 0:
            rest = -rest
            out = -out
        key = frozenset(rest.t.items())
        if key not in self.inv_table:
            a = self.new_atom(f"inv{len(self.inv_table)}", "inv", rest.known_pos(), rest)
            self.inv_table[key] = a
            self._note_nonzero(rest)
        return out * self.of_atom(self.inv_table[key])

    def _note_nonzero(self, v):
        if v.known_pos():
            return
        for w in self.nonzero:
            if w.t == v.t:
                return
        self.nonzero.append(v)


_PR = None


def _primes_upto(n):
    global _PR
    if _PR is None:
        N = 2000
        s = bytearray([1]) * (N + 1)
        out = []
        for i in range(2, N + 1):
            if s[i]:
                out.append(i)
                s[i * i::i] = bytearray(len(s[i * i::i]))
        _PR = out
    for p in _PR:
        if p * p > n and n < 2 and p > n:
            break
        yield p


def mono_str(ctx, m):
    if not m:
        return "1"
    return "*".join(ctx.atoms[i].name + ("" if e == 1 else f"^{e}") for i, e in m)


def _mmul(a, b):
    if not a:
        return b, False
    if not b:
        return a, False
    d = dict(a)
    hit = False
    for i, e in b:
        if i in d:
            hit = True
            s = d[i] + e
            if type(s) is Fraction and s.denominator == 1:
                s = s.numerator
            if s == 0:
                del d[i]
            else:
                d[i] = s
        else:
            d[i] = e
    return tuple(sorted(d.items())), hit


class Value:
    __slots__ = ("ctx", "t", "_num", "_simp")

    def __init__(self, ctx, t):
        self.ctx = ctx
        self.t = t
        self._num = None
        self._simp = None

    # ---- predicates
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), 0)

    def is_one(self):
        return len(self.t) == 1 and self.t.get((), 0) == 1

    def has_nan(self):
        na = self.ctx.nan_atom
        if na is None:
            return False
        return any(i == na.id for m in self.t for i, _ in m)

    def known_pos(self):
        """Syntactic: strictly positive."""
        if not self.t:
            return False
        for m, c in self.t.items():
            if c <= 0:
                return False
            for i, e in m:
                if not self.ctx.atoms[i].pos:
                    return False
        return True

    def known_nonneg(self):
        for m, c in self.t.items():
            if c < 0:
                return False
            for i, e in m:
                a = self.ctx.atoms[i]
                if not (a.pos or a.kind == "sqrt" or (isinstance(e, int) and e % 2 == 0)):
                    return False
        return True

    def atom_ids(self):
        return {i for m in self.t for i, _ in m}

    # ---- arithmetic
    def __add__(self, o):
        if type(o) is not Value:
            o = self._coerce(o)
            if o is NotImplemented:
                return o
        if not o.t:
            return self
        if not self.t:
            return o
        if len(o.t) > len(self.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            s = t.get(m, 0) + c
            if s == 0:
                t.pop(m, None)
            else:
                t[m] = _norm(s)
        if FOLD is not None and len(t) > 4 * FOLD:
            return self.ctx.opaque(Value(self.ctx, t))
        return Value(self.ctx, t)

    __radd__ = __add__

    def __neg__(self):
        return Value(self.ctx, {m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if type(o) is not Value:
            o = self._coerce(o)
            if o is NotImplemented:
                return o
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        ctx = self.ctx
        if type(o) is not Value:
            o = self._coerce(o)
            if o is NotImplemented:
                return o
        if not self.t or not o.t:
            if ctx.nan_atom is not None and (self.has_nan() or o.has_nan()):
                return ctx.nan()
            return ctx.zero
        if o.is_one():
            return self
        if self.is_one():
            return o
        if FOLD is not None and len(self.t) * len(o.t) > 8 * FOLD:
            a, b = (self, o) if len(self.t) >= len(o.t) else (o, self)
            a = ctx.opaque(a)
            return a * (ctx.opaque(b) if len(b.t) > FOLD else b)
        t = {}
        slow = []
        special, pair_ids = ctx.special, ctx.pair_ids
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, hit = _mmul(m1, m2)
                c = c1 * c2
                need = False
                if special and m and (hit or pair_ids):
                    need = _needs(ctx, m)
                if need:
                    slow.append((m, c))
                    continue
                s = t.get(m, 0) + c
                if s == 0:
                    t.pop(m, None)
                else:
                    t[m] = _norm(s)
        r = Value(ctx, t)
        if slow:
            # aggregate equal monomials first
            agg = {}
            for m, c in slow:
                agg[m] = agg.get(m, 0) + c
            acc = None
            for m, c in agg.items():
                if c == 0:
                    continue
                v = _reduce_mono(ctx, m) * c if c != 1 else _reduce_mono(ctx, m)
                acc = v if acc is None else acc + v
            if acc is not None:
                r = r + acc
        return r

    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) is not Value:
            o = self._coerce(o)
            if o is NotImplemented:
                return o
        if o.is_const():
            c = o.const_value()
            if c == 0:
                return self.ctx.nan()
            return self * self.ctx.const(Fraction(1) / Fraction(c))
        if not self.t:
            if o.is_zero():
                return self.ctx.nan()
            return self
        if len(self.t) == len(o.t) and len(o.t) > 1 and set(self.t) == set(o.t):
            m = next(iter(o.t))
            r = Fraction(self.t[m]) / Fraction(o.t[m])
            if all(self.t[k] == r * o.t[k] for k in o.t):
                self.ctx._note_nonzero(o)
                return self.ctx.const(r)
        r = self * self.ctx.inv(o)
        return r.simp() if len(r.t) > 1 else r

    def __rtruediv__(self, o):
        o = self._coerce(o)
        if o is NotImplemented:
            return o
        return o / self

    def _coerce(self, o):
        if isinstance(o, Value):
            return o
        if hasattr(o, "__array__") and getattr(o, "ndim", 1) > 0 and not hasattr(o, "item"):
            return NotImplemented
        if hasattr(o, "dtype"):
            if getattr(o, "ndim", 0) > 0 or o.dtype == object:
                return NotImplemented
            o = o.item()
        if isinstance(o, float):
            if o != o:
                return self.ctx.nan()
            return self.ctx.const(Fraction(o).limit_denominator(10 ** 9)) if abs(o) < 1e9 else self.ctx.const(Fraction(o))
        return self.ctx.const(o)

    def __pow__(self, e):
        if isinstance(e, int):
            if e < 0:
                return _pow(self.ctx.inv(self), -e)
            return _pow(self, e)
        e = Fraction(e)
        if e.denominator == 1:
            return self ** e.numerator
        v = self.simp()
        if v.is_zero():
            return self.ctx.zero if e > 0 else self.ctx.nan()
        if len(v.t) == 1:
            (m, c), = v.t.items()
            if c > 0 and all(self.ctx.atoms[i].pos and i not in self.ctx.special for i, _ in m):
                base = Value(self.ctx, {tuple((i, _norm(Fraction(x) * e)) for i, x in m): 1})
                if c == 1:
                    return base
                if e.denominator == 2:
                    return base * (self.ctx.sqrt_rational(Fraction(c)) ** e.numerator)
        if e.denominator == 2:
            return self.ctx.sqrt(self) ** e.numerator
        return self.ctx.uf(("powq", e), [v], f"pow{e}", pos=True)

    # ---- normal forms
    def content(self):
        """(rational c, monomial m, rest) with self = c*m*rest; rest has coprime integer coeffs."""
        if not self.t:
            return 1, (), self
        num, den = 0, 1
        for c in self.t.values():
            c = Fraction(c)
            num = math.gcd(num, c.numerator)
            den = den * c.denominator // math.gcd(den, c.denominator)
        cont = Fraction(num, den)
        if all(c < 0 for c in self.t.values()):
            cont = -cont
        it = iter(self.t)
        first = dict(next(it))
        com = dict(first)
        allids = set(first)
        for m in it:
            d = dict(m)
            for i in list(com):
                if i in d:
                    com[i] = min(com[i], d[i])
                else:
                    com[i] = min(com[i], 0)
            for i in d:
                if i not in com and i not in allids:
                    com[i] = min(0, d[i])
            # ids absent earlier behave as exponent 0
            allids |= set(d)
        com = {i: e for i, e in com.items() if e != 0}
        # never pull a special atom out (exponents of those are canonical 0/1)
        com = {i: e for i, e in com.items() if self.ctx.special.get(i) != "prime"}
        m = tuple(sorted(com.items()))
        minv = tuple((i, -e) for i, e in m)
        t = {}
        for k, c in self.t.items():
            kk, _ = _mmul(k, minv)
            t[kk] = _norm(Fraction(c) / cont)
        return _norm(cont), m, Value(self.ctx, t)

    def clear(self):
        """Return (N, [(p,k)]) with self = N / prod p^k and N free of reciprocal atoms."""
        ctx = self.ctx
        cur = self
        D = []
        for _ in range(60):
            mx = {}
            for m in cur.t:
                for i, e in m:
                    if ctx.atoms[i].kind == "inv":
                        if e > mx.get(i, 0):
                            mx[i] = e
            if not mx:
                return cur, D
            powcache = {}
            groups = {}
            for m, c in cur.t.items():
                d = dict(m)
                key = tuple(sorted((i, K - d.pop(i, 0)) for i, K in mx.items()))
                groups.setdefault(key, {})[tuple(sorted(d.items()))] = c
            acc = ctx.zero
            for key, sub in groups.items():
                v = Value(ctx, sub)
                for i, k in key:
                    if k:
                        if (i, k) not in powcache:
                            powcache[(i, k)] = _pow(ctx.atoms[i].data, k)
                        v = v * powcache[(i, k)]
                acc = acc + v
            for i, K in mx.items():
                D.append((ctx.atoms[i].data, K))
            cur = acc
        raise Unsupported("clear did not converge")

    def simp(self):
        """Clear reciprocals, cancel common factors, rebuild."""
        ctx = self.ctx
        if self._simp is not None:
            return self._simp
        if FOLD is not None and len(self.t) > FOLD:
            self._simp = ctx.opaque(self)
            return self._simp
        if not any(ctx.atoms[i].kind == "inv" for m in self.t for i, _ in m):
            self._simp = self
            return self
        N, D = self.clear()
        if not N.t:
            self._simp = N
            return N
        out_inv = ctx.one
        for p, k in D:
            while k > 0 and len(N.t) >= len(p.t):
                q = exact_div(N, p)
                if q is None:
                    break
                N = q
                k -= 1
            if k:
                key = frozenset(p.t.items())
                at = ctx.inv_table[key]
                out_inv = out_inv * Value(ctx, {((at.id, k),): 1})
        r = N * out_inv
        r._simp = r
        self._simp = r
        return r

    def is_zero(self):
        if not self.t:
            return True
        if len(self.t) == 1:
            return False
        v, scale = self.num_scaled(self.ctx.points[0])
        if v is not None and abs(v) > 1e-7 * scale:
            return False
        N, _ = self.clear()
        return not N.t

    def eq(self, o):
        if self.t == o.t:
            return True
        return (self - o).is_zero()

    # ---- numerics
    def num_scaled(self, pt):
        s = 0
        sc = 0.0
        try:
            for m, c in self.t.items():
                x = float(c)
                for i, e in m:
                    b = pt.atom(i)
                    x = x * (b ** e if isinstance(e, int) else b ** float(e))
                s = s + x
                sc += abs(x)
        except (OverflowError, ZeroDivisionError):
            return None, None
        if isinstance(s, complex) and (cmath.isnan(s) or cmath.isinf(s)):
            return None, None
        if not isinstance(s, complex) and (math.isnan(s) or math.isinf(s)):
            return None, None
        return s, max(sc, 1e-300)

    def num(self, pt=None):
        pt = pt or self.ctx.points[0]
        v = self.num_scaled(pt)[0]
        if v is None:
            return float("nan")
        if isinstance(v, complex) and abs(v.imag) < 1e-9 * max(1, abs(v)):
            return v.real
        return v

    def __repr__(self):
        if not self.t:
            return "0"
        items = sorted(self.t.items(), key=lambda x: (len(x[0]), x[0]))
        s = " + ".join(f"{c}*{mono_str(self.ctx, m)}" for m, c in items[:12])
        return s + (f" + ...({len(items)} terms)" if len(items) > 12 else "")


def _pow(v, e):
    if e == 0:
        return v.ctx.one
    if isinstance(e, Fraction):
        return v ** e
    r = None
    b = v
    while e:
        if e & 1:
            r = b if r is None else r * b
        e >>= 1
        if e:
            b = b * b
    return r


def _needs(ctx, m):
    sp = ctx.special
    pc = 0
    pid = ctx.pair_ids
    for i, e in m:
        k = sp.get(i)
        if k == "prime":
            if e >= 1 or e < 0:
                return True
        elif k is not None:
            if e != 1:
                return True
        if i in pid:
            pc += e
    if pc >= 2:
        ids = [i for i, e in m if i in pid]
        for a in range(len(ids)):
            for b in range(a, len(ids)):
                if (ids[a], ids[b]) in ctx.pair_rules:
                    if a == b and dict(m)[ids[a]] < 2:
                        continue
                    return True
    return False


def _reduce_mono(ctx, m):
    """Rewrite one monomial with special exponents into a Value."""
    coef = 1
    rest = []
    extra = ctx.one
    for i, e in m:
        k = ctx.special.get(i)
        if k == "sqrt":
            q, r = divmod(e, 2)
            if r:
                rest.append((i, 1))
            if q:
                rad = ctx.atoms[i].data
                extra = extra * (_pow(rad, q) if q > 0 else _pow(ctx.inv(rad), -q))
        elif k == "sign":
            if e % 2:
                rest.append((i, 1))
        elif k == "prime":
            fl = math.floor(e)
            fr = e - fl
            coef = coef * (Fraction(ctx.atoms[i].data) ** fl)
            if fr:
                rest.append((i, fr))
        else:
            rest.append((i, e))
    if ctx.pair_ids:
        d = dict(rest)
        ids = [i for i in d if i in ctx.pair_ids]
        for a in range(len(ids)):
            for b in range(a, len(ids)):
                key = (min(ids[a], ids[b]), max(ids[a], ids[b]))
                if key in ctx.pair_rules:
                    if a == b:
                        if d[ids[a]] < 2:
                            continue
                        d[ids[a]] -= 2
                    else:
                        d[ids[a]] -= 1
                        d[ids[b]] -= 1
                    base = Value(ctx, {tuple(sorted((i, e) for i, e in d.items() if e != 0)): _norm(coef)})
                    return base * ctx.pair_rules[key] * extra
    v = Value(ctx, {tuple(rest): _norm(coef)})
    return v * extra if not extra.is_one() else v


def _strip_monos(v):
    """Scale by a monomial so that all exponents are >= 0; returns (t, shift)."""
    mn = {}
    for m in v.t:
        for i, e in m:
            if e < 0 and e < mn.get(i, 0):
                mn[i] = e
    if not mn:
        return v.t, {}
    sh = tuple(sorted((i, -e) for i, e in mn.items()))
    return {_mmul(m, sh)[0]: c for m, c in v.t.items()}, {i: -e for i, e in mn.items()}


def exact_div(N, p, limit=200000):
    """Exact polynomial quotient N/p or None (plain polynomial division, lex by atom order)."""
    ctx = N.ctx
    if N.is_const() and N.const_value() == 0:
        return N
    # quick numeric/degree filter: variables of p must occur in N
    pid = p.atom_ids()
    nid = N.atom_ids()
    if not pid <= nid:
        return None
    Nt, nsh = _strip_monos(N)
    pt, psh = _strip_monos(p)
    # degree filter
    for i in pid:
        dp = max(dict(m).get(i, 0) for m in pt)
        dn = max(dict(m).get(i, 0) for m in Nt)
        if dn < dp:
            return None
    order = sorted(nid)
    idx = {i: k for k, i in enumerate(order)}
    n = len(order)

    def vec(m):
        v = [0] * n
        for i, e in m:
            v[idx[i]] = e
        return tuple(v)

    P = sorted(((vec(m), c) for m, c in pt.items()), reverse=True)
    lead, lc = P[0]
    rest = P[1:]
    R = {vec(m): c for m, c in Nt.items()}
    Q = {}
    import heapq
    heap = [tuple(-x for x in k) for k in R]
    heapq.heapify(heap)
    cnt = 0
    while heap:
        k = heapq.heappop(heap)
        m = tuple(-x for x in k)
        c = R.pop(m, 0)
        if c == 0:
            continue
        q = tuple(a - b for a, b in zip(m, lead))
        if min(q, default=0) < 0:
            return None
        qc = _norm(Fraction(c) / lc) if (type(c) is Fraction or type(lc) is Fraction or c % lc) else c // lc
        Q[q] = qc
        for pm, pc in rest:
            mm = tuple(a + b for a, b in zip(q, pm))
            cnt += 1
            if mm in R:
                s = R[mm] - qc * pc
                if s == 0:
                    R[mm] = 0
                else:
                    R[mm] = _norm(s)
            else:
                R[mm] = _norm(-qc * pc)
                heapq.heappush(heap, tuple(-x for x in mm))
        if cnt > limit:
            return None
    sh = {}
    for i, e in psh.items():
        sh[i] = sh.get(i, 0) + e
    for i, e in nsh.items():
        sh[i] = sh.get(i, 0) - e
    t = {}
    shm = tuple(sorted((i, e) for i, e in sh.items() if e != 0))
    for q, c in Q.items():
        m = tuple((order[k], e) for k, e in enumerate(q) if e != 0)
        m, _ = _mmul(m, shm)
        t[m] = c
    r = Value(ctx, t)
    if ctx.special and any(_needs(ctx, m) for m in t):
        r2 = ctx.zero
        for m, c in t.items():
            r2 = r2 + _reduce_mono(ctx, m) * c
        r = r2
    return r


# ------------------------------------------------------------------ conditions
class Cond:
    """Boolean term. op in lt, le, eq (Value, Value), and/or/not, z3 (raw)."""
    __slots__ = ("op", "args")

    def __init__(self, op, *args):
        self.op = op
        self.args = args

    @staticmethod
    def cmp(op, a, b):
        d = (a - b).simp()
        if d.has_nan():
            return False
        if d.is_const():
            c = d.const_value()
            return {"lt": c < 0, "le": c <= 0, "eq": c == 0}[op]
        if op == "eq":
            if d.known_pos() or (-d).known_pos():
                return False
            if d.is_zero():
                return True
        else:
            if (-d).known_pos():
                return True
            if d.known_pos():
                return False
            if d.is_zero():
                return op == "le"
            if op == "le" and (-d).known_nonneg():
                return True
            if op == "lt" and d.known_nonneg():
                return False
        return Cond(op, d)

    def same(self, o):
        if self is o:
            return True
        if not isinstance(o, Cond) or self.op != o.op or len(self.args) != len(o.args):
            return False
        for x, y in zip(self.args, o.args):
            if isinstance(x, Value):
                if not (isinstance(y, Value) and x.eq(y)):
                    return False
            elif isinstance(x, Cond):
                if not x.same(y):
                    return False
            elif x is not y:
                return False
        return True

    def num(self, pt):
        if self.op in ("lt", "le", "eq"):
            v = self.args[0].num(pt)
            if isinstance(v, complex):
                v = v.real
            return {"lt": v < 0, "le": v <= 0, "eq": abs(v) < 1e-12}[self.op]
        r = [a if isinstance(a, bool) else a.num(pt) for a in self.args]
        if self.op == "and":
            return all(r)
        if self.op == "or":
            return any(r)
        if self.op == "not":
            return not r[0]
        raise Unsupported(self.op)


def c_not(a):
    if isinstance(a, Cond):
        return a.args[0] if a.op == "not" else Cond("not", a)
    return not bool(a)


def c_and(a, b):
    if not isinstance(a, Cond):
        return b if bool(a) else False
    if not isinstance(b, Cond):
        return a if bool(b) else False
    return Cond("and", a, b)


def c_or(a, b):
    return c_not(c_and(c_not(a), c_not(b)))


# ------------------------------------------------------------------ points
class Point:
    """A numeric assignment of all atoms, consistent with their definitions."""

    def __init__(self, ctx, seed, base=None):
        import random
        self.ctx = ctx
        self.seed = seed
        self.rng = random.Random(seed)
        self.base = dict(base or {})   # atom name -> float
        self.cache = {}

    def atom(self, i):
        v = self.cache.get(i)
        if v is None:
            v = self._compute(self.ctx.atoms[i])
            self.cache[i] = v
        return v

    def _compute(self, a):
        import random
        k = a.kind
        if k == "var":
            if a.name in self.base:
                return self.base[a.name]
            r = random.Random(f"{self.seed}:{a.name}")
            lo, hi = a.data["lo"], a.data["hi"]
            if lo is None:
                lo, hi = (0.3, 1.6) if a.pos else (-1.3, 1.4)
            return r.uniform(lo, hi)
        if k == "prime":
            return float(a.data)
        if k == "sqrt":
            v = a.data.num(self)
            if isinstance(v, complex) or v < 0:
                return cmath.sqrt(v)
            return math.sqrt(v)
        if k == "inv":
            v = a.data.num(self)
            return 1.0 / v if v != 0 else float("inf")
        if k == "exp":
            return math.exp(a.data.num(self).real)
        if k == "sign":
            if a.data is not None:
                return a.data(self)
            r = random.Random(f"{self.seed}:{a.name}")
            return r.choice([-1.0, 1.0])
        if k == "nan":
            return float("nan")
        if k == "opq":
            return a.data.num(self)
        if k == "free":
            if a.name in self.base:
                return self.base[a.name]
            r = random.Random(f"{self.seed}:{a.name}")
            return r.uniform(-1, 1)
        if k == "ite":
            c, x, y = a.data
            return x.num(self) if c.num(self) else y.num(self)
        if k == "uf":
            key, args, data = a.data
            av = [x.num(self) for x in args]
            if data is not None:
                return data(*av)
            if key[0] == "powq":
                return float(av[0]) ** float(key[1])
            raise Unsupported(f"no shadow for {key}")
        if k == "draw":
            return a.data.numeric(self)
        if k == "sqrtm":
            return a.data(self)
        raise Unsupported(k)
