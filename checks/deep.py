"""Sized instances: many steps / many coordinates with numeric matrices, where only the data stay symbolic (start, drift offsets)."""
import random

from symjax.uf import uf
from checks.odef import *


def nums(h, tag, *shape, lo=-3, hi=3, den=4):
    """Deterministic small rationals (exact in binary)."""
    r = random.Random(f"deep:{tag}:{shape}")
    n = int(np.prod(shape, dtype=int))
    return h.const(np.array([Fraction(r.randint(lo, hi), den) for _ in range(n)], dtype=object).reshape(shape))


def spd(h, tag, n):
    L = nums(h, tag, n, n, lo=-1, hi=1, den=2)
    return h.lift(L @ L.T + eye(n))


def fl(A):
    """numeric symbolic array -> float array (for use inside the traced function)."""
    return jnp.asarray(np.array([float(x.const_value()) for x in O(A).reshape(-1)]).reshape(O(A).shape))


class Affine:
    """f(x, t) = B x + c(t) with B numeric and every c_i(t) an arbitrary function of time."""

    def __init__(self, h, d, name="c"):
        self.h, self.d, self.name = h, d, name
        self.B = nums(h, "B", d, d)
        self.Bf = fl(self.B)

    def __call__(self, x, t):
        return self.Bf @ x + jnp.stack([uf(f"{self.name}{i}", jnp.asarray(t, dtype=float)) for i in range(self.d)])

    def mat(self, like):
        return self.B if isinstance(O(like).reshape(-1)[0], Value) else np.asarray(self.Bf)

    def val(self, x, t):
        return self.mat(x) @ x + vec(*[self.h.uf(f"{self.name}{i}", t) for i in range(self.d)])

    def obs(self, n, ekf0):
        d = self.d

        def obs(m, t):
            x = m[::n]
            c = m[1::n] - self.val(x, t)
            H = zeros(d, n * d)
            B = self.mat(x)
            for i in range(d):
                H[i, n * i + 1] = 1
                if not ekf0:
                    for j in range(d):
                        H[i, n * j] = H[i, n * j] - B[i, j]
            return c, H
        return obs
