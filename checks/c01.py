"""C01 Ito/Stratonovich conversion."""
from symjax.harness import *
from symjax.uf import vec_fun, mat_fun


def _conv(chk, d, m):
    from bayesian_sde_solver import ito_stratonovich as S
    h = Harness(chk, f"conv_d{d}_m{m}")
    f, s = vec_fun("f", d), mat_fun("s", d, m)
    x, t = h.arr("x", d), h.scalar("t")
    tt = t.item()

    def spec_corr():
        sig = h.uf_mat("s", x, tt, m)
        out = []
        for i in range(d):
            acc = h.V(0)
            for j in range(d):
                dv = [1 if k == j else 0 for k in range(d)] + [0]
                ds = h.uf_mat("s", x, tt, m, deriv=dv)
                for k in range(m):
                    acc = acc + sig[j, k] * ds[i, k]
            out.append(acc)
        return vec(*out)

    fx = h.uf_vec("f", x, tt)
    c = spec_corr()

    def strat(x, t):
        b, g = S.to_stratonovich(f, s)
        return b(x, t), g(x, t)

    def ito(x, t):
        b, g = S.to_ito(f, s)
        return b(x, t), g(x, t)

    def rt(x, t):
        b, g = S.to_ito(*S.to_stratonovich(f, s))
        b2, g2 = S.to_stratonovich(*S.to_ito(f, s))
        return b(x, t), g(x, t), b2(x, t), g2(x, t)

    half = h.V(Fraction(1, 2))
    sig = h.uf_mat("s", x, tt, m)
    r = h.encode("to_stratonovich", strat, x, t)
    h.eq("drift", r, lambda o: o[0], fx - half * c)
    h.eq("diffusion", r, lambda o: o[1], sig)
    r = h.encode("to_ito", ito, x, t)
    h.eq("drift_ito", r, lambda o: o[0], fx + half * c)
    h.eq("diffusion_ito", r, lambda o: o[1], sig)
    r = h.encode("round trip", rt, x, t)
    h.eq("roundtrip", r, lambda o: o[0], fx)
    h.eq("roundtrip2", r, lambda o: o[2], fx)
    h.eq("roundtrip_diffusion", r, lambda o: o[1], sig)
    chk.bound("state and Brownian dimension up to 4x4, 5x3 and 3x5; arbitrary smooth drift(x,t) and diffusion(x,t)")


def d1m1(chk): _conv(chk, 1, 1)
def d2m1(chk): _conv(chk, 2, 1)
def d2m2(chk): _conv(chk, 2, 2)
def d1m2(chk): _conv(chk, 1, 2)
def d3m2(chk): _conv(chk, 3, 2)
def d3m3(chk): _conv(chk, 3, 3)
def d4m4(chk): _conv(chk, 4, 4)
def d5m3(chk): _conv(chk, 5, 3)
def d3m5(chk): _conv(chk, 3, 5)
HARNESSES = ["d1m1", "d2m1", "d2m2", "d1m2", "d3m2", "d3m3", "d4m4", "d5m3", "d3m5"]
