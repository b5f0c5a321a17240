"""Breit-Wheeler: sampled energy partition, momenta and weights of the pairs"""
import math
import re
from props.phys import *
from props import eng

LEVEL = "proof"
TRUSTED = []
SRC = "q_bw.cpp"


def zgen(v, r):
    """logarithms of a cumulative probability growing from 0 to 1/2"""
    out = []
    for _ in range(v["n"]):
        m = v["m"]
        out += [-math.inf] + [math.log(x) for x in sorted(r.uniform(1e-4, .499) for _ in range(m - 2))] + [math.log(.5)]
    return out


class GHOST:
    name = "fz"


def search(k):
    """the inner bisection: every column before `first` has a probability <= u, every one from first+count on a larger one"""
    def f(ex, fr, c, c0, st):
        i, n, m = asI(c["first"]), asI(c["count"]), sym("m", "I")
        names = [x for x in fr.env if re.match(r"%prob(\.\d+)?$", x) and isinstance(fr.env[x], T)]
        u = fr.env[sorted(names)[-1]]
        P = lambda j: texp(k.pre("fz", j))
        e = add(i, n)
        for j in (ZERO, m - ONE, sub(i, ONE), e):
            ex.noteread(GHOST, 0, j)
        return ([("range", AND(LE(ZERO, i), LE(ZERO, n), LE(e, m))),
                 ("left", OR(LE(i, ZERO), LE(P(sub(i, ONE)), u))),
                 ("right", OR(LE(m, e), LT(u, P(e))))], n)
    return ("internal_generate_breit_wheeler_pairs", ["first", "count"], f)


def contracts():
    out = []
    for unit, fl in UNITS:
        si = unit == "SI"
        k = CKernel("q_bw_gen", src=SRC, flags=fl, label="q_bw_gen_%s" % unit)
        p, f, lam = particle(k, si, gmin=.7, gmax=6.0)
        chi_stub(k, si, lam)
        K = k.int("k", 1, 6)
        W = k.real("weight", .5, 5)
        n, m, ys, fz = table2(k, lambda m: (lambda j: j / (m - ONE) / TWO), zgen)
        k.invs.append(search(k))
        k.requires(LE(ONE, K), LT(K, num(BIG)), GT(CHI, ZERO))
        nrm = norm(p)
        k.requires(GT(nrm, ZERO))
        k.array("u", K, gen=lambda v, r, ln: [r.choice([0.0, .5, r.random() * .999, r.random() * .999, 1 - 1e-12]) for _ in range(ln)])
        red = lambda x: ite(GE(x, HALF), x - HALF, x)
        k.each("u", lambda i, x: AND(LE(ZERO, x), LT(x, ONE), LE(texp(fz(ZERO)), red(x)), LT(red(x), texp(fz(m - ONE)))))
        k.pairf.setdefault("fz", []).append(lambda i, j: OR(LT(j, i), LE(texp(fz(i)), texp(fz(j)))))
        e = [k.out(a, K) for a in ("epx", "epy", "epz")]
        q = [k.out(a, K) for a in ("ppx", "ppy", "ppz")]
        w = [k.out(a, K) for a in ("ew", "pw")]
        S, J = k.J("s", ZERO, K - ONE), k.J("cell", ZERO, m - TWO)
        s, j = S[0], J[0]
        mc = M * C
        gam = nrm / mc
        P = lambda j: ite(EQ(j, ZERO), ZERO, texp(fz(j)))
        u = k.pre("u", s)
        hy = [LE(texp(fz(j)), red(u)), LT(red(u), texp(fz(j + ONE)))]
        frac = ys(j) + (red(u) - P(j)) * (ys(j + ONE) - ys(j)) / (texp(fz(j + ONE)) - P(j))
        ce = frac * CHI
        fe, fp = ite(GE(u, HALF), CHI - ce, ce), ite(GE(u, HALF), ce, CHI - ce)
        k.ensures_true("returns-success", k.ret("B"))
        for who, g, x in (("electron", e, fe), ("positron", q, fp)):
            en = ONE + x * ((gam - TWO) / CHI)      # Lorentz factors: the two add up to the photon's
            for a, c in enumerate("xyz"):
                k.ensures("%s-momentum-%s" % (who, c), g[a](s), nsqrt(en * en - ONE) * mc * p[a] / nrm, forall=[S, J], hyps=hy)
        for who, g in (("electron", w[0]), ("positron", w[1])):
            k.ensures("%s-weight" % who, g(s) * K, W, forall=[S])
        out.append(k)
    out += [eng.gen_contract("bw", eng.ENGS[0][1], unit, uf, zgen) for unit, uf in UNITS]
    return out + deps(("Q01", "chi_photon"), ("Q05", "q_l2_firsteq"))
