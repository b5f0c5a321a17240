"""quantum synchrotron: emitted photons and recoil"""
from props.phys import *
from props import eng

LEVEL = "proof"
TRUSTED = []
SRC = "q_qs.cpp"


def zgen(v, r):
    """logarithms of a photon energy fraction increasing with the probability"""
    out = []
    for _ in range(v["n"]):
        row = sorted(-r.uniform(0.01, 5) for _ in range(v["m"]))
        out += row
    return out


def contracts():
    out = []
    for unit, fl in UNITS:
        si = unit == "SI"
        k = CKernel("q_qs_gen", src=SRC, flags=fl, label="q_qs_gen_%s" % unit)
        p, f, lam = particle(k, si)
        chi_stub(k, si, lam)
        k.derive.append(("px", lambda v, r: v["px"]))
        K = k.int("k", 1, 6)
        W = k.real("weight", .5, 5)
        n, m, ys, fz = table2(k, lambda m: (lambda j: j / (m - ONE)), zgen)
        k.requires(LE(ONE, K), LT(K, num(BIG)), GT(CHI, ZERO))
        nrm = norm(p)
        k.requires(GT(nrm, ZERO))
        k.array("u", K, gen=lambda v, r, ln: [r.choice([0.0, r.random() * .999, r.random() * .999, r.randint(0, v["m"] - 2) / (v["m"] - 1), 1 - 1e-12]) for _ in range(ln)])
        k.each("u", lambda i, x: AND(LE(ZERO, x), LT(x, ONE)))
        g = [k.out(a, K) for a in ("gpx", "gpy", "gpz")]
        gw = k.out("gw", K)
        q = k.out("p", num(3))
        S = k.J("s", ZERO, K - ONE)
        s = S[0]
        mc = M * C
        gam = nsqrt(ONE + (p[0] * p[0] + p[1] * p[1] + p[2] * p[2]) / (mc * mc))
        J = k.J("cell", ZERO, m - TWO)
        at = lambda s: [LE(J[0], rnorm((m - ONE) * k.pre("u", s))), LT(rnorm((m - ONE) * k.pre("u", s)), J[0] + ONE)]

        def photon(s, a):
            u = k.pre("u", s)
            j = J[0]
            lo, hi = texp(fz(j)), texp(fz(j + ONE))
            frac = lo + ((m - ONE) * u - j) * (hi - lo)
            return frac * (gam - ONE) * mc * p[a] / nrm
        k.ensures_true("returns-success", k.ret("B"))
        for a, c in enumerate("xyz"):
            k.ensures("photon-momentum-" + c, g[a](s), photon(s, a), forall=[S, J], hyps=at(s))
        k.ensures("weight-shared", gw(s) * K, W, forall=[S])
        b = fresh("b", "I")
        for a, c in enumerate("xyz"):
            k.ensures("recoil-" + c, q(a), p[a] - tsum(b, ZERO, K - ONE, g[a](b)) / K)
        out.append(k)
    out += [eng.gen_contract("qs", eng.ENGS[1][1], unit, uf, zgen) for unit, uf in UNITS]
    return out + deps(("Q01", "chi_lepton"), ("Q05", "q_l2_firsteq"))
