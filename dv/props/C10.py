"""finite-difference weights and stencil filters"""
from contract import *
import spec
from fractions import Fraction
from math import factorial

TRUSTED = []
ORDERS = (2, 4, 6, 8, 10, 12, 14, 16)


def weight(p, l, nodal):
    """centred first-derivative weight of order p at distance l (l-1/2 on a staggered grid), in the pushes' convention"""
    h = p // 2
    if nodal:
        return Fraction((-1)**(l + 1) * factorial(h)**2, l * factorial(h + l) * factorial(h - l))
    a = Fraction(factorial(p - 1)**2 * 16, 16**h)
    return (-1)**(l + 1) * a / ((2 * l - 1)**2 * factorial(h + l - 1) * factorial(h - l) * factorial(h - 1)**2)


for _p in ORDERS:            # the published weights are exactly those that differentiate polynomials of degree up to p
    for _n in (False, True):
        for _d in range(1, _p, 2):
            assert sum(weight(_p, l, _n) * 2 * (Fraction(l) if _n else Fraction(2 * l - 1, 2))**_d for l in range(1, _p // 2 + 1)) == (1 if _d == 1 else 0), (_p, _n, _d)


def fdw(p):
    k = Kernel("fd_weights", label="fd_weights_order_%d" % p, args={"norder": num(p)}, budget=60)
    k.int("norder", p, p)
    nodal = k.bool("l_nodal")
    k.extract = True
    for l in range(1, p // 2 + 1):
        k.ensures("weight-%d" % l, k.post("coeffs", num(l)), ite(nodal, num(weight(p, l, True)), num(weight(p, l, False))))
    return k


def filt(routine, nd):
    k = Kernel(routine)
    n = k.int("nsten", 1, 4)
    k.requires(GE(n, ONE))
    for a in ("o", "i"):
        k.iarr(a + "lo", gen=lambda v, r, i: -4)
        k.iarr(a + "hi", gen=lambda v, r, i: 6)
    k.iarr("lo", gen=lambda v, r, i: r.choice([0, 0, -1]))
    k.iarr("hi", gen=lambda v, r, i: r.choice([2, 1, 3]))
    iv = lambda a, p: rawsel(cbase(a, "I"), [num(p + 1)])
    J = [k.J("xyz"[p], iv("olo", p), iv("ohi", p)) for p in range(nd)]
    js = [x[0] for x in J]
    inside = AND(*[AND(LE(iv("lo", p), j), LE(j, iv("hi", p))) for p, j in enumerate(js)])
    s = fresh("s", "I")
    new = k.pre("sten", ZERO) * k.pre("fin", *js) + tsum(s, ONE, n - 1, k.pre("sten", s) * (k.pre("fin", *js[:-1], js[-1] - s) + k.pre("fin", *js[:-1], js[-1] + s)))
    k.ensures("fou", k.post("fou", *js), ite(inside, new, k.pre("fou", *js)), J)
    return k


def contracts():
    return [fdw(p) for p in ORDERS] + [filt("apply_godfrey_filter_z_%dd" % d, d) for d in (2, 3)]
