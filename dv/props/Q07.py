"""spaced coordinate vectors"""
from props.tab import *

LEVEL = "proof"
TRUSTED = []


def contracts():
    out = []
    n1 = lambda n: sub(n, ONE)
    for fn in ("q_linsp", "q_logsp"):
        k = CKernel(fn, src=SRC)
        lo = k.real("lo", *((-5, 5) if fn == "q_linsp" else (1e-3, 5)), choices=[1.0], wide=(-30, 5))
        hi = k.real("hi", *((-5, 9) if fn == "q_linsp" else (1e-3, 90)), choices=[1.0], wide=(-10, 30))
        n = k.int("n", 0, 40)
        k.requires(LE(ZERO, n), LT(n, num(BIG)))
        if fn == "q_logsp":
            k.requires(GT(lo, ZERO), GT(hi, ZERO))
        ok = AND(LT(lo, hi), LE(num(2), n))
        o = k.out("o", n)
        J = k.J("j", ZERO, sub(n, num(2)))
        k.ensures("size", k.ret("I"), ite(ok, n, ZERO))
        if fn == "q_linsp":
            f = lambda j: lo + j * (hi - lo) / n1(n)
        else:
            f = lambda j: lo * llvm.tpow(llvm.tpow(hi / lo, ONE / n1(n)), j)
        k.ensures("spacing", o(J[0]), f(J[0]), forall=[J], hyps=[ok])
        k.ensures("first", o(ZERO), lo, hyps=[ok])
        k.ensures("last", o(n1(n)), hi, hyps=[ok])
        out.append(k)
    k = CKernel("q_llsp", src=SRC)
    lo = k.real("lo", 1e-5, 1e-2, wide=(-30, -2))
    hi = k.real("hi", 0.2, 9)
    n = k.int("n", 2, 40)
    k.requires(LE(num(2), n), LT(n, num(BIG)), GT(lo, ZERO), GT(hi, lo))
    o = k.out("o", n)
    t = floor(n / num(3))
    th = n - t - t
    a, b = hi * num(Fraction(1, 10)), hi * num(Fraction(9, 10))
    k.ensures("size", k.ret("I"), n)
    k.ensures("first", o(ZERO), lo)
    k.ensures("last", o(n1(n)), hi)
    J = k.J("a", ONE, sub(t, ONE))
    k.ensures("low-part-geometric", o(J[0]), lo * llvm.texp(J[0] * llvm.tlog(a / lo) / t), forall=[J])
    J = k.J("b", t, sub(t + t, ONE))
    k.ensures("middle-part-linear", o(J[0]), a + (b - a) * (J[0] - t) / t, forall=[J], hyps=[LE(ONE, J[0])])
    J = k.J("c", t + t, sub(n, num(2)))
    k.ensures("high-part-geometric", o(J[0]), hi * llvm.texp((n1(n) - J[0]) * llvm.tlog(b / hi) / (th - ONE)), forall=[J], hyps=[LE(ONE, J[0])])
    out.append(k)
    return out
