"""upper bound by bisection; inverse cumulative distribution of the Poisson law"""
import math
from props.tab import *

LEVEL = "proof"
TRUSTED = []


def contracts():
    out = []
    k = CKernel("q_ub", src=SRC, invs=[ub_inv()])
    n = k.int("n", 0, 12)
    k.requires(LE(ZERO, n), LT(n, num(BIG)))
    k.array("xs", n, gen=lambda v, r, ln: sorted(r.choice([round(r.uniform(-2, 2), 1), r.uniform(-2, 2)]) for _ in range(ln)))
    k.sorted("xs", strict=False)
    val = k.real("val", -2.2, 2.2)
    r = k.ret("I")
    k.ensures_true("in-range", AND(LE(ZERO, r), LE(r, n)))
    J = k.J("lo", ZERO, sub(r, ONE))
    k.ensures_true("left-part-not-greater", LE(k.pre("xs", J[0]), val), forall=[J])
    J = k.J("hi", r, sub(n, ONE))
    k.ensures_true("right-part-greater", GT(k.pre("xs", J[0]), val), forall=[J])
    out.append(k)
    # Poisson: w(j), S(j) are the probabilities and their running sums (ghost sequences)
    W, S = (lambda j: rawsel(cbase("w", "R"), [lift(j)])), (lambda j: rawsel(cbase("S", "R"), [lift(j)]))

    def inv(ex, fr, c, c0, st):
        kk, p, s, lam, u = asI(c["k"]), c["p"], c["s"], fr.env["%lambda"], fr.env["%unf_zero_one_minus_epsi"]
        for j in (ZERO, kk):
            for g in gh(lam):
                ex.assume(g(j))
        return ([("counter", LE(ZERO, kk)), ("positive", GT(p, ZERO)), ("term", EQ(p, W(kk))), ("sum", EQ(s, S(kk))),
                 ("not-reached-before", OR(EQ(kk, ZERO), LT(S(sub(kk, ONE)), u)))], None)

    def gh(lam):
        return (lambda i: OR(NE(i, ZERO), AND(EQ(W(i), llvm.texp(scale(lam, Fraction(-1)))), EQ(S(i), W(i)))),
                lambda i: OR(LT(i, ZERO), AND(EQ(W(add(i, ONE)) * (i + ONE), W(i) * lam), EQ(S(add(i, ONE)), S(i) + W(add(i, ONE))))))
    k = CKernel("q_poisson", src=SRC, invs=[("poisson_distrib", ["k", "p", "s"], inv)])
    lam = k.real("lambda", 0, 60, choices=[1e-3, 1.0, 120.0, 200.0, 400.0, 600.0], wide=(-6, 2.8))
    u = k.real("u", 0, 0.999999, choices=[0.0])
    k.requires(GT(lam, ZERO), LE(ZERO, u), LT(u, ONE))
    M = 1000

    def gen(cum):
        def g(v, r, ln):
            w, s, out = math.exp(-v["lambda"]), 0.0, []
            for j in range(ln):
                s += w
                out.append(s if cum else w)
                w = w * v["lambda"] / (j + 1)
            return out
        return g
    k.array("w", num(M), gen=gen(False))
    k.array("S", num(M), gen=gen(True))
    k.assumes.append("partial correctness: that the running sum eventually exceeds u < 1 is convergence of the exponential series, not proved")
    r = k.ret("I")
    k.ensures_true("reached", LE(u, S(r)))
    k.ensures_true("not-earlier", LT(S(sub(r, ONE)), u), hyps=[LT(ZERO, r)])
    out.append(k)
    k = CKernel("q_poisson", src=SRC, label="q_poisson_zero_mean", invs=[("poisson_distrib", ["k", "p", "s"], lambda ex, fr, c, c0, st: ([("first", AND(EQ(c["k"], ZERO), EQ(c["s"], ONE)))], None))])
    k.fix("lambda", 0.0)
    u = k.real("u", 0, 0.999999, choices=[0.0])
    k.requires(LE(ZERO, u), LT(u, ONE))
    k.ensures("no-event", k.ret("I"), ZERO)
    out.append(k)
    return out
