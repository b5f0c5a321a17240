"""the tables an engine computes for itself"""
from props.Q14 import *
from props.Q14 import num_apps, named, integral, tail_spline

TRUSTED = ["rates and cumulative distributions enter through their own contracts (see the property on the published formulas)",
           "the root finder returns the root of the function it is given, searched from the guess it is given (replay runs the real one)",
           "a parallel loop computes what the loop computes sequentially (its iterations write disjoint parts of the table)"]


def rootfinder(k):
    """calls of the root finder are replaced by its contract: the root of the function handed over, which is obliged to be cumulative probability minus the
    probability wanted, on the negative numbers not below the root found before; the search starts there (at -10 for the first one)"""
    def leaves(ex, t):
        """[(conditions, value)] of the conditional value t"""
        t = prove.simp(t, ex.ctx)
        for c in sorted((y.args[0] for y in prove.subterms(t) if y.op == "ite" and not any(z.op == "ite" for z in prove.subterms(y.args[0]))), key=lambda c: c.id):
            out = []
            for h, v in ((c, TRUE), (NOT(c), FALSE)):
                ex.ctx.push()
                ex.ctx.assume(h)
                try:
                    if ex.ctx.feasible():
                        out += [([h] + hs, w) for hs, w in leaves(ex, llvm.rewrite(t, {c: v}))]
                finally:
                    ex.ctx.pop()
            return out
        return [([], t)]

    def parts(ex, t, x):
        """t = cum(exp(x)*chi, chi) - p: (chi, p)"""
        ap = [y for y in prove.subterms(t) if y.op == "app" and y.args[0] == "cum"]
        if len(ap) != 1:
            return None
        p = sub(ap[0], t)
        if x in free(p) or any(y.op == "app" and y.args[0] == "cum" for y in prove.subterms(p)):
            return None
        chi = ap[0].args[2]
        try:
            prove.prove_zero(sub(ap[0].args[1], llvm.texp(x) * chi), ex.ctx, prove.Budget(5))
        except (prove.Failed, prove.Unknown):
            return None
        return chi, p

    def notabove(ex, a, b):
        d = prove.simp(sub(b, a), ex.ctx)
        for _ in range(3):
            inv = {y for t in prove.subterms(d) if t.op == "mul" for y, n in t.args if n < 0}
            for y in inv:
                if ex.ctx.entails(LT(ZERO, y)):
                    d = llvm.rnorm(mul(d, y))
        return ex.ctx.entails(LE(ZERO, d))

    def g(ex, fr, st, a, dem, ins):
        x, bad = fresh("x", "R"), []
        fo = ex.pnorm(a[0])
        inv = ex.pnorm(ex.load(st, ex.padd(fo, 24), llvm.PTR))
        c = Obj("x", "mem", 8)
        s2 = st.copy()
        s2.mem[(c, 0)] = (x, 8)
        ex.ctx.push()
        ex.ctx.assume(LT(x, ZERO))
        found = []
        try:
            r = ex.call_fn(inv.o.fn, [fo, Ptr(c, ZERO)], s2)
            if r is None:
                raise llvm.Unsupported("function to solve does not return")
            rest = []
            for hs, v in leaves(ex, uncite(r[1])):
                q = parts(ex, v, x)
                (rest if q is None else found).append((hs, v if q is None else q))
            if not found:
                raise llvm.Unsupported("function to solve: " + show(uncite(r[1]), 300))
            chi, p = found[0][1]
            # the probability does not depend on the point: join the cases
            for hs, (c2, p2) in found[1:]:
                hs = [h for h in hs if x not in free(h)]
                chi, p = ite(AND(*hs), c2, chi), ite(AND(*hs), p2, p)
            for hs, v in rest:
                # anything else only below a root of the same function found for a smaller probability
                ex.ctx.push()
                for h in hs:
                    ex.ctx.assume(h)
                rt = {y for y in prove.subterms(AND(*hs)) if y.op == "app" and y.args[0] == "root"}
                if not any(ex.ctx.entails(LT(x, y)) and ex.ctx.entails(EQ(y.args[1], prove.simp(chi, ex.ctx))) and notabove(ex, y.args[2], p) for y in rt):
                    bad.append(show(v, 60) + " when " + show(AND(*hs), 200))
                ex.ctx.pop()
        finally:
            ex.ctx.pop()
        ex.obl.append(("solves-for-the-probability", not bad, "; ".join(bad)))
        ex.ctx.push()
        for y in prove.subterms(a[1]):
            if y.op == "app" and y.args[0] == "root":
                ex.ctx.assume(LT(y, ZERO))
        ex.oblige("search-starts-below-zero", LT(a[1], ZERO), show(a[1], 80))
        ex.ctx.pop()
        r = app("root", chi, p)
        ex.assume(LT(r, ZERO))
        return ("val", r)
    k.stubs["multi_physics::bracket_and_solve_root<"] = g
    k.assumes.append("the root finder returns the root of the function it is given")


_cum = {}


def num_root(v, c, p):
    """root of the cumulative distribution: integral of the spectrum on a fine grid in the logarithm of the fraction, inverted by interpolation"""
    import mpmath
    import numpy as np
    import scipy.special as sp
    from scipy.interpolate import CubicSpline
    c, p = float(c), float(p)
    if c not in _cum:
        # t = log fraction; the spectrum behaves as fraction^(-2/3)
        t = np.concatenate([np.linspace(-60, -3, 3000), np.log(np.linspace(math.exp(-3), 1, 3001)[1:-1])])
        xs, ws = np.polynomial.legendre.leggauss(6)

        def f(t):
            fr = np.minimum(np.exp(t), 1 - 1e-15)
            y = np.minimum(2 * fr / (3 * c * (1 - fr)), 690)
            return c * fr * (tail_spline(5 / 3)(y) + 3 * c * fr * y / 2 * sp.kv(2 / 3, y)) / c
        h = np.diff(t) / 2
        seg = np.zeros(len(h))
        for x, w in zip(xs, ws):
            seg += h * w * f(t[:-1] + h * (1 + x))
        G = np.cumsum(seg)
        _cum[c] = (t[1:], G / G[-1])
    t, G = _cum[c]
    return mpmath.mpf(float(np.interp(p, G, t)))


def contracts():
    out = []
    for en, fl in ENGS:
        qs = en == "qs"

        def mk(fn, nlo, nhi, size_i, lo_i, fr=(2, 3, 4, 5, 9, 14)):
            k = ek(fn, fl, "%s_%s" % (fn, en), samples=10, rtol=2e-3)
            num_apps(k, en)
            k.array("ctl", num(5), gen=gctl)
            k.array("ct", num(3), sort="I", gen=lambda v, r, ln: [r.randint(nlo, nhi), r.randint(nlo, nhi), r.choice(fr)])
            k.array("u", ONE)
            n = k.pre("ct", size_i, "I")
            lo, hi = k.pre("ctl", lo_i), k.pre("ctl", lo_i + 1)
            k.requires(LE(TWO, n), LT(n, BIGN), GT(lo, ZERO), LT(lo, hi))
            return k, n, lo, hi

        def gctl(v, r, ln):
            a, b = sorted(math.exp(r.uniform(math.log(.5), math.log(100))) for _ in range(2))
            return [.01, a, b * 1.5, a * 1.1, b * 2]

        def spaced(j, n, lo, hi):
            return ite(EQ(j, n - ONE), hi, lo * tpow(tpow(hi / lo, ONE / (n - ONE)), j))
        k, n, lo, hi = mk("q_e_tab1", 2, 6, 0, 1)
        named(k, "compute_(TT|KK)_function\\(", "total")
        o, d, meta = k.out("oc", n), k.out("od", n), k.out("meta", num(3), "I")
        for i, (nm, v) in enumerate((("initialised", ONE), ("number-of-coordinates", n), ("number-of-values", n))):
            k.ensures(nm, meta(i), v)
        J = k.J("j", ZERO, n - ONE)
        k.ensures("log-spaced-parameters", o(J[0]), llvm.tlog(spaced(J[0], n, lo, hi)), forall=[J])
        J = k.J("jj", ZERO, n - ONE)
        k.ensures("logarithm-of-the-total-rate", d(J[0]), llvm.tlog(app("total", spaced(J[0], n, lo, hi))), forall=[J])
        out.append(k)
        k, n, lo, hi = mk("q_e_tab2", 2, 3, 1, 3, *([(2, 3, 4, 5, 7)] if qs else []))
        m = k.pre("ct", 2, "I")
        k.requires(LE(TWO, m), LT(m, BIGN))
        o1, o2, oz, meta = k.out("o1", n), k.out("o2", m), k.out("oz", n * m), k.out("meta", num(4), "I")
        for i, (nm, v) in enumerate((("initialised", ONE), ("number-of-coordinates-1", n), ("number-of-coordinates-2", m), ("number-of-values", n * m))):
            k.ensures(nm, meta(i), v)
        J = k.J("j", ZERO, n - ONE)
        k.ensures("log-spaced-parameters", o1(J[0]), llvm.tlog(spaced(J[0], n, lo, hi)), forall=[J])
        J = k.J("f", ZERO, m - ONE)
        top = ONE if qs else num(Fraction(1, 2))
        lin = lambda j: ite(EQ(j, m - ONE), top, top * j / (m - ONE))
        k.ensures("evenly-spaced-fractions", o2(J[0]), lin(J[0]), forall=[J])
        a, b = k.J("a", ZERO, n - ONE), k.J("b", ZERO, m - ONE)
        chi = spaced(a[0], n, lo, hi)
        if qs:
            p = ite(EQ(b[0], ZERO), lin(ONE) / num(10), ite(EQ(b[0], m - ONE), ONE - (ONE - lin(m - TWO)) / num(10), lin(b[0])))
            named(k, "compute_cumulative_phot_em\\(", "cum", 2)
            rootfinder(k)
            k.apps = dict(k.apps)
            k.apps["root"] = num_root
            k.ensures("logarithm-of-the-fraction-of-that-probability", oz(a[0] * m + b[0]), app("root", chi, p), forall=[a, b])
        else:
            named(k, "compute_cumulative_pair\\(", "cum", 2)
            k.apps = dict(k.apps)
            k.apps["cum"] = lambda v, c, g, A=k.apps: A["part"](v, c, g) / A["total"](v, c)
            k.ensures("logarithm-of-the-cumulative-distribution", oz(a[0] * m + b[0]), llvm.tlog(app("cum", chi, chi * lin(b[0]))), forall=[a, b], hyps=[LE(ONE, b[0]), LT(b[0], m - ONE)])
            k.ensures("first-column-of-zero-probability", oz(a[0] * m), llvm.tlog(ZERO), forall=[a])
            k.ensures("last-column-half", oz(a[0] * m + m - ONE), llvm.tlog(top), forall=[a])
        out.append(k)
    return out
