"""integration, root finding and Bessel function wrappers"""
import math
from props.phys import *
import prove

LEVEL = "proof"
TRUSTED = ["boost trapezoidal / tanh_sinh / gauss_kronrod return the integral of the function over the range given (replay runs them on polynomials and exponentials)",
           "boost bracket_and_solve_root returns a bracket of a root of the function given; boost cyl_bessel_k is the modified Bessel function of the second kind"]
SRC2 = "q_misc.cpp"
D = llvm.irparse.Ty("fp", 64)


def call(ex, st, fo, x):
    """value of the function object at x"""
    fo = ex.pnorm(fo)
    inv = ex.pnorm(ex.load(st, ex.padd(fo, 24), llvm.PTR))
    c = Obj("x", "mem", 8)
    s2 = st.copy()
    s2.mem[(c, 0)] = (x, 8)
    r = ex.call_fn(inv.o.fn, [fo, Ptr(c, ZERO)], s2)
    if r is None:
        raise llvm.Unsupported("integrand does not return")
    return uncite(r[1])


def same(ex, a, b):
    try:
        prove.prove_zero(sub(a, b), ex.ctx, prove.Budget(5))
        return True
    except (prove.Failed, prove.Unknown):
        return False


def fval(ex, st, v):
    """a bound of integration handed by value or by reference"""
    return ex.load(st, v, D) if isinstance(v, Ptr) else v


def integrator(k, pat, f, lo, inf=False):
    """boost integrators by contract: antiderivative difference of the integrand handed over, obliged to be the caller's"""
    def g(ex, fr, st, a, dem, ins):
        a = [x for x in a if x is not UNDEF]
        i = next(i for i, x in enumerate(a) if isinstance(x, Ptr) and i >= lo)
        x = fresh("x", "R")
        ok = same(ex, call(ex, st, a[i], x), f(x))
        ex.obl.append(("integrand-passed-on", ok, ""))
        u, v = fval(ex, st, a[i + 1]), fval(ex, st, a[i + 2])
        if inf:
            ex.oblige("up-to-infinity", EQ(v, sym("INF")), show(v, 60))
            return ("val", sub(ZERO, app("F", u)))
        return ("val", sub(app("F", v), app("F", u)))
    k.stubs[pat] = g


UNDEF = llvm.UNDEF


def contracts():
    out = []
    for fn, pat in (("q_quad_ab", r"boost::math::quadrature::trapezoidal<"), ("q_quad_abs", r"boost::math::quadrature::tanh_sinh<.*>::integrate<")):
        k = CKernel(fn, src=SRC2, flags=("-DDV_HOST",), label=fn, samples=20, rtol=1e-6)
        a, b, c0, c1, c2 = (k.real(n, -3, 3) for n in ("a", "b", "c0", "c1", "c2"))
        k.derive.append(("b", lambda v, r: v["a"] + r.uniform(.01, 4)))
        k.requires(LT(a, b))
        integrator(k, pat, lambda x, c=(c0, c1, c2): c[0] + x * (c[1] + x * c[2]), 0 if fn == "q_quad_ab" else 1)
        if fn == "q_quad_abs":
            k.stubs[r"boost::math::quadrature::tanh_sinh<.*>::(tanh_sinh|~tanh_sinh)\("] = lambda ex, fr, st, a, dem, ins: ("val", None)
        F = lambda v, x: v["c0"] * x + v["c1"] * x * x / 2 + v["c2"] * x * x * x / 3
        k.apps = {"F": F}
        k.ensures("integral-over-the-interval", k.ret(), app("F", b) - app("F", a))
        out.append(k)
    k = CKernel("q_quad_inf", src=SRC2, flags=("-DDV_HOST",), label="q_quad_inf", samples=20, rtol=1e-5)
    a, c0, c1 = k.real("a", 0, 3), k.real("c0", .5, 3), k.real("c1", 0, 3)
    integrator(k, r"boost::math::quadrature::gauss_kronrod<.*>::integrate<", lambda x, c0=c0, c1=c1: (c0 + x * c1) * texp(-x), 0, True)
    k.apps = {"F": lambda v, x: -(v["c0"] + v["c1"] * (x + 1)) * __import__("mpmath").exp(-x)}
    k.ensures("integral-to-infinity", k.ret(), -app("F", a))
    out.append(k)
    k = CKernel("q_quad_tail", src=SRC2, flags=("-DDV_HOST",), label="q_quad_tail", samples=20, rtol=1e-5)
    a, c0 = k.real("a", 0, 50), k.real("c", .5, 3)
    k.requires(GE(a, ZERO))
    integrator(k, r"boost::math::quadrature::gauss_kronrod<.*>::integrate<", lambda x, c0=c0: c0 / ((ONE + x) * (ONE + x)), 0, True)
    k.apps = {"F": lambda v, x: -v["c"] / (1 + x)}
    k.ensures("integral-to-infinity", k.ret(), -app("F", a))
    out.append(k)
    for s in (1, -1):
        k = CKernel("q_root", src=SRC2, flags=("-DDV_HOST",), label="q_root_%s" % ("rising" if s > 0 else "falling"), samples=20, rtol=1e-8)
        c, g = k.real("c", -20, 20), k.real("guess", -5, 5)
        k.derive.append(("guess", lambda v, r: math.copysign(abs(v["c"]) ** (1 / 3) * 2 ** r.uniform(-3, 3), v["c"])))
        k.fix("s", float(s))
        k.requires(NOT(EQ(c, ZERO)), GT(g * c, ZERO))
        lo, hi = app("lo", c), app("hi", c)     # ends of the bracket found, as tight as the tolerance

        def rf(ex, fr, st, a, dem, ins, c=c, g=g, s=s):
            # f, guess, factor, rising, tol, max_iter
            i = 0
            x = fresh("x", "R")
            ex.obl.append(("function-passed-on", same(ex, call(ex, st, a[i], x), num(s) * (x * x * x - c)), ""))
            ex.oblige("search-starts-on-the-side-of-the-guess", LT(ZERO, fval(ex, st, a[i + 1]) * g), "")
            ex.oblige("step-factor-above-one", LT(ONE, fval(ex, st, a[i + 2])), "")
            r = a[i + 3]
            r = r if isinstance(r, T) else ex.load(st, r, llvm.irparse.Ty("int", 8))
            ex.oblige("rising-passed-on", r if r.sort == "B" and s > 0 else NOT(r) if r.sort == "B" else EQ(asI(r), ONE if s > 0 else ZERO), "")
            ex.assume(LE(lo, hi))
            return ("val", [lo, hi])
        k.stubs[r"boost::math::tools::bracket_and_solve_root<"] = rf
        k.stubs[r"boost::math::tools::eps_tolerance<.*>::eps_tolerance\("] = lambda ex, fr, st, a, dem, ins: (ex.oblige("tight-tolerance", LE(num(40), asI(a[1])), ""), ("val", None))[1]
        cbrt = lambda c: __import__("mpmath").mpf(math.copysign(abs(float(c)) ** (1 / 3), float(c)))
        k.apps = {"lo": lambda v, c, f=cbrt: f(c) - abs(f(c)) * 1e-9, "hi": lambda v, c, f=cbrt: f(c) + abs(f(c)) * 1e-9}
        k.ensures_true("root-inside-the-bracket", AND(LE(lo, k.ret()), LE(k.ret(), hi)))
        out.append(k)
    k = CKernel("q_kv", src=SRC2, flags=("-DDV_HOST",), label="q_kv", samples=20, rtol=1e-8)
    v, x = k.real("v", 0, 3, choices=[1 / 3, 2 / 3, 5 / 3]), k.real("x", 1e-3, 30, log=True)
    k.requires(GE(v, ZERO), GT(x, ZERO))
    k.stubs[r"boost::math::cyl_bessel_k<"] = lambda ex, fr, st, a, dem, ins: ("val", app("kv", fval(ex, st, a[0]), fval(ex, st, a[1])))

    def kv(vals, v, x):
        import mpmath
        return mpmath.besselk(v, x)
    k.apps = {"kv": kv}
    k.ensures("bessel-function-of-that-order", k.ret(), app("kv", v, x))
    out.append(k)
    return out
