"""rates computed without tables: integrands, inner integrals, total and cumulative rates; events of an engine without table"""
import math
from props.eng import *
import prove

LEVEL = "proof"
TRUSTED = ["the quadrature wrappers return the integral of the function they are given (replay uses a double-exponential rule in their place)",
           "the Bessel function wrapper returns the modified Bessel function of the second kind", "std::function calls the closure it was built from (its invoker is executed)"]
THIRD, FIVE3, TWO3 = num(Fraction(1, 3)), num(Fraction(5, 3)), num(Fraction(2, 3))
FINF = sym("Finf")
BIGARG = 1e20


def K(nu, x):
    return app("kv", nu, x)


def D():
    return llvm.irparse.Ty("fp", 64)


def integral(k, spec, extra=()):
    """calls of the quadrature wrappers are replaced by their contract: the value is the integral over the range asked for of the function handed over,
    which is obliged to be the specified integrand; F is its antiderivative"""
    def g(ex, fr, st, a, dem, ins):
        lo = a[1]
        hi = a[2] if len(a) > 2 else None
        x = fresh("x", "R")
        ex.ctx.push()
        ex.ctx.assume(AND(LE(lo, x), LE(x, hi)) if hi is not None else LE(lo, x))
        for e in extra:
            ex.ctx.assume(e(x))
        ok, why = False, ""
        try:
            fo = ex.pnorm(a[0])
            inv = ex.pnorm(ex.load(st, ex.padd(fo, 24), llvm.PTR))
            c = Obj("x", "mem", 8)
            s2 = st.copy()
            s2.mem[(c, 0)] = (x, 8)
            r = ex.call_fn(inv.o.fn, [fo, Ptr(c, ZERO)], s2)
            if r is None:
                why = "does not return"
            else:
                prove.prove_zero(sub(uncite(r[1]), spec(x)), ex.ctx, prove.Budget(10))
                ok = True
        except prove.Failed as f:
            why = "integrand differs: " + show(f.term, 300) if f.term is not None else str(f)
        except prove.Unknown as f:
            why = str(f)
        finally:
            ex.ctx.pop()
        ex.obl.append(("integrand", ok, why))
        return ("val", sub(app("F", hi) if hi is not None else FINF, app("F", lo)))
    k.stubs["multi_physics::quad_a_(b|b_s|inf)<"] = g
    k.assumes.append("the quadrature wrappers return the integral of the function they are given")


def bessel(k):
    k.stubs["multi_physics::k_v<"] = lambda ex, fr, st, a, dem, ins: ("val", K(a[0], a[1]))


def named(k, pat, name, n=1):
    """calls of a member function (of the engine itself) are replaced by its own contract's function symbol"""
    k.stubs[pat] = lambda ex, fr, st, a, dem, ins: ("val", app(name, *a[1:1 + n]))


# ------------------------------------------------ numeric meaning of the function symbols in replay
_spl = {}


def tail_spline(nu):
    """y -> integral of K_nu from y to infinity (spline of its logarithm against the logarithm of y)"""
    if nu not in _spl:
        import numpy as np
        import scipy.special as sp
        from scipy.interpolate import CubicSpline
        ly = np.linspace(-75, math.log(700), 6000)
        y = np.exp(ly)
        xs, ws = np.polynomial.legendre.leggauss(8)
        h = np.diff(y) / 2
        seg = np.zeros(len(h))
        for x, w in zip(xs, ws):
            seg += h * w * sp.kv(nu, y[:-1] + h * (1 + x))
        acc = np.concatenate([np.cumsum(seg[::-1])[::-1], [0.0]])
        acc[-1] = acc[-2] * 1e-6
        f = CubicSpline(ly, np.log(acc + 1e-320))
        _spl[nu] = lambda y: np.exp(f(np.log(np.maximum(y, 1e-32))))
    return _spl[nu]


def num_apps(k, en):
    import scipy.special as sp
    from scipy.integrate import quad
    import mpmath

    def F_(f):
        return lambda vals, *a: mpmath.mpf(float(f(*[float(x) for x in a])))
    P3 = math.pi * math.sqrt(3)

    def tail(f, a):
        """integral of f over [a, inf) for a function that decays exponentially beyond 1"""
        r, p = 0.0, a
        while p < 1:
            q = min(max(p * 8, 1e-300), 1.0)
            r += quad(f, p, q, epsabs=0, epsrel=1e-10, limit=200)[0]
            p = q
        for w in (.5, 1, 2, 4, 8, 16, 32):
            r += quad(f, p, p + w, epsabs=0, epsrel=1e-10, limit=200)[0]
            p += w
        return r
    if en == "bw":
        f_in = lambda s: math.sqrt(s) * sp.kv(1 / 3, 2 / 3 * s ** 1.5)

        def f_tot(c, g):
            if g <= 0 or g >= c or c == 0:
                return 0.0
            x = (c / (g * (c - g))) ** (2 / 3)
            return (tail(f_in, x) - (2 - c * x ** 1.5) * sp.kv(2 / 3, 2 / 3 * x ** 1.5)) / P3
    else:
        f_in = lambda s: sp.kv(5 / 3, s)

        def f_tot(c, g):
            if g <= 0 or g >= c or c == 0:
                return 0.0
            y = 2 * g / (3 * c * (c - g))
            if y > 600:
                return 0.0
            return (tail(f_in, y) + (3 * g * y / 2) * sp.kv(2 / 3, y)) / (c * P3)

    def total(c, upto):
        if upto <= 0:
            return 0.0
        import numpy as np
        upto = min(upto, c)
        J = tail_spline(5 / 3 if en == "qs" else 1 / 3)
        # nodes in the logarithm of the variable below a twentieth of the upper end, then evenly spaced
        g = np.concatenate([upto * np.exp(np.linspace(-60, -3, 1200)), upto * np.linspace(math.exp(-3), 1, 1601)[1:]])
        xs, ws = np.polynomial.legendre.leggauss(6)
        h = np.diff(np.concatenate([[0.0], g])) / 2
        G = (g - h)[None, :] + xs[:, None] * h[None, :]
        r = np.maximum(1 - G / c, 1e-300)
        if en == "qs":
            y = 2 * G / (3 * c * c * r)
            yy = np.minimum(y, 690)
            f = (J(yy) + (3 * G * yy / 2) * sp.kv(2 / 3, yy)) / (c * P3)
        else:
            x = (1 / (G * r)) ** (2 / 3)
            y = 2 / 3 * x ** 1.5
            yy = np.minimum(y, 690)
            f = (J(yy) - (2 - c * x ** 1.5) * sp.kv(2 / 3, yy)) / P3
        return float(np.sum(ws[:, None] * h[None, :] * np.where(y < 690, f, 0.0)))
    A = {"kv": F_(sp.kv), "inner": F_(lambda x: tail(f_in, x)), "integrand": F_(lambda c, g: f_tot(c, g)), "total": F_(lambda c: total(c, c)), "part": F_(total)}
    k.apps = A
    return A


def spec_inner(en):
    if en == "bw":
        return lambda s: ite(GE(s, num(Fraction(BIGARG))), ZERO, nsqrt(s) * K(THIRD, TWO * tpow(s, num(Fraction(3, 2))) / num(3)))
    return lambda s: ite(GT(s, num(Fraction(BIGARG))), ZERO, K(FIVE3, s))


def contracts():
    out = []
    for en, fl in ENGS:
        qs = en == "qs"

        def mk(fn, **kw):
            k = ek(fn, fl, "%s_%s" % (fn, en), samples=12, rtol=1e-4, **kw)
            k.array("u", ONE)
            num_apps(k, en)
            return k
        # argument of the special functions
        k = mk("q_e_xy")
        a, b = (k.real(n, 1e-2, 1e2, log=True) for n in "ab")
        k.requires(GT(a, ZERO), GT(b, ZERO))
        if qs:
            k.requires(LT(a, b))
            k.derive.append(("a", lambda v, r: v["b"] * r.uniform(1e-3, .999)))
            k.ensures("argument", k.ret(), TWO * a / (num(3) * b * (b - a)))
        else:
            k.requires(LT(b, a))
            k.derive.append(("b", lambda v, r: v["a"] * r.uniform(1e-3, .999)))
            k.ensures("argument", k.ret(), tpow(a / (b * (a - b)), TWO3))
        out.append(k)
        # inner integral
        k = mk("q_e_inner")
        a = k.real("a", 1e-3, 1e1, log=True)
        k.requires(GT(a, ZERO))
        bessel(k)
        integral(k, spec_inner(en))
        k.fix("Finf", 0.0)
        k.ghosts.append(("Finf", lambda v, r: 0.0))
        k.apps = dict(k.apps)
        k.apps["F"] = lambda v, x, f=k.apps["inner"]: -f(v, x)
        k.ensures("integral-to-infinity", k.ret(), sub(FINF, app("F", a)))
        out.append(k)
        # integrand of the total rate
        k = mk("q_e_integrand")
        c, g = k.real("chi", 1e-1, 1e2, log=True), k.real("c2", 1e-2, 1e2)
        k.derive.append(("c2", lambda v, r: v["chi"] * r.choice([0.0, 1.0, 1.5, r.uniform(.05, .95), r.uniform(.05, .95), r.uniform(.05, .95)])))
        k.derive.append(("chi", lambda v, r: r.choice([v["chi"]] * 6 + [0.0])))
        k.requires(GE(c, ZERO), GE(g, ZERO))
        bessel(k)
        named(k, "compute_inner_integral\\(", "inner")
        zero = OR(EQ(c, ZERO), GE(g, c), EQ(g, ZERO))
        P3 = PI * nsqrt(num(3))
        k.ensures("zero-outside-the-range", k.ret(), ZERO, hyps=[zero])
        if qs:
            y = TWO * g / (num(3) * c * (c - g))
            k.ensures("emission-spectrum", k.ret() * c * P3, app("inner", y) + num(3) * g * y / TWO * K(TWO3, y), hyps=[NOT(zero)])
        else:
            x = tpow(c / (g * (c - g)), TWO3)
            q = tpow(x, num(Fraction(3, 2)))
            k.ensures("pair-spectrum", k.ret() * P3, app("inner", x) - (TWO - c * q) * K(TWO3, TWO3 * q), hyps=[NOT(zero)])
        out.append(k)
        # total
        def spec(x, c=c):
            return app("integrand", c, x)
        tot = "compute_(TT|KK)_integrand\\("

        def integ_stub(k):
            # the integrand is zero at the ends of the range (contract of the integrand)
            k.stubs[tot] = lambda ex, fr, st, a, dem, ins: ("val", ite(OR(EQ(a[1], ZERO), GE(a[2], a[1]), EQ(a[2], ZERO)), ZERO, app("integrand", a[1], a[2])))

        def spec0(c):
            return lambda x: ite(OR(EQ(c, ZERO), GE(x, c), EQ(x, ZERO)), ZERO, app("integrand", c, x))
        k = mk("q_e_total")
        c = k.real("chi", .3, 1e2, log=True)
        k.requires(GT(c, ZERO))
        integ_stub(k)
        integral(k, spec0(c))
        k.rtol = 1e-3
        k.apps = dict(k.apps)
        k.apps["F"] = lambda v, x, f=k.apps["part"]: f(v, v["chi"], x)
        k.ensures("integral-over-the-spectrum", k.ret(), app("F", c) - app("F", ZERO))
        out.append(k)
        # the same with the library's own quadrature in the compiled code: bounded, at two fixed parameters
        for v in ("1", "10"):
            k = ek("q_e_total", fl + ("-DDV_REALQUAD",), "q_e_total_%s_own_quadrature_chi_%s" % (en, v), samples=1, rtol=1e-2)
            k.array("u", ONE)
            num_apps(k, en)
            c = k.fix("chi", float(v))
            integ_stub(k)
            integral(k, spec0(c))
            k.apps = dict(k.apps)
            k.apps["F"] = lambda v, x, f=k.apps["part"]: f(v, v["chi"], x)
            tru = app("F", c) - app("F", ZERO)
            k.requires(GT(tru, ZERO))
            k.ensures("integral-over-the-spectrum", k.ret(), tru)
            k.ensures_true("integral-within-a-tenth", AND(LE(num(Fraction(9, 10)) * tru, k.ret()), LE(k.ret(), num(Fraction(11, 10)) * tru)))
            out.append(k)
        # cumulative fraction
        k = mk("q_e_cum")
        c, g = k.real("chi", .5, 1e2, log=True), k.real("c2", 1e-2, 1e2)
        k.derive.append(("c2", lambda v, r: v["chi"] * r.choice([0.0, r.uniform(.01, .99), r.uniform(.01, .99), .5, 1.0])))
        k.requires(GT(c, ZERO), GE(g, ZERO), LE(g, c))
        integ_stub(k)
        integral(k, spec0(c))
        named(k, "compute_(TT|KK)_function\\(", "total")
        k.rtol = 1e-3
        k.requires(GT(app("total", c), ZERO))
        k.apps = dict(k.apps)
        k.apps["F"] = lambda v, x, f=k.apps["part"]: f(v, v["chi"], x)
        frac = (app("F", g) - app("F", ZERO)) / app("total", c)
        if qs:
            frac = ite(GE(app("F", g) - app("F", ZERO), app("total", c)), ONE, frac)
        k.ensures("fraction-of-the-total", k.ret(), frac)
        out.append(k)
        # rates
        for unit, uf in UNITS:
            si = unit == "SI"
            k = ek("q_e_rate", fl + uf, "q_e_rate_%s_%s" % (en, unit), samples=12, rtol=1e-3)
            k.array("u", ONE)
            num_apps(k, en)
            e, c, lam = k.real("en", 1e-13 if si else 2, 1e-9 if si else 1e5, log=True), k.real("chi", .5, 1e2, log=True), k.real("lam", 1e-7, 1e-5, log=True)
            k.derive.append(("en", lambda v, r: r.choice([v["en"]] * 5 + [0.0])))
            k.derive.append(("chi", lambda v, r: r.choice([v["chi"]] * 5 + [0.0])))
            k.requires(GE(e, ZERO), GE(c, ZERO))
            named(k, "compute_(TT|KK)_function\\(", "total")
            k.ensures("no-rate", k.ret(), ZERO, hyps=[OR(EQ(e, ZERO), EQ(c, ZERO))])
            co = KC["k_qs" if qs else "k_pair"] * (ONE if si else lam) / (e if qs else c * e)
            k.ensures("rate", k.ret(), co * app("total", c), hyps=[GT(e, ZERO), GT(c, ZERO)])
            out.append(k)
        # evolution of the optical depth by an engine without table
        for unit, uf in UNITS:
            si = unit == "SI"
            k = ek("q_e_event", fl + uf, "q_e_event_%s_%s" % (en, unit), samples=12, rtol=2e-3)
            num_apps(k, en)
            p, f, lam = particle(k, si, gmin=1.0)
            k.array("u", ONE)
            le = ONE if si else lam
            target = {}

            def rescale(a, k=k, target=target):
                def d(v, r):
                    if a == "ex":
                        L = ccontract.lib(k.src, k.flags)
                        L.q_chi.restype = ctypes.c_double
                        g = L.q_chi(*[ctypes.c_double(v[b]) for b in MOM + FLD], ctypes.c_double(v["lam"]))
                        target["s"] = math.exp(r.uniform(math.log(.5), math.log(100))) / g if g > 0 else 1.0
                    return v[a] * target["s"]
                return d
            for a in FLD:
                k.derive.append((a, rescale(a)))
            chi_stub(k, si, le)
            cmin = k.pre("ctl", 0)
            k.array("ctl", num(5), gen=lambda v, r, ln: [v["gchi"] * r.choice([1.0, 2.0, .5, .1, .01, 0.0])] + [r.uniform(.1, 10) for _ in range(4)])
            k.array("ct", num(3), sort="I", lo=2, hi=9)
            dt, od = k.real("dt", 0, 1), k.real("od", 0, 3)
            E = norm(p) * C
            below = LE(CHI, cmin) if qs else OR(LE(CHI, cmin), LT(E, TWO * M * C * C))
            rate = KC["k_qs" if qs else "k_pair"] * le / (E if qs else CHI * E) * app("total", CHI)
            k.requires(GT(dt, ZERO), GE(od, ZERO), GE(cmin, ZERO), GT(E, ZERO))
            k.requires(GT(app("total", CHI), ZERO))
            named(k, "compute_(TT|KK)_function\\(", "total")

            def scaledt(v, r, k=k, en=en, si=si, qs=qs):
                cs = ccontract.constants(k.src, k.flags)
                e = math.sqrt(sum(v[a] ** 2 for a in MOM)) * float(cs["k_c"])
                q = float(cs["k_qs" if qs else "k_pair"]) * (1 if si else v["lam"]) / (e if qs else v["gchi"] * e) * float(k.apps["total"](v, v["gchi"]))
                return r.uniform(0.01, 3) / q if q > 0 else 1.0
            k.derive.append(("dt", scaledt))
            o, hap = k.out("o", ONE)(0), k.out("meta", ONE, "I")(0)
            k.ensures("depth-kept-below-threshold", o, od, hyps=[below])
            k.ensures("no-event-below-threshold", hap, ZERO, hyps=[below])
            k.ensures("no-event-time-below-threshold", k.ret(), ZERO, hyps=[below])
            k.ensures("depth-decreases-by-rate-times-step", o, od - rate * dt, hyps=[NOT(below)])
            k.ensures("event-when-depth-exhausted", hap, ite(LT(o, ZERO), ONE, ZERO), hyps=[NOT(below)])
            k.ensures("event-time", (k.ret() - dt) * rate, od - rate * dt, hyps=[NOT(below), LT(o, ZERO)])
            k.ensures("no-event-time", k.ret(), ZERO, hyps=[NOT(below), GE(o, ZERO)])
            out.append(k)
    return out
