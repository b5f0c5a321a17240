"""shared pieces of the contracts on the QED engines"""
import ctypes
import math
from fractions import Fraction
import ccontract
from ccontract import *
from llvm import asI, texp, tlog, tpow, nsqrt, rnorm
from props.tab import BIG, ub_inv
from props.Q04 import lin1

NF = ("-DPXRMP_USE_NORMALIZED_UNITS",)
UNITS = (("SI", ()), ("normalised", NF))
C, M = KC["k_c"], KC["k_m"]
MOM, FLD = ("px", "py", "pz"), ("ex", "ey", "ez", "bx", "by", "bz")
TWO = num(2)
HALF = num(Fraction(1, 2))
CHI = sym("gchi")


def vec(k, names):
    return [k.real(a) for a in names]


def norm(p):
    return nsqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2])


def chi_stub(k, si, lam, mom=None):
    """calls of the chi functions are replaced by their contract: the value is the chi of the arguments (Q01), which must be this particle's"""
    want = [sym(a) for a in MOM + FLD]
    k.real("gchi")

    def g(ex, fr, st, args, dem, ins):
        ok = all(ex.ctx.entails(EQ(a, w)) for a, w in zip(args[:9], want)) and (si or len(args) > 9 and ex.ctx.entails(EQ(args[9], lam)))
        ex.obl.append(("chi-of-this-particle", ok, dem))
        ex.assume(GE(CHI, ZERO))
        return ("val", CHI)
    k.stubs["multi_physics::chi_(photon|lepton)<"] = g

    def d(v, r):
        L = ccontract.lib(k.src, k.flags)
        L.q_chi.restype = ctypes.c_double
        return L.q_chi(*[ctypes.c_double(v[a]) for a in MOM + FLD], ctypes.c_double(v["lam"] if "lam" in v else 1.0))
    k.derive.append(("gchi", d))
    k.ghosts.append(("gchi", d))
    k.assumes.append("the value of chi is the one the chi contract (Q01) describes")


def particle(k, si, zero=True, gmin=-1.0, gmax=5.0):
    """momentum, fields, reference length; sampled over the physical range of the unit system"""
    p, f = vec(k, MOM), vec(k, FLD)
    lam = k.real("lam", 1e-7, 1e-5, choices=[1e-6, 8e-7], log=True)
    k.requires(GT(lam, ZERO))
    mode = {}

    def mom(i):
        def d(v, r):
            cs = ccontract.constants(k.src, k.flags)
            if i == 0:
                mode["g"] = float(cs["k_m"] * cs["k_c"]) * 10 ** r.uniform(gmin, gmax)
                mode["axis"] = r.choice([None, 0, 1, 2])
            if mode["axis"] is not None:
                return mode["g"] * r.choice([1, -1]) if mode["axis"] == i else 0.0
            return mode["g"] * r.uniform(-1, 1)
        return d

    def fld(i):
        def d(v, r):
            cs = ccontract.constants(k.src, k.flags)
            es = float(cs["k_schw"]) * (1 if si else v["lam"])
            if i == 0:
                mc = float(cs["k_m"] * cs["k_c"])
                gam = math.sqrt(sum(v[a] ** 2 for a in MOM)) / mc + 1e-9
                mode["e"] = es / max(gam, .5) * 10 ** r.uniform(-4, 3)
                mode["f"] = r.choice(["e", "b", "both", "both", "both"])
            s = mode["e"] / (1 if i < 3 else float(cs["k_c"]))
            if mode["f"] != "both" and (mode["f"] == "e") != (i < 3):
                return 0.0
            return s * r.uniform(-1, 1)
        return d
    for i, a in enumerate(MOM):
        k.derive.append((a, mom(i)))
    for i, a in enumerate(FLD):
        k.derive.append((a, fld(i)))
    return p, f, lam


def logtable(k):
    """1D table of logarithms on equally spaced logarithmic coordinates"""
    n = k.int("n", 2, 9)
    x0 = k.real("x0", -7, 2)
    h = k.real("h", 0.1, 2, choices=[0.25, 0.5, 1.0])
    k.requires(LE(num(2), n), LT(n, num(BIG)), GT(h, ZERO))
    k.scales.append(h)
    xs = k.array("xs", n, form=lambda i: x0 + i * h)
    k.array("ys", n)
    return n, x0, h, xs, (lambda i: k.pre("ys", i))


def interp(xs, ys, w, J):
    return lin1(xs(J), xs(J + ONE), ys(J), ys(J + ONE), w)


def interp_stub(k, W):
    """the table's interpolation along its first direction is replaced by its contract (Q05): value fz(j) of column j at abscissa W"""
    def g(ex, fr, st, args, dem, ins):
        try:
            prove.prove_zero(sub(args[1], W), ex.ctx, prove.Budget(10))
            ok = True
        except (prove.Failed, prove.Unknown):
            ok = False
        ex.obl.append(("interpolates-at-the-clamped-chi", ok, dem))
        j = asI(args[2])
        m = sym("m", "I")
        ex.oblige("column-in-table", AND(LE(ZERO, j), LT(j, m)), dem)
        return ("val", k.pre("fz", j))
    k.stubs["lookup_2d<.*>::interp_linear_first_equispaced\\("] = g
    k.assumes.append("the value interpolated along the first coordinate is the one the table's contract (Q05) describes")


def table2(k, ycoord, zgen):
    """2D table on logarithmic first coordinates; fz(j) = its interpolation at the clamped chi, column j"""
    n, m = k.int("n", 2, 6), k.int("m", 2, 9)
    x0, h = k.real("x0", -5, 2), k.real("h", 0.3, 2, choices=[0.5, 1.0])
    tmin, tmax = k.real("tmin", 1e-3, 1, log=True), k.real("tmax", 1, 1e3, log=True)
    k.requires(LE(TWO, n), LT(n, num(2 ** 20)), LE(TWO, m), LT(m, num(2 ** 20)), GT(h, ZERO), GT(tmin, ZERO), LT(tmin, tmax))
    k.derive.append(("x0", lambda v, r: math.log(max(v["gchi"], 1e-300)) - (v["n"] - 1) * v["h"] * r.choice([r.uniform(-.5, 1.5), r.random(), r.randint(0, v["n"] - 1) / (v["n"] - 1)])))
    k.derive.append(("tmin", lambda v, r: math.exp(v["x0"])))
    k.derive.append(("tmax", lambda v, r: math.exp(v["x0"] + (v["n"] - 1) * v["h"])))
    k.array("xs", n, form=lambda i: x0 + i * h)
    store = {}

    def zg(v, r, ln):
        z = zgen(v, r)
        store["z"] = z
        return z

    def fg(v, r, ln):
        w = math.log(min(max(v["gchi"], v["tmin"]), v["tmax"]))
        t = min(max((w - v["x0"]) / v["h"], 0.0), v["n"] - 1.0)
        i = min(int(t), v["n"] - 2)
        a = t - i
        if abs(a) < 1e-9:
            a = 0.0
        if abs(a - 1) < 1e-9:
            a = 1.0
        z, m = store["z"], v["m"]
        g = lambda q, j: 0.0 if q == 0 else q * z[j]
        return [g(1 - a, i * m + j) + g(a, (i + 1) * m + j) for j in range(ln)]
    ys = k.array("ys", m, form=ycoord(m))
    k.array("zs", n * m, gen=zg)
    k.array("fz", m, gen=fg)
    ch = ite(LT(CHI, tmin), tmin, ite(GT(CHI, tmax), tmax, CHI))
    interp_stub(k, tlog(ch))
    return n, m, ys, (lambda j: k.pre("fz", j))


def deps(*pairs):
    """contracts of the functions these ones rely on, discharged in the same check"""
    import importlib
    import re
    out = []
    for mod, pat in pairs:
        out += [k for k in importlib.import_module("props." + mod).contracts() if re.search(pat, k.label)]
    return out
