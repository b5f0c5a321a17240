"""Schwinger pairs: rate, probability, weight, count, position; engine object"""
from props.phys import *

LEVEL = "proof"
TRUSTED = []
SRC = "q_schw.cpp"
GR, GP = sym("grate"), sym("gpois", "I")
CELL = ("dx", "dy", "dz", "dt")


def fields(k, si):
    E, B = vec(k, FLD[:3]), vec(k, FLD[3:])
    lam = k.real("lam", 1e-7, 1e-5, choices=[1e-6], log=True)
    k.requires(GT(lam, ZERO))
    mode = {}

    def fld(i):
        def d(v, r):
            cs = ccontract.constants(k.src, k.flags)
            es, c = float(cs["k_schw"]), float(cs["k_c"])
            if i == 0:
                mode["s"] = es * 10 ** r.uniform(-.8, .7)
                mode["k"] = r.choice(["any", "any", "axis", "e", "b", "par"])
            m = mode["k"]
            s = mode["s"] if i < 3 else mode["s"] / c
            if m == "axis":
                mode.setdefault("p", None)
                if i == 0:
                    mode["p"] = (r.randint(0, 2), 3 + r.randint(0, 2))
                return s * r.choice([1.0, -1.0, .7]) if i in mode["p"] else 0.0
            if (m == "e" and i >= 3) or (m == "b" and i < 3):
                return 0.0
            if m == "par" and i >= 3:
                return v[FLD[i - 3]] / c * .75
            return s * r.uniform(-1, 1)
        return d
    for i, a in enumerate(FLD):
        k.derive.append((a, fld(i)))
    return E, B, lam


def cell(k):
    d = [k.real(a, 1e-7, 1e-5, log=True) for a in CELL[:3]] + [k.real("dt", 1e-16, 1e-14, log=True)]
    for x in d:
        k.requires(GT(x, ZERO))
    return d[0] * d[1] * d[2], d[3]


def rate_stub(k, si, lam):
    k.real("grate")
    k.requires(GE(GR, ZERO))

    def g(ex, fr, st, args, dem, ins):
        ok = all(ex.ctx.entails(EQ(a, sym(w))) for a, w in zip(args[:6], FLD)) and (si or ex.ctx.entails(EQ(args[6], lam)))
        ex.obl.append(("rate-of-these-fields", ok, dem))
        return ("val", GR)
    k.stubs["internal_compute_schwinger_pair_production_rate\\("] = g

    def d(v, r):
        L = ccontract.lib(k.src, k.flags)
        L.q_sc_rate.restype = ctypes.c_double
        return L.q_sc_rate(*[ctypes.c_double(v[a]) for a in FLD], ctypes.c_double(v["lam"]))
    k.derive.append(("grate", d))
    k.ghosts.append(("grate", d))
    # an expected number of pairs of order one
    k.derive.append(("dt", lambda v, r: 10 ** r.uniform(-1, 1) / (v["grate"] * v["dx"] * v["dy"] * v["dz"]) if v["grate"] > 0 else v["dt"]))
    k.assumes.append("the value of the rate is the one its own contract describes")


def pois_stub(k, prob, u):
    k.int("gpois")

    def g(ex, fr, st, args, dem, ins):
        ex.obl.append(("count-for-this-mean", ex.ctx.entails(EQ(args[0], prob)), dem))
        ex.obl.append(("count-for-this-number", ex.ctx.entails(EQ(args[1], u)), dem))
        ex.assume(GE(GP, ZERO))
        return ("val", GP)
    k.stubs["multi_physics::poisson_distrib<"] = g

    def d(v, r):
        L = ccontract.lib(k.src, k.flags)
        L.q_pois.restype = ctypes.c_ulong
        p = v["grate"] * (v["dx"] * v["dy"] * v["dz"]) * v["dt"]
        return L.q_pois(ctypes.c_double(p), ctypes.c_double(v["u"])) if p < 500 else 0
    k.derive.append(("gpois", d))
    k.ghosts.append(("gpois", d))
    k.assumes.append("the Poisson count is the one its own contract (Q08) describes")


def contracts():
    out = []
    for unit, fl in UNITS:
        si = unit == "SI"
        le = ONE if si else None
        for fn in ("q_sc_rate", "q_sc_erate"):
            k = CKernel(fn, src=SRC, flags=fl, label="%s_%s" % (fn, unit))
            E, B, lam = fields(k, si)
            if fn == "q_sc_erate":
                k.array("rnd", ONE)
            ll = ONE if si else lam * lam * lam * lam
            es2 = KC["k_schw"] * KC["k_schw"]
            dot = lambda a, b: a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
            F = (dot(E, E) - C * C * dot(B, B)) / (TWO * es2)
            G = C * dot(E, B) / es2
            inner = nsqrt(F * F + G * G)
            ep, et = nsqrt(inner + F), nsqrt(inner - F)
            k.requires(LE(F, inner), LE(scale(F, -1), inner))      # lemma: sqrt(F^2+G^2) >= |F|
            A = KC["k_spair"] * ll
            k.ensures("rate", k.ret(), A * ep * et * texp(scale(PI, -1) / ep) / app("tanh", PI * et / ep), hyps=[NE(ep, ZERO), NE(et, ZERO)])
            k.ensures("rate-without-eta", k.ret(), A * ep * ep * texp(scale(PI, -1) / ep) / PI, hyps=[NE(ep, ZERO), EQ(et, ZERO)])
            k.ensures("no-rate", k.ret(), ZERO, hyps=[EQ(ep, ZERO)])
            out.append(k)
        for fn in ("q_sc_single", "q_sc_multi"):
            k = CKernel(fn, src=SRC, flags=fl, label="%s_%s" % (fn, unit))
            E, B, lam = fields(k, si)
            V, dt = cell(k)
            u = k.real("u", 0, .999)
            k.requires(LE(ZERO, u), LT(u, ONE))
            ev, w = k.out("ev", ONE, "I"), k.out("w", ONE)
            rate_stub(k, si, lam)
            prob = GR * V * dt
            k.ensures("weight", w(0) * V, ONE)
            if fn == "q_sc_single":
                k.ensures("event", ev(0), ite(LT(u, prob), ONE, ZERO))
            else:
                pois_stub(k, prob, u)
                k.ensures("count", ev(0), GP)
            out.append(k)
        k = CKernel("q_sc_esingle", src=SRC, flags=fl, label="q_sc_esingle_%s" % unit)
        E, B, lam = fields(k, si)
        V, dt = cell(k)
        k.array("rnd", TWO, lo=0, hi=.999)
        ev, w = k.out("ev", TWO, "I"), k.out("w", TWO)
        rate_stub(k, si, lam)
        for i in range(2):
            k.ensures("weight%d" % i, w(i) * V, ONE)
            k.ensures("event%d" % i, ev(i), ite(LT(k.pre("rnd", i), GR * V * dt), ONE, ZERO))
        out.append(k)
        k = CKernel("q_sc_emulti", src=SRC, flags=fl, label="q_sc_emulti_%s" % unit)
        E, B, lam = fields(k, si)
        V, dt = cell(k)
        k.real("u", 0, .999)
        k.array("rnd", ONE, gen=lambda v, r, ln: [v["u"]])
        k.each("rnd", lambda i, x: EQ(x, sym("u")))
        ev, w = k.out("ev", ONE, "I"), k.out("w", ONE)
        rate_stub(k, si, lam)
        pois_stub(k, GR * V * dt, sym("u"))
        k.ensures("weight", w(0) * V, ONE)
        k.ensures("count", ev(0), GP)
        out.append(k)
        k = CKernel("q_sc_pos", src=SRC, flags=fl, label="q_sc_pos_%s" % unit)
        k.real("lam", 1e-7, 1e-5, log=True)
        k.array("rnd", num(3), lo=0, hi=.999)
        o = k.out("o", num(3))
        for i in range(3):
            k.ensures("coordinate%d" % i, o(i), k.pre("rnd", i))
        out.append(k)
        k = CKernel("q_sc_lam", src=SRC, flags=fl, label="q_sc_lam_%s" % unit)
        l1, l2 = k.real("lam", 1e-7, 1e-5, log=True), k.real("lam2", 1e-7, 1e-5, log=True)
        k.array("rnd", ONE)
        o = k.out("o", num(5))
        for i, (nm, e) in enumerate((("constructed", l1), ("copied", l1), ("set", l2), ("copy-independent", l1), ("moved", l2))):
            k.ensures(nm, o(i), ONE if si else e)
        out.append(k)
    return out + deps(("Q08", "q_poisson"))
