"""quantum synchrotron: optical depth, rate, optical depth evolution and event"""
from props.phys import *

LEVEL = "proof"
TRUSTED = []
SRC = "q_qs.cpp"
REG = ("low", "high", "table")


def contracts():
    out = []
    k = CKernel("q_qs_od", src=SRC)
    u = k.real("u", 0, 0.999999, choices=[0.0, 0.5])
    k.requires(LE(ZERO, u), LT(u, ONE))
    k.requires(LE(tlog(ONE - u), ZERO))      # lemma: the logarithm is not positive below one
    k.ensures("inverse-exponential-law", k.ret(), scale(tlog(ONE - u), -1))
    k.ensures_true("nonnegative", GE(k.ret(), ZERO))
    out.append(k)

    def place(k, chi, reg, tmin, tmax, n, x0, h, name):
        """chi below, above or inside the table's range; the value used is the one at the nearest covered chi"""
        k.requires(GT(tmin, ZERO), LT(tmin, tmax))
        k.derive.append(("tmin", lambda v, r: math.exp(v["x0"])))
        k.derive.append(("tmax", lambda v, r: math.exp(v["x0"] + (v["n"] - 1) * v["h"])))
        cut = lambda v, r: r.choice([1.0, r.uniform(1.001, 50)])
        lg = lambda c: math.log(max(c, 1e-300))
        if reg == "low":
            w = tlog(tmin)
            k.requires(LE(chi, tmin))
            if name == "gchi":
                k.derive.append(("tmin", lambda v, r: v["gchi"] * cut(v, r)))
                k.derive.append(("x0", lambda v, r: lg(v["tmin"]) - r.choice([0.0, r.random()]) * (v["n"] - 1) * v["h"] * .999))
                k.derive.append(("tmax", lambda v, r: max(math.exp(v["x0"] + (v["n"] - 1) * v["h"]), v["tmin"] * 1.001)))
            else:
                k.derive.append((name, lambda v, r: v["tmin"] / cut(v, r)))
        elif reg == "high":
            w = tlog(tmax)
            k.requires(GE(chi, tmax))
            if name == "gchi":
                k.derive.append(("tmax", lambda v, r: v["gchi"] / cut(v, r)))
                k.derive.append(("x0", lambda v, r: lg(v["tmax"]) - r.choice([1.0, r.random()]) * (v["n"] - 1) * v["h"] * .999))
                k.derive.append(("tmin", lambda v, r: min(math.exp(v["x0"]), v["tmax"] * .9)))
            else:
                k.derive.append(("tmax", lambda v, r: math.exp(v["x0"] + (v["n"] - 1) * v["h"] * r.uniform(.3, .999))))
                k.derive.append(("tmin", lambda v, r: min(v["tmin"], v["tmax"] * .9)))
                k.derive.append((name, lambda v, r: v["tmax"] * cut(v, r)))
        else:
            w = tlog(chi)
            k.requires(GT(chi, tmin), LT(chi, tmax))
            fr = lambda r: r.choice([r.random(), r.uniform(1e-9, 1e-3), 1 - r.uniform(1e-9, 1e-3)])
            if name == "gchi":
                k.derive.append(("x0", lambda v, r: lg(v["gchi"]) - (v["n"] - 1) * v["h"] * fr(r)))
                k.derive.append(("tmin", lambda v, r: math.exp(v["x0"])))
                k.derive.append(("tmax", lambda v, r: math.exp(v["x0"] + (v["n"] - 1) * v["h"])))
            else:
                k.derive.append((name, lambda v, r: math.exp(v["x0"] + (v["n"] - 1) * v["h"] * fr(r))))
        last = x0 + (n - ONE) * h
        k.requires(LE(x0, w), LE(w, last))
        return w, rnorm((w - x0) / h)

    for unit, fl in UNITS:
        si = unit == "SI"
        for reg in ("zero",) + REG:
            k = CKernel("q_qs_dndt", src=SRC, flags=fl, label="q_qs_dndt_%s_%s" % (reg, unit))
            n, x0, h, xs, ys = logtable(k)
            E = k.real("E", 1e-13 if si else 2, 1e-9 if si else 1e5, log=True)
            chi = k.real("chi", 1e-3, 1e3, log=True)
            lam = k.fix("lam", 1.0) if si else k.real("lam", 1e-7, 1e-5, log=True)
            tmin, tmax = k.real("tmin", 1e-2, 1, log=True), k.real("tmax", 1, 1e3, log=True)
            k.requires(GE(E, ZERO), GE(chi, ZERO), GT(lam, ZERO))
            c = KC["k_qs"] * lam / E
            if reg == "zero":
                k.derive.append(("E", lambda v, r: r.choice([0.0, v["E"]])))
                k.derive.append(("chi", lambda v, r: 0.0 if v["E"] != 0 else v["chi"]))
                k.requires(OR(EQ(E, ZERO), EQ(chi, ZERO)))
                k.ensures("no-rate", k.ret(), ZERO)
            else:
                k.requires(GT(E, ZERO), GT(chi, ZERO))
                w, u = place(k, chi, reg, tmin, tmax, n, x0, h, "chi")
                J = k.J("cell", ZERO, n - TWO)
                k.ensures("table-value", k.ret(), c * texp(interp(xs, ys, w, J[0])), forall=[J], hyps=[LE(J[0], u), LT(u, J[0] + ONE)])
            out.append(k)
        # the table covers exactly the range: its last value is used from its upper end on
        k = CKernel("q_qs_dndt", src=SRC, flags=fl, label="q_qs_dndt_last_%s" % unit)
        n, x0, h, xs, ys = logtable(k)
        E = k.real("E", 1e-13 if si else 2, 1e-9 if si else 1e5, log=True)
        chi = k.real("chi", 1e-3, 1e3, log=True)
        lam = k.fix("lam", 1.0) if si else k.real("lam", 1e-7, 1e-5, log=True)
        tmin, tmax = k.real("tmin", 1e-2, 1, log=True), k.fix("tmax", texp(x0 + (n - ONE) * h))
        k.derive.append(("tmin", lambda v, r: math.exp(v["x0"])))
        k.derive.append(("chi", lambda v, r: v["tmax"] * r.choice([1.0, r.uniform(1, 50)])))
        k.requires(GT(tmin, ZERO), LT(tmin, tmax), GT(E, ZERO), GE(chi, tmax), GT(chi, ZERO), GT(lam, ZERO))
        k.ensures("last-value", k.ret(), KC["k_qs"] * lam / E * texp(ys(n - ONE)))
        out.append(k)
        for reg in ("nothing",) + REG:
            k = CKernel("q_qs_event", src=SRC, flags=fl, label="q_qs_event_%s_%s" % (reg, unit))
            p, f, lam = particle(k, si)
            n, x0, h, xs, ys = logtable(k)
            chi_stub(k, si, lam)
            cmin, tmin, tmax = k.real("cmin", 1e-4, 1e-2, log=True), k.real("tmin", 1e-2, 1, log=True), k.real("tmax", 1, 1e3, log=True)
            dt = k.real("dt", 0, 1)
            init = k.int("init", 0, 1)
            k.requires(GE(cmin, ZERO), GT(dt, ZERO), LE(ZERO, init), LE(init, ONE))
            k.array("od", ONE, gen=lambda v, r, ln: [r.choice([r.expovariate(1), 1e-3 * r.random()])])
            k.each("od", lambda i, x: GE(x, ZERO))
            od, od1 = k.pre("od", 0), rawsel(cbase("post:od", "R"), [ZERO])
            ev, hap = k.out("evdt", ONE)(0), k.out("happened", ONE, "I")(0)
            E = norm(p) * C
            below = LE(CHI, cmin)
            c = KC["k_qs"] * (ONE if si else lam) / E
            if reg == "nothing":
                k.requires(GT(tmin, ZERO), LT(tmin, tmax), OR(below, EQ(init, ZERO)))
                k.ensures_true("below-threshold-is-not-an-error", k.ret("B"), hyps=[below])
                k.ensures_true("missing-table-is-reported", NOT(k.ret("B")), hyps=[NOT(below)])
                k.ensures("depth-unchanged", od1, od)
                k.ensures("no-event", hap, ZERO)
                k.ensures("no-event-time", ev, ZERO)
                out.append(k)
                continue
            k.derive.append(("init", lambda v, r: 1))
            k.requires(GT(CHI, cmin), EQ(init, ONE), GT(E, ZERO), GT(CHI, ZERO))
            w, u = place(k, CHI, reg, tmin, tmax, n, x0, h, "gchi")
            J = k.J("cell", ZERO, n - TWO)
            rate, J, hy = c * texp(interp(xs, ys, w, J[0])), [J], [LE(J[0], u), LT(u, J[0] + ONE)]
            k.derive.append(("cmin", lambda v, r: min(v["cmin"], v["gchi"] * r.uniform(0, .9))))

            def scaledt(v, r, k=k):
                return v["dt"] * 10 ** r.uniform(-22, -12) if k.flags == () else v["dt"] * 10 ** r.uniform(-3, 3)
            k.derive.append(("dt", scaledt))
            k.ensures_true("table-found", k.ret("B"))
            k.ensures("depth-decreases-by-rate-times-step", od1, od - rate * dt, forall=J, hyps=hy)
            k.ensures("event-when-depth-exhausted", hap, ite(LT(od1, ZERO), ONE, ZERO))
            k.ensures("event-time", (ev - dt) * rate, od - rate * dt, forall=J, hyps=hy + [LT(od1, ZERO)])
            k.ensures("no-event-time", ev, ZERO, hyps=[GE(od1, ZERO)])
            k.ensures_true("event-inside-step", AND(LE(ZERO, ev), LE(ev, dt)), forall=J, hyps=hy)
            out.append(k)
    return out + deps(("Q01", "chi_lepton"), ("Q04", "q_l1_eq"))
