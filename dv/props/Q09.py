"""Breit-Wheeler: optical depth, rate, optical depth evolution and event"""
from props.phys import *

LEVEL = "proof"
TRUSTED = []
SRC = "q_bw.cpp"
EA, EB = KC["k_ea"], KC["k_eb"]


def tlow(chi):
    return PI * EA / (TWO * EB) * chi * chi * texp(scale(EB, -2) / chi)


def thigh(chi):
    g = app("gamma", num(Fraction(1, 3))) / TWO
    return EA * chi * g * g * tpow(TWO * chi / EB, num(Fraction(2, 3)))


def bw_range(v, r):
    """table limits of the control structure inside the range of the table"""
    return


def contracts():
    out = []
    k = CKernel("q_bw_od", src=SRC)
    u = k.real("u", 0, 0.999999, choices=[0.0, 0.5])
    k.requires(LE(ZERO, u), LT(u, ONE))
    k.requires(LE(tlog(ONE - u), ZERO))      # lemma: the logarithm is not positive below one
    k.ensures("inverse-exponential-law", k.ret(), scale(tlog(ONE - u), -1))
    k.ensures_true("nonnegative", GE(k.ret(), ZERO))
    out.append(k)
    for unit, fl in UNITS:
        si = unit == "SI"
        for reg in ("zero", "low", "high", "table"):
            k = CKernel("q_bw_dndt", src=SRC, flags=fl, label="q_bw_dndt_%s_%s" % (reg, unit))
            n, x0, h, xs, ys = logtable(k)
            E = k.real("E", 1e-13 if si else 2, 1e-9 if si else 1e5, log=True)
            chi, lam = k.real("chi", 1e-3, 1e3, log=True), k.real("lam", 1e-7, 1e-5, log=True)
            tmin, tmax = k.real("tmin", 1e-2, 1, log=True), k.real("tmax", 1, 1e3, log=True)
            k.requires(GE(E, ZERO), GE(chi, ZERO), GT(tmin, ZERO), LT(tmin, tmax), GT(lam, ZERO))
            le = ONE if si else lam
            c = KC["k_pair"] * le / (chi * E)
            k.derive.append(("tmin", lambda v, r: math.exp(v["x0"])))
            k.derive.append(("tmax", lambda v, r: math.exp(v["x0"] + (v["n"] - 1) * v["h"])))
            if reg == "zero":
                k.derive.append(("E", lambda v, r: r.choice([0.0, v["E"]])))
                k.derive.append(("chi", lambda v, r: 0.0 if v["E"] != 0 else v["chi"]))
                k.requires(OR(EQ(E, ZERO), EQ(chi, ZERO)))
                k.ensures("no-rate", k.ret(), ZERO)
            elif reg == "low":
                k.derive.append(("chi", lambda v, r: v["tmin"] * r.choice([1.0, r.uniform(.05, 1)])))
                k.requires(GT(E, ZERO), GT(chi, ZERO), LE(chi, tmin))
                k.ensures("small-chi-asymptote", k.ret(), c * tlow(chi))
            elif reg == "high":
                k.derive.append(("chi", lambda v, r: v["tmax"] * r.choice([1.0, r.uniform(1, 50)])))
                k.requires(GT(E, ZERO), GE(chi, tmax))
                k.ensures("large-chi-asymptote", k.ret(), c * thigh(chi))
            else:
                k.derive.append(("chi", lambda v, r: math.exp(v["x0"] + (v["n"] - 1) * v["h"] * r.choice([r.random(), r.uniform(1e-9, 1e-3), 1 - r.uniform(1e-9, 1e-3)]))))
                w = tlog(chi)
                k.requires(GT(E, ZERO), GT(chi, tmin), LT(chi, tmax), LE(x0, w), LE(w, x0 + (n - ONE) * h))
                u = rnorm((w - x0) / h)
                J = k.J("cell", ZERO, n - TWO)
                k.ensures("table-value", k.ret(), c * texp(interp(xs, ys, w, J[0])), forall=[J], hyps=[LE(J[0], u), LT(u, J[0] + ONE)])
            out.append(k)
        for reg in ("nothing", "low", "high", "table"):
            k = CKernel("q_bw_event", src=SRC, flags=fl, label="q_bw_event_%s_%s" % (reg, unit))
            p, f, lam = particle(k, si)
            n, x0, h, xs, ys = logtable(k)
            chi_stub(k, si, lam)
            cmin, tmin, tmax = k.real("cmin", 1e-4, 1e-2, log=True), k.real("tmin", 1e-2, 1, log=True), k.real("tmax", 1, 1e3, log=True)
            dt = k.real("dt", 0, 1)
            init = k.int("init", 0, 1)
            k.requires(GE(cmin, ZERO), GT(tmin, ZERO), LT(tmin, tmax), GT(dt, ZERO), LE(ZERO, init), LE(init, ONE))
            k.array("od", ONE, gen=lambda v, r, ln: [r.choice([r.expovariate(1), 1e-3 * r.random()])])
            k.each("od", lambda i, x: GE(x, ZERO))
            od, od1 = k.pre("od", 0), rawsel(cbase("post:od", "R"), [ZERO])
            ev, hap = k.out("evdt", ONE)(0), k.out("happened", ONE, "I")(0)
            E = norm(p) * C
            thr = TWO * M * C * C
            below = OR(LE(CHI, cmin), LT(E, thr))
            le = ONE if si else lam
            c = KC["k_pair"] * le / (CHI * E)
            k.derive.append(("tmin", lambda v, r: math.exp(v["x0"])))
            k.derive.append(("tmax", lambda v, r: math.exp(v["x0"] + (v["n"] - 1) * v["h"])))
            if reg == "nothing":
                k.requires(OR(below, EQ(init, ZERO)))
                k.ensures_true("below-threshold-is-not-an-error", k.ret("B"), hyps=[below])
                k.ensures_true("missing-table-is-reported", NOT(k.ret("B")), hyps=[NOT(below)])
                k.ensures("depth-unchanged", od1, od)
                k.ensures("no-event", hap, ZERO)
                k.ensures("no-event-time", ev, ZERO)
                out.append(k)
                continue
            k.derive.append(("init", lambda v, r: 1))
            k.requires(GT(CHI, cmin), GE(E, thr), EQ(init, ONE), GT(E, ZERO), GT(CHI, ZERO))
            # chi lies in the regime: the table is placed around it
            if reg == "low":
                k.requires(LE(CHI, tmin))
                k.derive.append(("tmin", lambda v, r: v["gchi"] * r.choice([1.0, r.uniform(1, 5)])))
                k.derive.append(("tmax", lambda v, r: v["tmin"] * r.uniform(1.5, 100)))
                T_, J, hy = tlow(CHI), [], []
            elif reg == "high":
                k.requires(GE(CHI, tmax), GT(CHI, tmin))
                k.derive.append(("tmax", lambda v, r: v["gchi"] * r.choice([1.0, r.uniform(.2, 1)])))
                k.derive.append(("tmin", lambda v, r: v["tmax"] * r.uniform(.01, .9)))
                T_, J, hy = thigh(CHI), [], []
            else:
                w = tlog(CHI)
                k.requires(GT(CHI, tmin), LT(CHI, tmax), LE(x0, w), LE(w, x0 + (n - ONE) * h))
                k.derive.append(("x0", lambda v, r: math.log(max(v["gchi"], 1e-300)) - (v["n"] - 1) * v["h"] * r.choice([r.random(), r.uniform(1e-9, 1e-3), 1 - r.uniform(1e-9, 1e-3)])))
                k.derive.append(("tmin", lambda v, r: math.exp(v["x0"])))
                k.derive.append(("tmax", lambda v, r: math.exp(v["x0"] + (v["n"] - 1) * v["h"])))
                u = rnorm((w - x0) / h)
                J = k.J("cell", ZERO, n - TWO)
                T_, J, hy = texp(interp(xs, ys, w, J[0])), [J], [LE(J[0], u), LT(u, J[0] + ONE)]
            k.derive.append(("cmin", lambda v, r: min(v["cmin"], v["gchi"] * r.uniform(0, .9))))
            rate = c * T_

            def scaledt(v, r, k=k, reg=reg):
                # time steps of the order of the mean time between events
                return v["dt"] * 10 ** r.uniform(-22, -12) if k.flags == () else v["dt"] * 10 ** r.uniform(-3, 3)
            k.derive.append(("dt", scaledt))
            k.ensures_true("table-found", k.ret("B"))
            k.ensures("depth-decreases-by-rate-times-step", od1, od - rate * dt, forall=J, hyps=hy)
            k.ensures("event-when-depth-exhausted", hap, ite(LT(od1, ZERO), ONE, ZERO))
            k.ensures("event-time", (ev - dt) * rate, od - rate * dt, forall=J, hyps=hy + [LT(od1, ZERO)])
            k.ensures("no-event-time", ev, ZERO, hyps=[GE(od1, ZERO)])
            k.ensures_true("event-inside-step", AND(LE(ZERO, ev), LE(ev, dt)), forall=J, hyps=hy)
            out.append(k)
    return out + deps(("Q01", "chi_photon"), ("Q04", "q_l1_eq"))
