"""shared pieces of the contracts on the host side of the engines"""
from props.phys import *

SRC = "q_eng.cpp"
H = ("-DDV_HOST",)
QSF = ("-DENG_QS",)
ENGS = (("bw", H), ("qs", H + QSF))
BIGN = num(2 ** 20)
# text only: strings and messages carry no state of the engines
TEXT = {r"^(std::__cxx11::basic_string|std::allocator<|std::(__cxx11::)?to_string|(void )?picsar::multi_physics::(msg|err)\b|std::basic_ostream<[^(]*& std::operator<<)": lambda ex, fr, st, args, dem, ins: ("val", None)}


def sized(k, n, lo=0, hi=6, cap=BIGN):
    t = k.int(n, lo, hi)
    k.requires(LE(num(lo), t), LT(t, cap))
    return t


def ctl(k, a="ctl", b="ct", lam="lam", u="u", draws=2):
    """reference length, control values, random numbers an engine is built with"""
    l = k.real(lam, 1e-7, 1e-5, choices=[1e-6], log=True)
    k.array(a, num(5))
    k.array(b, num(3), sort="I", lo=0, hi=9)
    k.array(u, draws if isinstance(draws, T) else num(draws), lo=0, hi=0.999)
    return l


def tables(k, n="n", xs="xs", ys="ys", m="m", us="us", p="p", vs="vs", zs="zs", lo=0, skip=0):
    """sizes and contents of the two tables; skip: bit 0 the first table is absent, bit 1 the second"""
    if skip & 1:
        k.fix(n, 0)
    if skip & 2:
        k.fix(m, 0), k.fix(p, 0)
    n = ZERO if skip & 1 else sized(k, n, lo)
    m, p = (ZERO, ZERO) if skip & 2 else (sized(k, m, lo, 4), sized(k, p, lo, 5))
    k.array(xs, n); k.array(ys, n); k.array(us, m); k.array(vs, p); k.array(zs, m * p)
    return n, m, p


def outs(k, n, m, p):
    for a, ln in (("oc", n), ("od", n), ("o1", m), ("o2", p), ("oz", m * p)):
        k.out(a, ln)


def same_tables(k, n, m, p, meta, src=("xs", "ys", "us", "vs", "zs"), skip=0):
    for i, (nm, v) in enumerate((("first-table-initialised", num(1 - (skip & 1))), ("first-table-coordinates", n), ("first-table-values", n), ("second-table-initialised", num(1 - (skip >> 1))),
                                 ("second-table-coordinates-1", m), ("second-table-coordinates-2", p), ("second-table-values", m * p))):
        k.ensures(nm, meta(i), v)
    for o, ln, s in (("oc", n, src[0]), ("od", n, src[1]), ("o1", m, src[2]), ("o2", p, src[3]), ("oz", m * p, src[4])):
        if ln is ZERO:
            continue
        J = k.J(o, ZERO, sub(ln, ONE))
        k.ensures("kept-" + s, rawsel(cbase("post:" + o, "R"), [J[0]]), k.pre(s, J[0]), forall=[J])


def same_scalars(k, lam, a="ctl", b="ct", u="u"):
    os, oc, ot = k.out("os", num(3)), k.out("octl", num(5)), k.out("oct", num(3), "I")
    k.ensures("reference-length", os(0), lam)
    k.ensures("random-number-1", os(1), k.pre(u, 0))
    k.ensures("random-number-2", os(2), k.pre(u, 1))
    for i in range(5):
        k.ensures("control-value-%d" % i, oc(i), k.pre(a, i))
    for i in range(3):
        k.ensures("control-size-%d" % i, ot(i), k.pre(b, i, "I"))


def ek(fn, fl, label, **kw):
    kw.setdefault("stubs", dict(TEXT))
    return CKernel(fn, src=SRC, flags=fl, label=label, **kw)


GENERATOR = r"internal_generate_(breit_wheeler_pairs|photons_and_update_momentum)\("


def generator_stub(k, K, W, lam, nout, n0, mom):
    """calls of the event generator are replaced by an arbitrary function of its arguments: every call must pass this particle, the engine's state and the
    numbers drawn, and then gets the same results"""
    seen = {}

    def g(ex, fr, st, a, dem, ins):
        want = [sym(x) for x in MOM + FLD]
        vals = list(a[:11])
        ptr = []
        if mom:
            for i in range(3):
                vals[i] = ex.load(st, a[i], llvm.irparse.Ty("fp", 64))
        ok = all(ex.ctx.entails(EQ(x, w)) for x, w in zip(vals[:9], want))
        ok = ok and ex.ctx.entails(EQ(vals[9], W)) and ex.ctx.entails(EQ(asI(vals[10]), K))
        ex.obl.append(("generator-called-for-this-particle", ok, dem[:60]))
        outs, (l, tab, ct, unf) = a[11:11 + nout], a[11 + nout:]
        ex.obl.append(("generator-reference-length", bool(ex.ctx.entails(EQ(l, lam))), ""))
        rest = [ex.pnorm(x) for x in (tab, ct)]
        key = [(x.o, x.off) for x in rest]
        first = seen.setdefault("k", key)
        ex.obl.append(("generator-table-and-control", all(x[0] is y[0] and ex.ctx.entails(EQ(x[1], y[1])) for x, y in zip(key, first)), ""))
        p = ex.pnorm(unf)
        b = fresh("b", "I")
        ex.ctx.push()
        ex.ctx.assume(AND(LE(ZERO, b), LT(b, K)))
        i0, _ = ex.elem(p.o, p.off)
        ex.bounds(p.o, add(i0, b), "read")
        x = select(ex.content(st, p.o, 0), [add(i0, b)], ex.ctx)
        ex.obl.append(("generator-gets-the-numbers-drawn", x is k.pre("u", b) or bool(ex.ctx.entails(EQ(x, k.pre("u", b)))), show(x, 80)))
        ex.ctx.pop()
        for i, o in enumerate(outs):
            q = ex.pnorm(o)
            i0, _ = ex.elem(q.o, q.off)
            ex.check_live(st, q.o, "write")
            ex.oblige("in-bounds", OR(LE(K, ZERO), AND(LE(ZERO, i0), LE(add(i0, K), q.o.length))), "generator output")
            b = fresh("b", "I")
            st.mem[(q.o, 0)] = cwrite(ex.content(st, q.o, 0), [add(i0, b)], rawsel(cbase("gen!%d" % i, "R"), [b]), binders=((b, ZERO, sub(K, ONE), ONE),))
        if mom:
            for i in range(3):
                ex.store(st, a[i], sym("genmom!%d" % i), llvm.irparse.Ty("fp", 64))
        return ("val", TRUE)
    k.stubs[GENERATOR] = g
    k.assumes.append("the event generator is a function of its arguments (its own contract is discharged in the same check)")


def gen_contract(en, fl, unit, uf, zgen):
    """the host method returns, for every sample, what the device function writes"""
    si = unit == "SI"
    k = ek("q_e_gen", fl + uf, "q_e_gen_%s_%s" % (en, unit))
    qs = en == "qs"
    p, f, lam = particle(k, si, gmin=(-.5 if qs else .7), gmax=6.0)
    K = k.int("ns", 0, 6)
    W = k.real("wt", .5, 5)
    k.requires(LE(ZERO, K), LT(K, BIGN))
    m, q = sized(k, "m", 2, 5), sized(k, "p", 2, 7)
    k.array("ctl", num(5), gen=lambda v, r, ln: [1e-4, 1e-3, 1e3, 1e-3, 1e2])
    k.array("ct", num(3), sort="I", lo=2, hi=9)
    k.array("us", m, gen=lambda v, r, ln: [math.log(1e-3) + (math.log(1e2) - math.log(1e-3)) * i / (ln - 1) for i in range(ln)])
    k.array("vs", q, gen=lambda v, r, ln: [(1.0 if qs else .5) * i / (ln - 1) for i in range(ln)])
    k.array("zs", m * q, gen=lambda v, r, ln: zgen(dict(n=v["m"], m=v["p"]), r))
    k.array("u", K, gen=lambda v, r, ln: [r.random() * .99 for _ in range(ln)])
    ns = 4 if qs else 8
    h, d = k.out("h", K * num(ns)), k.out("d", K * num(ns))
    meta = k.out("meta", TWO, "I")
    hp, dp = k.out("hp", num(3)), k.out("dp", num(3))
    generator_stub(k, K, W, ONE if si else lam, ns, 0, qs)
    k.ensures("as-many-as-the-sampling", meta(0), K)
    k.ensures("as-many-as-the-sampling-2", meta(1), K)
    for i in range(ns):
        J = k.J("s", ZERO, K - ONE)
        k.ensures("same-as-device-%d" % i, h(K * num(i) + J[0]), d(K * num(i) + J[0]), forall=[J])
    for i in range(3):
        k.ensures("same-momentum-%d" % i, hp(i), dp(i))
    return k
