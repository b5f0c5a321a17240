"""two-dimensional lookup table: the four interpolations, element access, value semantics"""
import math
from props.tab import *

LEVEL = "proof"
TRUSTED = ["table sizes below 2^20 per dimension"]
B20 = 2 ** 20


def grid(k, n, form, c):
    """coordinates along one direction: equally spaced (form) or any increasing sequence"""
    if form:
        x0, h = k.real(c + "0", -3, 3, choices=[0.0, -1.5, 1.0]), k.real(c + "h", 0.1, 2, choices=[0.25, 0.5, 1.0])
        k.requires(GT(h, ZERO))
        k.scales.append(h)
        f = k.array(c + "s", n, form=lambda i: x0 + i * h)
        N = "n" if c == "x" else "m"
        last = lambda v: v[c + "0"] + (v[N] - 1) * v[c + "h"]
        k.derive.append(("w" + c, lambda v, r: None if c == "y" and "wy" not in k.dom else r.choice([math.nextafter(last(v), -math.inf), v[c + "0"] + (v[N] - 1) * v[c + "h"] * r.choice([0.0, r.random() * .999, r.random() * .999, r.randint(0, v[N] - 2) / (v[N] - 1)]),
                                  min(max(v[c + "0"], v[c + "0"] + v[c + "h"] * (r.randint(0, v[N] - 1) + r.choice([-1, 1]) * 10 ** r.uniform(-12, -1))), math.nextafter(last(v), -math.inf))])))
        return f, x0, h

    def inc(v, r, ln):
        x, o = float(r.randint(-1, 1)), []
        for _ in range(ln):
            o.append(x)
            x += r.choice([1.0, r.uniform(0.05, 2)])
        v["w" + c] = r.choice([o[0], o[-1], r.choice(o), r.uniform(o[0], o[-1]), r.uniform(o[0], o[-1])])
        return o
    k.array(c + "s", n, gen=inc)
    k.sorted(c + "s")
    return (lambda i: k.pre(c + "s", i)), None, None


def start(fn, label=None, invs=(), two=True, form=True):
    k = CKernel(fn, src=SRC, label=label, invs=list(invs))
    n, m = k.int("n", 2, 6), k.int("m", 2 if two else 1, 6)
    k.requires(LE(num(2), n), LT(n, num(B20)), LE(num(2 if two else 1), m), LT(m, num(B20)))
    xs = grid(k, n, form, "x")
    ys = grid(k, m, form, "y") if two else None
    if not two:
        k.array("ys", m)
    k.array("zs", n * m)
    return k, n, m, xs, ys, (lambda i, j: k.pre("zs", add(mul(i, m), lift(j))))


def bil(z, x0, x1, y0, y1, wx, wy, i, j):
    a, b = (wx - x0) / (x1 - x0), (wy - y0) / (y1 - y0)
    return (ONE - a) * (ONE - b) * z(i, j) + a * (ONE - b) * z(i + ONE, j) + (ONE - a) * b * z(i, j + ONE) + a * b * z(i + ONE, j + ONE)


def contracts():
    out = []
    # ---- equally spaced, both directions, interior and on the last coordinates
    for lastx in (0, 1):
        for lasty in (0, 1):
            k, n, m, (xs, x0, hx), (ys, y0, hy), z = start("q_l2_eq", "q_l2_eq%s%s" % ("_lastx" * lastx, "_lasty" * lasty))
            J, hy_, ij = [], [], []
            for c, L, o, h, last in (("x", n, x0, hx, lastx), ("y", m, y0, hy, lasty)):
                if last:
                    w = k.fix("w" + c, o + (L - ONE) * h)
                    k.derive = [d for d in k.derive if d[0] != "w" + c]
                    ij.append(L - num(2))
                else:
                    w = k.real("w" + c, -3, 20)
                    u = llvm.rnorm((w - o) / h)
                    k.requires(LE(ZERO, u), LE(u, L - ONE), LE(o, w))
                    q = k.J("cell" + c, ZERO, L - num(2))
                    J.append(q)
                    hy_ += [LE(q[0], u), LT(u, q[0] + ONE)]
                    ij.append(q[0])
            i, j = ij
            wx, wy = k.fixed.get("wx", sym("wx")), k.fixed.get("wy", sym("wy"))
            k.ensures("bilinear-in-the-cell", k.ret(), bil(z, xs(i), xs(i + ONE), ys(j), ys(j + ONE), wx, wy, i, j), forall=J, hyps=hy_)
            out.append(k)
    # ---- any increasing coordinates
    k, n, m, (xs, _, _), (ys, _, _), z = start("q_l2_gen", invs=[ub_inv()], form=False)
    wx, wy = k.real("wx", -1, 9), k.real("wy", -1, 9)
    k.requires(LE(xs(0), wx), LE(wx, xs(n - ONE)), LE(ys(0), wy), LE(wy, ys(m - ONE)))
    I, J = k.J("cellx", ZERO, n - num(2)), k.J("celly", ZERO, m - num(2))
    i, j = I[0], J[0]
    inx, iny = [LE(xs(i), wx), LT(wx, xs(i + ONE))], [LE(ys(j), wy), LT(wy, ys(j + ONE))]
    B = bil(z, xs(i), xs(i + ONE), ys(j), ys(j + ONE), wx, wy, i, j)
    k.ensures("bilinear-in-the-cell", k.ret(), B, forall=[I, J], hyps=inx + iny)
    one = lambda w, a, b: (w - a) / (b - a)
    a, b = one(wx, xs(i), xs(i + ONE)), one(wy, ys(j), ys(j + ONE))
    k.ensures("last-x", k.ret(), (ONE - b) * z(n - ONE, j) + b * z(n - ONE, j + ONE), forall=[J], hyps=[EQ(wx, xs(n - ONE))] + iny)
    k.ensures("last-y", k.ret(), (ONE - a) * z(i, m - ONE) + a * z(i + ONE, m - ONE), forall=[I], hyps=[EQ(wy, ys(m - ONE))] + inx)
    k.ensures("last-corner", k.ret(), z(n - ONE, m - ONE), hyps=[EQ(wx, xs(n - ONE)), EQ(wy, ys(m - ONE))])
    out.append(k)
    # ---- interpolation along the first direction only
    k, n, m, (xs, _, _), _, z = start("q_l2_first", invs=[ub_inv()], form=False, two=False)
    wx, c = k.real("wx", -1, 9), k.int("j", 0, 5)
    k.requires(LE(ZERO, c), LT(c, m), LE(xs(0), wx), LE(wx, xs(n - ONE)))
    I = k.J("cellx", ZERO, n - num(2))
    i = I[0]
    a = one(wx, xs(i), xs(i + ONE))
    k.ensures("linear-in-the-cell", k.ret(), (ONE - a) * z(i, c) + a * z(i + ONE, c), forall=[I], hyps=[LE(xs(i), wx), LT(wx, xs(i + ONE))])
    k.ensures("last-coordinate", k.ret(), z(n - ONE, c), hyps=[EQ(wx, xs(n - ONE))])
    out.append(k)
    k, n, m, (xs, x0, h), _, z = start("q_l2_firsteq", two=False)
    w, c = k.real("wx", -3, 20), k.int("j", 0, 5)
    k.derive.append(("wx", lambda v, r: v["wx"] if r.random() < .6 else v["x0"] + r.choice([-1.0, 0.0, (v["n"] - 1) * v["xh"], v["n"] * v["xh"]])))
    k.requires(LE(ZERO, c), LT(c, m))
    u = llvm.rnorm((w - x0) / h)
    I = k.J("cellx", ZERO, n - num(2))
    i = I[0]
    a = u - i
    k.ensures("linear-in-the-cell", k.ret(), (ONE - a) * z(i, c) + a * z(i + ONE, c), forall=[I], hyps=[LE(i, u), LT(u, i + ONE), LT(x0, w)])
    k.ensures("clamped-below", k.ret(), z(ZERO, c), hyps=[LE(w, x0)])
    k.ensures("clamped-above", k.ret(), z(n - ONE, c), hyps=[LE(x0 + (n - ONE) * h, w)])
    out.append(k)
    k, n, m, _, _, z = start("q_l2_at", form=False)
    i, j = k.int("i", 0, 5), k.int("j", 0, 5)
    k.requires(LE(ZERO, i), LT(i, n), LE(ZERO, j), LT(j, m))
    k.ensures("element", k.ret(), z(i, j))
    out.append(k)
    # ---- value semantics
    for how in ("build", "copy", "assign", "move"):
        k = CKernel("q_l2_" + how, src=SRC)
        n, m = k.int("n", 1, 6), k.int("m", 1, 6)
        k.requires(LE(ONE, n), LT(n, num(B20)), LE(ONE, m), LT(m, num(B20)))
        for a, L in (("xs", n), ("ys", m), ("zs", n * m)):
            k.array(a, L)
        o1, o2, od = k.out("o1", n), k.out("o2", m), k.out("od", n * m)
        meta = k.out("meta", num(5 if how == "assign" else 4), "I")
        q = 0
        if how == "assign":
            k.ensures("default-not-initialised", meta(0), ZERO)
            q = 1
        for a, (nm, e) in enumerate((("initialised", ONE), ("first-size", n), ("second-size", m), ("data-size", n * m))):
            k.ensures(nm, meta(q + a), e)
        if how in ("copy", "assign"):
            i, v = k.int("k", 0, 5), k.real("v")
            k.requires(LE(ZERO, i), LT(i, n))
        ed = (lambda a: (lambda j: ite(EQ(j, i), v, k.pre(a, j)))) if how == "copy" else (lambda a: (lambda j: k.pre(a, j)))
        for nm, o, a, L in (("first-coords", o1, "xs", n), ("data", od, "zs", n * m)):
            J = k.J("j", ZERO, L - ONE)
            k.ensures(nm, o(J[0]), ed(a)(J[0]), forall=[J])
        J = k.J("j", ZERO, m - ONE)
        k.ensures("second-coords", o2(J[0]), k.pre("ys", J[0]), forall=[J])
        for a, L in (("xs", n), ("ys", m), ("zs", n * m)):
            J = k.J("j", ZERO, L - ONE)
            k.ensures(a + "-untouched", rawsel(cbase("post:" + a, "R"), [J[0]]), k.pre(a, J[0]), forall=[J])
        out.append(k)
    return out
