"""one-dimensional lookup table: interpolation and value semantics"""
import math
from props.tab import *

LEVEL = "proof"
TRUSTED = ["table sizes below 2^40"]


def lin1(x0, x1, y0, y1, w):
    return y0 + (y1 - y0) / (x1 - x0) * (w - x0)


def contracts():
    out = []
    k = CKernel("q_l1_eq", src=SRC, label="q_l1_eq_last")
    n = k.int("n", 2, 9)
    x0, h = k.real("x0", -3, 3, choices=[0.0, -1.5, 1.0]), k.real("h", 0.1, 2, choices=[0.25, 0.5, 1.0])
    k.fix("where", x0 + (n - ONE) * h)
    k.requires(LE(num(2), n), LT(n, num(BIG)), GT(h, ZERO))
    k.array("xs", n, form=lambda i: x0 + i * h)
    k.array("ys", n)
    k.ensures("last-coordinate", k.ret(), k.pre("ys", n - ONE))
    out.append(k)
    k = CKernel("q_l1_eq", src=SRC)
    n = k.int("n", 2, 9)
    x0 = k.real("x0", -3, 3, choices=[0.0, -1.5, 1.0])
    h = k.real("h", 0.1, 2, choices=[0.25, 0.5, 1.0])
    w = k.real("where", -3, 20)
    k.requires(LE(num(2), n), LT(n, num(BIG)), GT(h, ZERO))
    xs = k.array("xs", n, form=lambda i: x0 + i * h)
    k.array("ys", n)
    ys = lambda i: k.pre("ys", i)
    last = x0 + (n - ONE) * h
    u = llvm.rnorm((w - x0) / h)
    k.requires(LE(x0, w), LE(w, last))
    k.derive.append(("where", lambda v, r: r.choice([math.nextafter(v["x0"] + (v["n"] - 1) * v["h"], -math.inf), v["x0"] + (v["n"] - 1) * v["h"] * r.choice([0.0, 1.0, r.random(), r.random(), r.randint(0, v["n"] - 1) / (v["n"] - 1)]),
                                                     min(max(v["x0"], v["x0"] + v["h"] * (r.randint(0, v["n"] - 1) + r.choice([-1, 1]) * 10 ** r.uniform(-12, -1))), v["x0"] + (v["n"] - 1) * v["h"])])))
    J = k.J("cell", ZERO, n - num(2))
    k.ensures("linear-in-the-cell", k.ret(), lin1(xs(J[0]), xs(J[0] + ONE), ys(J[0]), ys(J[0] + ONE), w), forall=[J], hyps=[LE(J[0], u), LT(u, J[0] + ONE)])
    out.append(k)
    k = CKernel("q_l1_gen", src=SRC, invs=[ub_inv()])
    n = k.int("n", 2, 9)
    w = k.real("where", -1, 9, choices=[0.0, 1.0, 2.0, 3.0])
    k.requires(LE(num(2), n), LT(n, num(BIG)))

    def inc(v, r, ln):
        x, o = float(r.randint(-1, 1)), []
        for _ in range(ln):
            o.append(x)
            x += r.choice([1.0, r.uniform(0.05, 2)])
        v["where"] = r.choice([o[0], o[-1], r.choice(o), r.uniform(o[0], o[-1]), r.uniform(o[0], o[-1])])
        return o
    k.array("xs", n, gen=inc)
    k.sorted("xs")
    k.array("ys", n)
    xs, ys = (lambda i: k.pre("xs", i)), (lambda i: k.pre("ys", i))
    k.requires(LE(xs(0), w), LE(w, xs(n - ONE)))
    J = k.J("cell", ZERO, n - num(2))
    k.ensures("linear-in-the-cell", k.ret(), lin1(xs(J[0]), xs(J[0] + ONE), ys(J[0]), ys(J[0] + ONE), w), forall=[J], hyps=[LE(xs(J[0]), w), LT(w, xs(J[0] + ONE))])
    k.ensures("last-coordinate", k.ret(), ys(n - ONE), hyps=[EQ(w, xs(n - ONE))])
    out.append(k)
    for how in ("build", "copy", "assign", "move"):
        k = CKernel("q_l1_" + how, src=SRC)
        n = k.int("n", 1, 9)
        k.requires(LE(ONE, n), LT(n, num(BIG)))
        k.array("xs", n)
        k.array("ys", n)
        oc, od = k.out("oc", n), k.out("od", n)
        meta = k.out("meta", num(4 if how == "assign" else 3), "I")
        xs, ys = (lambda i: k.pre("xs", i)), (lambda i: k.pre("ys", i))
        m = 0
        if how == "assign":
            k.ensures("default-not-initialised", meta(0), ZERO)
            m = 1
        k.ensures("initialised", meta(m), ONE)
        k.ensures("coords-size", meta(m + 1), n)
        k.ensures("data-size", meta(m + 2), n)
        J = k.J("j", ZERO, n - ONE)
        if how in ("copy", "assign"):
            i = k.int("k", 0, 8)
            v = k.real("v")
            k.requires(LE(ZERO, i), LT(i, n))
        ed = (lambda f: (lambda j: ite(EQ(j, i), v, f(j)))) if how == "copy" else (lambda f: f)
        k.ensures("coords", oc(J[0]), ed(xs)(J[0]), forall=[J])
        k.ensures("data", od(J[0]), ed(ys)(J[0]), forall=[J])
        for a in ("xs", "ys"):
            k.ensures(a + "-untouched", rawsel(cbase("post:" + a, "R"), [J[0]]), k.pre(a, J[0]), forall=[J])
        out.append(k)
    return out
