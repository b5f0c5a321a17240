"""three-vector algebra and fixed-size arrays"""
from ccontract import *

LEVEL = "proof"
TRUSTED = []
SRC = "q_vec.cpp"


def K(fn, names, out=0):
    k = CKernel(fn, src=SRC)
    v = {n: k.real(n, -1e3, 1e3, choices=[0.0, 1.0], wide=(-45, 45)) for n in names}
    o = k.out("o", num(out)) if out else None
    return k, v, o


def V(v, c):
    return [v[c + a] for a in "xyz"]


def contracts():
    out = []
    A, B = ["ax", "ay", "az"], ["bx", "by", "bz"]
    dot = lambda a, b: a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
    k, v, _ = K("q_norm2", A)
    k.ensures("sum-of-squares", k.ret(), dot(V(v, "a"), V(v, "a")))
    out.append(k)
    k, v, _ = K("q_norm", A)
    k.ensures_true("nonnegative", GE(k.ret(), ZERO))
    k.ensures("square", k.ret() * k.ret(), dot(V(v, "a"), V(v, "a")))
    out.append(k)
    k, v, _ = K("q_dot", A + B)
    k.ensures("dot", k.ret(), dot(V(v, "a"), V(v, "b")))
    out.append(k)
    def cross(a, b):
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    for fn, names, f in (("q_cross", A + B, lambda v: cross(V(v, "a"), V(v, "b"))),
                         ("q_vs", A + ["s"], lambda v: [x * v["s"] for x in V(v, "a")]),
                         ("q_sv", A + ["s"], lambda v: [x * v["s"] for x in V(v, "a")]),
                         ("q_vd", A + ["s"], lambda v: [x / v["s"] for x in V(v, "a")]),
                         ("q_add", A + B, lambda v: [x + y for x, y in zip(V(v, "a"), V(v, "b"))]),
                         ("q_sub", A + B, lambda v: [x - y for x, y in zip(V(v, "a"), V(v, "b"))])):
        k, v, o = K(fn, names, 3)
        if fn == "q_vd":
            k.requires(NE(v["s"], ZERO))
        for i, e in enumerate(f(v)):
            k.ensures("component%d" % i, o(i), e)
        out.append(k)
    k, v, o = K("q_arr", ["a", "b", "c", "d", "v"], 8)
    i = k.int("k", 0, 3)
    k.requires(LE(ZERO, i), LT(i, num(4)))
    meta = k.out("meta", num(2), "I")
    for j, n in enumerate("abcd"):
        k.ensures("original%d" % j, o(j), v[n])
        k.ensures("copy%d" % j, o(4 + j), ite(EQ(i, num(j)), v["v"], v[n]))
    k.ensures("size", meta(0), num(4))
    k.ensures("span", meta(1), num(3))
    out.append(k)
    return out
