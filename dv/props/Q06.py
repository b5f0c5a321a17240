"""lookup tables written to a stream and read back"""
from props.tab import *

LEVEL = "proof"
TRUSTED = ["std::ofstream / std::ifstream: a read of a block of the size written returns the bytes written (file system not modelled)"]
SRC = "q_io.cpp"
FL = ("-DDV_HOST",)


def size(k, n, lo=0, hi=7):
    t = k.int(n, lo, hi)
    k.requires(LE(num(lo), t), LT(t, num(BIG)))
    return t


def same(k, name, out, n, src):
    J = k.J(name, ZERO, sub(n, ONE))
    k.ensures(name, rawsel(cbase("post:" + out, "R"), [J[0]]), k.pre(src, J[0]), forall=[J])


def contracts():
    out = []
    for how in (0, 1):
        k = CKernel("q_l1_io", src=SRC, flags=FL, label="q_l1_io_%s" % ("fresh", "over")[how])
        n = size(k, "n")
        k.fix("how", how)
        size(k, "k", 0, 9)
        k.array("xs", n); k.array("ys", n); k.out("oc", n); k.out("od", n)
        m = k.out("meta", num(3), "I")
        for i, (nm, v) in enumerate((("initialised", ONE), ("number-of-coordinates", n), ("number-of-values", n))):
            k.ensures(nm, m(i), v)
        same(k, "coordinates", "oc", n, "xs")
        same(k, "values", "od", n, "ys")
        out.append(k)
        k = CKernel("q_l2_io", src=SRC, flags=FL, label="q_l2_io_%s" % ("fresh", "over")[how])
        n, q = size(k, "n"), size(k, "m")
        k.fix("how", how)
        size(k, "k", 0, 9)
        k.array("xs", n); k.array("ys", q); k.array("zs", n * q); k.out("o1", n); k.out("o2", q); k.out("od", n * q)
        m = k.out("meta", num(4), "I")
        for i, (nm, v) in enumerate((("initialised", ONE), ("number-of-coordinates-1", n), ("number-of-coordinates-2", q), ("number-of-values", n * q))):
            k.ensures(nm, m(i), v)
        same(k, "coordinates-1", "o1", n, "xs")
        same(k, "coordinates-2", "o2", q, "ys")
        same(k, "values", "od", n * q, "zs")
        out.append(k)
    k = CKernel("q_io_two", src=SRC, flags=FL)
    n, q = size(k, "n"), size(k, "m")
    k.array("xs", n); k.array("ys", n); k.array("us", q); k.array("vs", q); k.out("oc", n); k.out("od", n); k.out("pc", q); k.out("pd", q)
    m = k.out("meta", num(2), "I")
    k.ensures("size-of-first", m(0), n)
    k.ensures("size-of-second", m(1), q)
    for a, b, c in (("oc", n, "xs"), ("od", n, "ys"), ("pc", q, "us"), ("pd", q, "vs")):
        same(k, c, a, b, c)
    out.append(k)
    return out
