"""the random number generator wrapper"""
import math
from props.phys import *

LEVEL = "proof"
TRUSTED = ["std::mt19937_64 and std::generate_canonical: the n-th number of a seed, in [0,1), is a function of seed and n (replay checks them against an independent implementation)"]
SRC2 = "q_misc.cpp"
_seq = {}


def mt(seed, n):
    """n-th 64-bit output of the Mersenne Twister 19937-64"""
    if seed not in _seq:
        M = (1 << 64) - 1
        s = [seed & M]
        for i in range(1, 312):
            s.append((6364136223846793005 * (s[-1] ^ (s[-1] >> 62)) + i) & M)
        _seq[seed] = [s, []]
    s, out = _seq[seed]
    while len(out) <= n:
        for i in range(312):
            y = (s[i] & 0xFFFFFFFF80000000) | (s[(i + 1) % 312] & 0x7FFFFFFF)
            s[i] = s[(i + 156) % 312] ^ (y >> 1) ^ (0xB5026F5AA96619E9 if y & 1 else 0)
        for y in s:
            y ^= (y >> 29) & 0x5555555555555555
            y ^= (y << 17) & 0x71D67FFFEDA60000
            y ^= (y << 37) & 0xFFF7EEE000000000
            out.append(y ^ (y >> 43))
    return out[n]


def canon(seed, n):
    return app("canon", seed, n)


def twister(k):
    """the engine is two ghost cells: its seed and how many numbers it has given"""
    I64, D = llvm.irparse.Ty("int", 64), llvm.irparse.Ty("fp", 64)

    def seed(ex, fr, st, a, dem, ins):
        ex.store(st, a[0], a[1], I64)
        ex.store(st, ex.padd(a[0], 8), ZERO, I64)
        return ("val", None)

    def draw(ex, fr, st, a, dem, ins):
        s = asI(ex.load(st, a[0], I64))
        n = asI(ex.load(st, ex.padd(a[0], 8), I64))
        ex.store(st, ex.padd(a[0], 8), add(n, ONE), I64)
        r = canon(s, n)
        ex.assume(AND(LE(ZERO, r), LT(r, ONE)))
        return ("val", r)
    k.stubs[r"mersenne_twister_engine<.*>::(mersenne_twister_engine|seed)\(unsigned long\)$"] = seed
    k.stubs[r"std::generate_canonical<"] = draw
    k.apps = {"canon": lambda v, s, n: __import__("mpmath").mpf(min(float(mt(int(s), int(n))) / 2.0 ** 64, 1 - 2.0 ** -53))}


def contracts():
    out = []
    for how in (0, 1):
        k = CKernel("q_rng_seq", src=SRC2, label="q_rng_%s" % ("seed", "generator")[how], samples=20)
        k.fix("how", how)
        s, n = k.int("seed", 0, 10 ** 6), k.int("n", 0, 400)
        a, b, l = k.real("a", -5, 5), k.real("b", -5, 5), k.real("l", .1, 10)
        k.requires(LE(ZERO, n), LT(n, num(BIG)), LE(ZERO, s), LT(s, num(2 ** 64)), LT(ZERO, l), LT(a, b))
        k.derive.append(("b", lambda v, r: v["a"] + r.uniform(.01, 5)))
        o = k.out("o", num(4))
        twister(k)
        k.ensures("uniform-on-the-interval", o(1), a + (b - a) * canon(s, n))
        k.ensures("exponential-of-the-rate", o(2), -(llvm.tlog(ONE - canon(s, n + ONE))) / l)
        k.ensures("next-number-of-the-sequence", o(3), a + (b - a) * canon(s, n + TWO))
        k.ensures_true("inside-the-interval", AND(LE(a, o(1)), LT(o(1), b)))
        out.append(k)
    for how in range(4):
        k = CKernel("q_rng_copy", src=SRC2, label="q_rng_%s" % ("copy", "move", "assign", "self_assign")[how], samples=20)
        k.fix("how", how)
        s, s2, n = k.int("seed", 0, 10 ** 6), k.int("seed2", 0, 10 ** 6), k.int("n", 0, 400)
        k.requires(LE(ZERO, n), LT(n, num(BIG)), LE(ZERO, s), LT(s, num(2 ** 64)), LE(ZERO, s2), LT(s2, num(2 ** 64)))
        o = k.out("o", num(5))
        twister(k)
        k.ensures("continues-the-sequence", o(1), canon(s, n))
        k.ensures("continues-the-sequence-2", o(2), canon(s, n + ONE))
        if how in (0, 2):
            k.ensures("original-continues-on-its-own", o(3), canon(s, n))
        if how != 2:
            k.ensures("another-generator-unaffected", o(4), canon(s2, ZERO))
        out.append(k)
    return out
