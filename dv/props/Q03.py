"""dynamic vector: value semantics, ownership, no leak, no access outside the elements"""
from ccontract import *

LEVEL = "proof"
TRUSTED = ["operator new[] returns fresh storage (allocation failure not modelled)"]
SRC = "q_vec.cpp"


class PV:
    def __init__(s, fn, **kw):
        s.k = CKernel(fn, src=SRC, **kw)

    def size(s, n, lo=0, hi=9):
        t = s.k.int(n, lo, hi)
        s.k.requires(LE(num(lo), t), LT(t, num(2 ** 40)))
        return t

    def arr(s, n, L):
        s.k.array(n, L)
        return lambda i: s.k.pre(n, i)

    def meta(s, **kw):
        m = s.k.out("meta", num(len(kw)), "I")
        for i, (n, v) in enumerate(kw.items()):
            s.k.ensures(n, m(i), lift(v))

    def same(s, name, n, L, f, hyps=()):
        J = s.k.J(name, ZERO, sub(L, ONE))
        o = lambda i: rawsel(cbase("post:" + n, "R"), [lift(i)])
        s.k.ensures(name, o(J[0]), f(J[0]), forall=[J], hyps=hyps)


def contracts():
    out = []

    def new(fn):
        p = PV(fn)
        out.append(p.k)
        return p
    # copy constructor
    p = new("q_pv_copy")
    n = p.size("n"); i = p.size("k"); v = p.k.real("v"); a = p.arr("a", n); p.k.out("o", n)
    p.k.requires(LT(i, n))
    p.meta(size=n, source_size=n)
    p.same("copy-of-source", "o", n, lambda j: ite(EQ(j, i), v, a(j)))
    p.same("source-unchanged", "a", n, a)
    # copy assignment
    p = new("q_pv_assign")
    n = p.size("n"); m = p.size("m"); i = p.size("k"); v = p.k.real("v"); a = p.arr("a", n); b = p.arr("b", m)
    p.k.out("o", n); p.k.out("p", n)
    p.k.requires(LT(i, n))
    p.meta(size_source=n, size_target=n, returns_target=1)
    p.same("source", "o", n, lambda j: ite(EQ(j, i), v, a(j)))
    p.same("target-independent", "p", n, a)
    p.same("a-unchanged", "a", n, a)
    p.same("b-unchanged", "b", m, b)
    p = new("q_pv_assign_view")
    n = p.size("n"); m = p.size("m"); i = p.size("k"); v = p.k.real("v"); a = p.arr("a", n); b = p.arr("b", m)
    p.k.out("o", n)
    p.k.requires(LT(i, n))
    p.meta(size=n)
    p.same("target", "o", n, lambda j: ite(EQ(j, i), v, a(j)))
    p.same("a-unchanged", "a", n, a)
    p.same("b-unchanged", "b", m, b)
    p = new("q_pv_self")
    n = p.size("n"); a = p.arr("a", n); p.k.out("o", n)
    p.meta(size=n)
    p.same("unchanged", "o", n, a)
    # moves
    p = new("q_pv_move")
    n = p.size("n"); a = p.arr("a", n); p.k.out("o", n)
    p.meta(moved_from_empty=0, size=n, steals_storage=1, moved_from_releases=1)
    p.same("contents", "o", n, a)
    p = new("q_pv_moveassign")
    n = p.size("n"); m = p.size("m"); a = p.arr("a", n); b = p.arr("b", m); p.k.out("o", n)
    p.meta(moved_from_empty=0, size=n, steals_storage=1, moved_from_releases=1)
    p.same("contents", "o", n, a)
    p = new("q_pv_selfmove")
    n = p.size("n"); a = p.arr("a", n); p.k.out("o", n)
    p.meta(size=n)
    p.same("unchanged", "o", n, a)
    p = new("q_pv_moveview")
    n = p.size("n"); i = p.size("k"); v = p.k.real("v"); a = p.arr("a", n)
    p.k.requires(LT(i, n))
    p.meta(moved_from_empty=0, size=n, still_a_view=1)
    p.same("writes-go-to-the-view", "a", n, lambda j: ite(EQ(j, i), v, a(j)))
    # resize
    p = new("q_pv_resize")
    n = p.size("n"); m = p.size("m"); a = p.arr("a", n); p.k.out("o", tmin(n, m))
    p.meta(size=m)
    p.same("keeps-leading-elements", "o", tmin(n, m), a)
    p = new("q_pv_resize_view")
    n = p.size("n"); m = p.size("m"); a = p.arr("a", n)
    p.k.ensures_true("refused", p.k.thrown)
    # construction
    p = new("q_pv_empty")
    m = p.size("m", 1, 9); i = p.size("k"); v = p.k.real("v"); o = p.k.out("o", ONE)
    p.k.requires(LT(i, m))
    p.meta(size=0, no_storage=1, empty_range=1, resized=m)
    p.k.ensures("usable-after-resize", o(0), v)
    p = new("q_pv_size")
    n = p.size("n"); v = p.k.real("v"); p.k.out("o", n)
    p.meta(size=n)
    p.same("iterable", "o", n, lambda j: v)
    p = new("q_pv_view")
    n = p.size("n"); i = p.size("k"); v = p.k.real("v"); a = p.arr("a", n)
    p.k.requires(LT(i, n))
    p.meta(size=n, data=1, begin=1, end=1)
    p.same("writes-through", "a", n, lambda j: ite(EQ(j, i), v, a(j)))
    p = new("q_pv_ends")
    n = p.size("n", 1, 9); f = p.k.real("f"); b = p.k.real("b"); a = p.arr("a", n); o = p.k.out("o", num(8))
    L = sub(n, ONE)
    one = EQ(n, ONE)
    nb = ite(one, f, b)
    for j, (nm, e) in enumerate((("front", a(0)), ("back", a(L)), ("front-written", f), ("back-written", nb), ("begin", f), ("end", nb), ("front-nonconst", f), ("back-nonconst", nb))):
        p.k.ensures(nm, o(j), e)
    p = new("q_pv_list")
    vs = [p.k.real(c) for c in "abcde"]; o = p.k.out("o", num(5))
    p.meta(size=5)
    for j in range(5):
        p.k.ensures("element%d" % j, o(j), vs[j])
    p = new("q_pv_std")
    n = p.size("n"); a = p.arr("a", n); p.k.out("o", n)
    p.meta(size=n)
    p.same("copy-of-source", "o", n, a)
    return out
