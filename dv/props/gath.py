"""field gathering contracts, any dimension"""
from contract import *
import spec
from props.dep import *

H = HALF


weights = spec.weights


def shape1d(order, x, stag, lower, nodal):
    """(base node, {offset: weight}) of the spline seen by one direction"""
    if not stag:
        b = floor(x) if order % 2 else floor(x + H)
        return b, weights(order, x - b)
    s = x - ite(nodal, ZERO, H)
    o = order - 1 if lower else order
    b = floor(s) if (o % 2 and not (o == 0)) else floor(s + H)
    return b, weights(o, s - b)


STAG = {"ex": "x", "ey": "y", "ez": "z", "bx": "yz", "by": "xz", "bz": "xy"}


def gather(routine, order, lower, comps, dirs="xyz", label=None, extra=(), fields=None):
    k = Kernel(routine, label=label or "%s[%s]" % (routine, "lower" if lower else "full"))
    u = program(k.defs).units.get(routine)
    if u is None:
        return k
    n = k.int("np", 0, 5)
    k.requires(GE(n, ZERO))
    a = u.args
    oo = dict(zip(dirs, order)) if not isinstance(order, int) else {d: order for d in dirs}
    k.args["l_lower_order_in_v"] = TRUE if lower else FALSE
    if "l_nodal" in a:
        nodal = k.bool("l_nodal")
    else:
        nodal = FALSE
    for d in "xyz":
        if "no" + d in a:
            k.args["no" + d] = num(oo.get(d, 0))
    for e, v in dict(extra).items():
        k.args[e] = v
    for nm, v in (("l4symtry", FALSE), ("l_2drz", FALSE)):
        if nm in a and nm not in k.args:
            k.args[nm] = v
    if "lvect" in a:
        k.int("lvect", 2, 8)
        k.requires(GE(sym("lvect", "I"), ONE))
    g = {}
    for d in dirs:
        g["d" + d] = k.real("d" + d, choices=[.25, .5, 1., 2.])
        g[d + "min"] = k.real(d + "min", choices=[-1.5, -1., -.25, 0., .5, 2.])
        k.requires(GT(g["d" + d], ZERO))
    sized = "nx" in a
    if sized:
        for d in "xyz":
            if "n" + d in a:
                g["n" + d] = k.int("n" + d, 2, 4)
                g["n%sguard" % d] = k.int("n%sguard" % d, 4, 4)
                k.requires(GE(g["n" + d], ONE), GE(g["n%sguard" % d], num(3)))
    else:
        for d in dirs:
            g["n" + d] = num(3)
    for d in "xyz":
        if d + "p" in a:
            k.arr(d + "p", gen=gpos(d, sized) if d in dirs else None)
    for d in dirs:
        def f(i, d=d):
            x = (k.pre(d + "p", i) - g[d + "min"]) / g["d" + d]
            return AND(LE(ZERO, x), LE(x, g["n" + d]))
        k.forall(f)
    for c in comps:
        fa = fields(c) if fields else c + "g"
        if fa + "_nguard" in a:
            k.iarr(fa + "_nguard", gen=lambda v, r, i: 4)
            k.iarr(fa + "_nvalid", gen=lambda v, r, i: 5)
            D = len(dirs)
            for q in range(D):
                k.requires(GE(rawsel(cbase(fa + "_nguard", "I"), [num(q + 1)]), num(4)),
                           GE(rawsel(cbase(fa + "_nvalid", "I"), [num(q + 1)]), num(5)))
            if len(dirs) == 2:
                pass
    J = k.J("p", 1, n)
    ip = J[0]
    for c in comps:
        fa = fields(c) if fields else c + "g"
        ws = []
        for d in dirs:
            x = (k.pre(d + "p", ip) - g[d + "min"]) / g["d" + d]
            ws.append(shape1d(oo[d], x, d in STAG[c], lower, nodal))
        S = ZERO
        nd = len(u.decls[fa].dims)

        def go(q, w, idx):
            nonlocal S
            if q == len(dirs):
                ii = list(idx)
                if nd == 3 and len(dirs) == 2:
                    ii = [ii[0], mid(u.decls[fa].dims[1]), ii[1]]
                S = S + w * k.pre(fa, *ii)
                return
            b, W = ws[q]
            for o, ww in W.items():
                go(q + 1, w * ww, idx + [b + o])
        go(0, ONE, [])
        k.ensures(c, k.post(c, ip), k.pre(c, ip) + S, [J])
    return k


def mid(dim):
    """the single index of the invariant direction"""
    lo = dim[0]
    return ONE if lo is None or lo == ":" else num(lo[1]) if lo[0] == "num" else ZERO


def gpos(d, sized):
    def gen(vals, rnd, idx):
        n = vals["n" + d] if sized else 3
        dx, mn = vals["d" + d], vals[d + "min"]
        r = rnd.random()
        if r < .25:
            return mn + dx * rnd.randint(0, n)
        if r < .45:
            return mn + dx * (rnd.randint(0, n - 1) + .5)
        return mn + dx * (rnd.randint(0, n - 1) + rnd.choice([.125, .375, .25, .6875, .9375, rnd.uniform(.02, .48), rnd.uniform(.52, .98)]))
    return gen


E, B, EB = ("ex", "ey", "ez"), ("bx", "by", "bz"), ("ex", "ey", "ez", "bx", "by", "bz")
