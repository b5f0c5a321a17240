"""current deposition contracts (direct)"""
from contract import *
import spec
from props.dep import *

NG, NC = 4, 4


def curgrid(k, u, dirs, ng=NG, vel=True, lim=1):
    """symbols of the deposition call; particle inside the tile, moving by less than lim cells"""
    a = u.args
    g = {}
    n = k.int("np", 0, 6)
    k.requires(GE(n, ZERO))
    k.real("q")
    k.real("dt", .125, .5, choices=[.125, .25, .5])
    k.requires(GT(sym("dt"), ZERO))
    for d in dirs:
        g["d" + d] = k.real("d" + d, choices=[.25, .5, 1., 2.])
        g[d + "min"] = k.real(d + "min", choices=[-1.5, -1., -.25, 0., .5, 2.])
        k.requires(GT(g["d" + d], ZERO))
    k.real("gc", .2, 1)
    if "nx" in a:
        for d in dirs:
            g["n" + d] = k.int("n" + d, 2, 4)
            g["n%sguard" % d] = k.int("n%sguard" % d, ng, ng)
            k.requires(GE(g["n" + d], ONE), GE(g["n%sguard" % d], num(3)))
    else:
        pass
    for c in "xyz":
        if "j%s_nguard" % c in a:
            k.iarr("j%s_nguard" % c, gen=lambda v, r, i: ng)
            k.iarr("j%s_nvalid" % c, gen=lambda v, r, i: NC + 1)
            for q in range(len(dirs)):
                v = rawsel(cbase("j%s_nvalid" % c, "I"), [num(q + 1)])
                k.requires(GE(rawsel(cbase("j%s_nguard" % c, "I"), [num(q + 1)]), num(3)))
                g["n" + dirs[q]] = rawsel(cbase("jx_nvalid", "I"), [num(q + 1)]) - 1
                k.requires(GE(v, num(2)), *([EQ(v, g["n" + dirs[q]] + 1)] if c != "x" else []))
    k.arr("gaminv", .25, 1, gen=lambda v, r, i: r.choice([.25, .5, 1.]))
    for d in dirs:
        k.arr(d + "p", gen=posg(d))
    for c in "xyz":
        d = c if c in dirs else dirs[0]
        k.arr("u%sp" % c, gen=lambda v, r, i, d=d: r.choice([0., r.uniform(-1, 1), 1., -1.]) * lim * v["d" + d] / v["dt"])
    if "lvect" in a:
        k.int("lvect", 2, 8)
        k.requires(GE(sym("lvect", "I"), ONE))
    return n, g


def posg(d):
    def gen(v, rnd, i):
        n = v.get("n" + d, NC)
        dx, mn = v["d" + d], v[d + "min"]
        r = rnd.random()
        if r < .25:
            return mn + dx * rnd.randint(0, n)
        if r < .4:
            return mn + dx * (rnd.randint(0, n - 1) + .5)
        return mn + dx * n * rnd.random()
    return gen


def velocity(k, c, ip):
    return k.pre("u%sp" % c, ip) * k.pre("gaminv", ip)


def direct(routine, order, dirs="xyz", ny2=1):
    k = Kernel(routine)
    u = program().units.get(routine)
    if u is None:
        return k
    n, g = curgrid(k, u, dirs)
    nodal = k.bool("l_nodal")
    dt, q = sym("dt"), sym("q")

    def xs(i):
        o = {}
        for d in dirs:
            x = (k.pre(d + "p", i) - g[d + "min"]) / g["d" + d]
            o[d] = x, HALF * dt / g["d" + d] * velocity(k, d, i)
        return o

    def dom(i):
        r = []
        for d, (x, h) in xs(i).items():
            r += [LE(ZERO, x), LE(x, g["n" + d]), LE(-HALF, h), LE(h, HALF)]
        return AND(*r)
    k.forall(dom)
    ip = fresh("s", "I")
    X = xs(ip)
    V = ONE
    for d in dirs:
        V = V * g["d" + d]
    for c in "xyz":
        J = []
        for p, d in enumerate(dirs):
            if "nx" in u.args:
                lo, hi = -g["n%sguard" % d], g["n" + d] + g["n%sguard" % d]
            else:
                ng = rawsel(cbase("j%s_nguard" % c, "I"), [num(p + 1)])
                lo, hi = -ng, rawsel(cbase("j%s_nvalid" % c, "I"), [num(p + 1)]) + ng - 1
            J.append(k.J(d, lo, hi))
        S = ONE
        for d, j in zip(dirs, J):
            x, h = X[d]
            sh = ite(nodal, ZERO, HALF) if d == c else ZERO
            S = S * spec.shape(order, j[0], x - h - sh)
        js = [j[0] for j in J]
        if len(dirs) == 2 and len(u.decls["j" + c].dims) == 3:
            js = [js[0], num(ny2), js[1]]
        k.ensures("j" + c, k.post("j" + c, *js), k.pre("j" + c, *js) + tsum(ip, ONE, n, q * k.pre("w", ip) * velocity(k, c, ip) / V * S), J)
    return k
