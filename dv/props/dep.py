"""shared pieces of deposition / gathering contracts"""
from contract import *
import spec


def grid3(k, ng=4, nmax=5):
    """nx.. nguards and dx.. declared"""
    g = {}
    for d in "xyz":
        g["n" + d] = k.int("n" + d, 1, nmax)
        g["n" + d + "guard"] = k.int("n%sguard" % d, ng - 1, ng)
        g["d" + d] = k.real("d" + d, .5, 2)
        g[d + "min"] = k.real(d + "min", -1, 1)
        k.requires(GE(g["n" + d], ONE), GE(g["n" + d + "guard"], num(ng - 1)), GT(g["d" + d], ZERO))
    return g


def posgen(d):
    def gen(vals, rnd, idx):
        n, dx, mn = vals["n" + d], vals["d" + d], vals[d + "min"]
        r = rnd.random()
        if r < .25:
            return mn + dx * rnd.randint(0, n)          # exactly on a node (domain edges included)
        if r < .4:
            return mn + dx * (rnd.randint(0, n - 1) + .5)
        return mn + dx * n * rnd.random()
    return gen


def inside(k, g, dirs="xyz"):
    """every particle lies in the physical domain of the tile (in grid units 0 <= x <= nx)"""
    for d in dirs:
        def f(i, d=d):
            x = (k.pre(d + "p", i) - g[d + "min"]) / g["d" + d]
            return AND(LE(ZERO, x), LE(x, g["n" + d]))
        k.forall(f)
