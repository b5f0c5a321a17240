"""charge deposition on the 3D grid"""
from contract import *
import spec
from props.dep import *

TRUSTED = []


def flat(g, j):
    """address of node j in the flattened guard-extended array"""
    nn = [g["n" + d] + 1 + 2 * g["n%sguard" % d] for d in "xyz"]
    o = [j[i] + g["n%sguard" % "xyz"[i]] for i in range(3)]
    return 1 + o[0] + nn[0] * (o[1] + nn[1] * o[2])


def rho3(routine, order, lv=True, oned=False):
    k = Kernel(routine)
    n = k.int("np", 0, 9)
    k.requires(GE(n, ZERO))
    g = grid3(k)
    q = k.real("q")
    if lv:
        k.int("lvect", 4, 8)
        k.requires(GE(sym("lvect", "I"), num(4)))
    for d in "xyz":
        k.arr(d + "p", gen=posgen(d))
    inside(k, g)
    ip = fresh("s", "I")
    w = []
    J = [k.J(d, -g["n%sguard" % d], g["n" + d] + g["n%sguard" % d]) for d in "xyz"]
    S = ONE
    for d, j in zip("xyz", J):
        x = (k.pre(d + "p", ip) - g[d + "min"]) / g["d" + d]
        S = S * spec.shape(order, j[0], x)
    V = g["dx"] * g["dy"] * g["dz"]
    js = [j[0] for j in J]
    if oned:
        js = [flat(g, js)]
    k.ensures("rho", k.post("rho", *js), k.pre("rho", *js) + tsum(ip, ONE, n, q * k.pre("w", ip) / V * S), J)
    return k


def contracts():
    ks = []
    for o in (1, 2, 3):
        ks.append(rho3("depose_rho_scalar_%d_%d_%d" % (o, o, o), o))
    ks.append(rho3("depose_rho_vecnoy_1_1_1", 1))
    ks.append(rho3("depose_rho_vechv_1_1_1", 1, False, oned=True))
    ks.append(rho3("depose_rho_vechvv2_1_1_1", 1, oned=True))
    ks.append(rho3("depose_rho_vechvv2_2_2_2", 2, oned=True))
    ks.append(rho3("depose_rho_vechvv4_3_3_3", 3, oned=True))
    ks[-1].budget = 400
    return ks
