"""particle position push and relativistic factor"""
from contract import *
import spec

TRUSTED = []
C = num(299792458)


def push(routine, dirs):
    k = Kernel(routine)
    n = k.int("np", 0, 7)
    dt = k.real("dt", .1, 2)
    k.requires(GE(n, ZERO))
    J = k.J("p", 1, n)
    j = J[0]
    for d in dirs:
        k.ensures("move-" + d, k.post(d + "p", j), k.pre(d + "p", j) + k.pre("u%sp" % d, j) * k.pre("gaminv", j) * dt, [J])
    for a in ["uxp", "uzp", "gaminv"] + (["uyp"] if routine != "pxr_pushxz" else []):
        k.ensures("frame-" + a, k.post(a, j), k.pre(a, j), [J])
    return k


def gamma():
    k = Kernel("pxr_set_gamma")
    n = k.int("np", 0, 7)
    k.requires(GE(n, ZERO))
    J = k.J("p", 1, n)
    j = J[0]
    u = [k.pre("u%sp" % d, j) for d in "xyz"]
    for d in "xyz":
        k.arr("u%sp" % d, -4e8, 4e8)
    k.ensures("gamma", k.post("gaminv", j), 1 / sqrt(1 + spec.dot(u, u) / C**2), [J])
    for d in "xyz":
        k.ensures("frame-u" + d, k.post("u%sp" % d, j), k.pre("u%sp" % d, j), [J])
    return k


def contracts():
    return [push("pxr_pushxyz", "xyz"), push("pxr_pushxz", "xz"), push("pxr_push2dxz", "xz"), gamma()]
