"""momentum push: Boris (all variants), Vay, electric/magnetic half pushes"""
from contract import *
import spec

TRUSTED = []
C = num(299792458)
U = ("uxp", "uyp", "uzp")


def base(routine, label=None, E=True, B=True, gi="gaminv", extra=()):
    k = Kernel(routine, label=label)
    n = k.int("np", 0, 7)
    q, m, dt = k.real("q", -2, 2), k.real("m", .5, 3), k.real("dt", .1, 2)
    k.requires(GE(n, ZERO), GT(m, ZERO))
    for a in U:
        k.arr(a, -4e8, 4e8)
    for a in ("ex", "ey", "ez") + tuple(extra):
        k.arr(a, -3e8, 3e8)
    k.arr(gi, .1, 1)
    J = k.J("p", 1, n)
    return k, J, q, m, dt


def vec(k, names, j, post=False):
    return [(k.post if post else k.pre)(a, j) for a in names]


def ens3(k, name, l, r, J):
    for i, (a, b) in enumerate(zip(l, r)):
        k.ensures(name + "-" + "xyz"[i], a, b, [J])


def boris(routine, block=False, label=None):
    k, J, q, m, dt = base(routine, label)
    if block:
        k.int("lvect", 1, 5)
        k.requires(GE(sym("lvect", "I"), ONE))
    j = J[0]
    u0, u1 = vec(k, U, j), vec(k, U, j, True)
    E, B = vec(k, ("ex", "ey", "ez"), j), vec(k, ("bx", "by", "bz"), j)
    for i, (l, r) in enumerate(spec.boris(u0, u1, E, B, q, m, dt, C)):
        k.ensures("boris-" + "xyz"[i], l, r, [J])
    k.ensures("gamma", k.post("gaminv", j), 1 / sqrt(1 + spec.dot(u1, u1) / C**2), [J])
    return k


def epush():
    k, J, q, m, dt = base("pxr_epush_v")
    j = J[0]
    ens3(k, "electric", vec(k, U, j, True), [a + q * dt / m * e for a, e in zip(vec(k, U, j), vec(k, ("ex", "ey", "ez"), j))], J)
    return k


def bpush():
    """(u1 - u0) = (q dt / 2 m) gaminv (u1 + u0) x B, norm preserved"""
    k, J, q, m, dt = base("pxr_bpush_v")
    j = J[0]
    u0, u1, B = vec(k, U, j), vec(k, U, j, True), vec(k, ("bx", "by", "bz"), j)
    kk = q * dt * HALF / m * k.pre("gaminv", j)
    ens3(k, "rotation", [a - b for a, b in zip(u1, u0)], [kk * x for x in spec.cross([a + b for a, b in zip(u1, u0)], B)], J)
    k.ensures("energy", spec.dot(u1, u1), spec.dot(u0, u0), [J])
    return k


def vay(which):
    k, J, q, m, dt = base("pxr_ebcancelpush3d", "pxr_ebcancelpush3d[which=%d]" % which, gi="gi")
    w = k.int("which", which, which)
    k.requires(EQ(w, num(which)))
    j = J[0]
    u0, u1 = vec(k, U, j), vec(k, U, j, True)
    E, B = vec(k, ("ex", "ey", "ez"), j), vec(k, ("bx", "by", "bz"), j)
    g0, g1 = k.pre("gi", j), k.post("gi", j)
    full = q * dt / m if which == 0 else q * dt / m * HALF
    half = q * dt / m * HALF
    # momentum balance with the end-point velocities in the magnetic term
    old = [half * g0 * x for x in spec.cross(u0, B)] if which in (0, 1) else [ZERO] * 3
    new = [half * g1 * x for x in spec.cross(u1, B)] if which in (0, 2) else [ZERO] * 3
    ens3(k, "balance", u1, [a + full * e + o + w_ for a, e, o, w_ in zip(u0, E, old, new)], J)
    k.ensures("gamma", g1 * g1 * (1 + spec.dot(u1, u1) / C**2), ONE, [J])
    k.ensures_true("gamma-positive", GE(g1, ZERO), [J])
    return k


def contracts():
    return [boris("pxr_boris_push_u_3d"), boris("pxr_boris_push_u_3d_block", True), epush(), bpush(), vay(0), vay(1), vay(2)]
