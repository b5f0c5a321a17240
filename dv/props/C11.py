"""2D charge deposition (x,z and r,z)"""
from contract import *
import spec
from props.dep import *

TRUSTED = []
NG = 4


def grid(k):
    g = {}
    for d in "xz":
        g["n" + d] = k.int("n" + d, 1, 5)
        g["n%sguard" % d] = k.int("n%sguard" % d, 3, NG)
        g["d" + d] = k.real("d" + d, choices=[.25, .5, 1., 2.])
        g[d + "min"] = k.real(d + "min", choices=[-1.5, -1., -.25, 0., .5, 2.])
        k.requires(GE(g["n" + d], ONE), GE(g["n%sguard" % d], num(3)), GT(g["d" + d], ZERO))
    return g


def rho2(ox, oz, rz=False, davoine=False, old=False):
    r = "pxr_depose_rhoold_n_2dxz" if old else "pxr_depose_rho_n_2dxz"
    k = Kernel(r, label="%s_%d_%d%s" % (r[4:], ox, oz, "_davoine" if davoine else "_rz" if rz else ""), budget=90)
    k.int("nox", ox, ox)
    k.int("noz", oz, oz)
    k.args.update(nox=num(ox), noz=num(oz))
    if not old:
        k.args.update(l_2drz=TRUE if rz else FALSE, type_rz_depose=num(2 if davoine else 1))
    sym4 = FALSE if rz else k.bool("l4symtry")
    if rz:
        k.args["l4symtry"] = FALSE
    wt = k.bool("l_particles_weight")
    n = k.int("np", 0, 7)
    k.requires(GE(n, ZERO))
    g = grid(k)
    q = k.real("q")
    name = "rhoold" if old else "rho"
    if old:
        k.real("dt", .125, .5, choices=[.125, .25, .5])
        k.arr("gaminv", .25, 1, gen=lambda v, r, i: r.choice([.25, .5, 1.]))
        for d in "xyz":
            k.arr("u" + d, gen=lambda v, r, i, d=d: r.choice([0., r.uniform(-1, 1), 1., -1.]) * v["d" + (d if d != "y" else "x")] / v["dt"] / 2)
    if rz:
        def gr(v, rnd, i):
            x = posgen("x")(v, rnd, i)
            return max(x, 0) * rnd.choice([1., .6])
        k.real("xmin", choices=[0., 0., .5])
        k.requires(GE(g["xmin"], ZERO))
        k.arr("xp", gen=gr)
        k.arr("yp", gen=lambda v, rnd, i: rnd.choice([0., .8]) * v["dx"])
    else:
        k.arr("xp", gen=posgen("x"))
    k.arr("zp", gen=posgen("z"))

    def pos(i):
        xx = k.pre("xp", i)
        if rz:
            xx = sqrt(k.pre("xp", i)**2 + k.pre("yp", i)**2)
        x = (xx - g["xmin"]) / g["dx"]
        z = (k.pre("zp", i) - g["zmin"]) / g["dz"]
        if old:
            x = x - k.pre("ux", i) * k.pre("gaminv", i) * sym("dt") / g["dx"]
            z = z - k.pre("uz", i) * k.pre("gaminv", i) * sym("dt") / g["dz"]
        return ite(sym4, spec.tabs(x), x), z

    def dom(i):
        x, z = pos(i)
        return AND(LE(ZERO, x), LE(x, g["nx"]), LE(ZERO, z), LE(z, g["nz"]))
    k.forall(dom)
    ip = fresh("s", "I")
    x, z = pos(ip)
    J = [k.J(d, -g["n%sguard" % d], g["n" + d] + g["n%sguard" % d]) for d in "xz"]
    js = [j[0] for j in J]
    if davoine:
        # linear shape whose radial weights make the charge of a ring exact
        b = spec.floor(x)
        t = x - b
        s0 = 1 - t + (t**2 - t) / (4 * b + 2)
        sx = ite(EQ(js[0], b), s0, ite(EQ(js[0], b + 1), 1 - s0, ZERO))
    else:
        sx = spec.shape(ox, js[0], x)
    S = sx * spec.shape(oz, js[1], z)
    w = ite(wt, k.pre("w", ip), k.pre("w", ONE) if old else ONE)
    at = (js[0], ZERO, js[1])
    k.ensures("rho", k.post(name, *at), k.pre(name, *at) + tsum(ip, ONE, n, q * w / (g["dx"] * g["dz"]) * S), J)
    return k


def scaling(rzero):
    k = Kernel("apply_rz_volume_scaling_rho", label="apply_rz_volume_scaling_rho_" + ("axis" if rzero else "annulus"))
    k.iarr("rho_nguard", gen=lambda v, r, i: r.choice([1, 2, 3]))
    k.iarr("rho_nvalid", gen=lambda v, r, i: r.choice([4, 5, 7]))
    iv = lambda a, p: rawsel(cbase(a, "I"), [num(p + 1)])
    dr = k.real("dr", choices=[.25, .5, 1.])
    k.requires(GT(dr, ZERO))
    if rzero:
        k.real("rmin", 0, 0)
        k.args["rmin"] = ZERO
        rmin = ZERO
    else:
        rmin = k.real("rmin", choices=[3.5, 4., 6.25])
        k.requires(GT(rmin, ZERO))
    t = k.int("type_rz_depose", 0, 2)
    for p in (0, 1):
        k.requires(GE(iv("rho_nguard", p), ONE), GE(iv("rho_nvalid", p), ONE))
    k.requires(GT(iv("rho_nvalid", 0), iv("rho_nguard", 0)))
    if not rzero:
        k.requires(GT(rmin, iv("rho_nguard", 0) * dr))
    J = [k.J("r", -iv("rho_nguard", 0), iv("rho_nvalid", 0) + iv("rho_nguard", 0) - 1), k.J("z", -iv("rho_nguard", 1), iv("rho_nvalid", 1) + iv("rho_nguard", 1) - 1)]
    j, l = J[0][0], J[1][0]
    r = spec.tabs(rmin + j * dr)
    val_ = k.pre("rho", j, l)
    if rzero:
        val_ = ite(AND(LE(ONE, j), LE(j, iv("rho_nguard", 0))), val_ + k.pre("rho", -j, l), val_)
    PI = num(Fraction("3.14159265358979323"))       # the code's constant; within 1e-17 of pi
    vol = 2 * PI * r
    if rzero:
        vol = ite(EQ(j, ZERO), ite(EQ(t, ONE), PI * dr / 3, PI * dr / 4), vol)
    k.ensures("rho", k.post("rho", j, l), val_ / vol, J)
    return k


def contracts():
    r = []
    for ox in (1, 2, 3):
        for oz in (1, 2, 3):
            r.append(rho2(ox, oz))
    r += [rho2(0, 1), rho2(1, 0)]
    for o in (1, 2, 3):
        r.append(rho2(o, o, rz=True))
    r.append(rho2(1, 1, rz=True, davoine=True))
    for ox, oz in ((0, 0), (1, 1), (2, 2), (3, 3), (1, 3), (3, 2)):
        r.append(rho2(ox, oz, old=True))
    r += [scaling(True), scaling(False)]
    return r
