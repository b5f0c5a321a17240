"""finite-difference Maxwell pushes: staggered and nodal curls of any order (Yee), Cole-Karkkainen-Cowan stencils, cylindrical curls"""
from contract import *
import spec

TRUSTED = []
CYC = {"x": ("y", "z"), "y": ("z", "x"), "z": ("x", "y")}
LO, HI = -2, 4


def mn(*a):
    r = lift(a[0])
    for b in a[1:]:
        r = ite(LE(r, lift(b)), r, lift(b))
    return r


def at(js, dirs, **sh):
    return [j + lift(sh.get(d, 0)) for j, d in zip(js, dirs)]


def curl(k, c, name, D, dirs):
    """component c of the curl of name, derivatives by D(direction, array name); only the directions of the grid"""
    a, b = CYC[c]
    r = ZERO
    if a in dirs:
        r = r + D(a, name + b)
    if b in dirs:
        r = r - D(b, name + a)
    return r


def norder(routine, E, three):
    """arbitrary-order push: sum over the stencil's half width of the coefficient times the centred difference"""
    k = Kernel(routine)
    nodal = k.bool("l_nodalgrid")
    n, g, s, o = {}, {}, {}, {}
    for d in "xyz":
        n[d] = k.int("n" + d, 2, 3) if d != "y" or three else k.int("ny", 0, 0)
        g[d] = k.int("n%sguard" % d, 2, 3) if d != "y" or three else k.int("nyguard", 0, 0)
        s[d] = k.int("n%ss" % d, 0, 0 if not three else 2)
        o[d] = k.int("norder" + d, 2, 4)
        k.requires(GE(n[d], ZERO), GE(g[d], ZERO), GE(s[d], ZERO), LE(s[d], g[d]), GE(o[d], num(2)), EQ(TM.floor(o[d] / 2) * 2, o[d]))
        if not three and d != "y":
            k.requires(LE(s[d] + TM.floor(o[d] / 2), g[d]))
    dirs = "xyz"
    J = [k.J(d, -g[d], n[d] + g[d]) for d in dirs]
    js = [x[0] for x in J]
    live = [d for d in dirs if three or d != "y"]
    inside = AND(*[AND(LE(-s[d], j), LE(j, n[d] + s[d])) if d in live else EQ(j, ZERO) for d, j in zip(dirs, js)])
    ist = ite(nodal, ZERO, ONE)
    f, t = ("e", "b") if E else ("b", "e")

    def D(d, arr):
        i = fresh("i", "I")
        j = js[dirs.index(d)]
        half = TM.floor(o[d] / 2)
        hi = mn(half, n[d] - j + g[d], j + g[d]) if three else half
        up, dn = (i - ist, -i) if E else (i, ist - i)
        return tsum(i, ONE, hi, k.pre("dtsd" + d, i) * (k.pre(arr, *at(js, dirs, **{d: up})) - k.pre(arr, *at(js, dirs, **{d: dn}))))
    for c in "xyz":
        old = k.pre(f + c, *js)
        cu = curl(k, c, t, D, live)
        new = old + cu - sym("mudt") * k.pre("j" + c, *js) if E else old - cu
        k.ensures(f + c, k.post(f + c, *js), ite(inside, new, old), J)
    if E:
        k.real("mudt", -1, 1)
    return k


def boxed(routine, dirs, f, src, names="xyz", ckc=False):
    """second-order push on boxes [clo, chi] of each component"""
    k = Kernel(routine)
    nd = len(dirs)
    comps = {c: q for c, q in zip("xyz", names)}
    for q in names:
        k.iarr(q + "lo", gen=lambda v, r, i: r.choice([0, 0, 1]))
        k.iarr(q + "hi", gen=lambda v, r, i: r.choice([2, 2, 1]))
    arrs = [f + q for q in names] + ([src + q for q in names] if src != "f" else ["f"]) + (["j" + q for q in names] if src == "b" else [])
    for a in arrs:
        k.iarr(a + "lo", gen=lambda v, r, i: LO)
        k.iarr(a + "hi", gen=lambda v, r, i: HI)
    return k, comps


def ivec(n, i):
    return rawsel(cbase(n, "I"), [num(i + 1)])


def operator(dirs, h, ckc, back):
    """discrete derivative times time step: js -> sum"""
    if ckc:
        m = h[dirs[0]]
        for d in dirs[1:]:
            m = ite(GE(m, h[d]), m, h[d])
        r = {d: (h[d] / m)**2 for d in dirs}
        if len(dirs) == 3:
            den = r["y"] * r["z"] + r["z"] * r["x"] + r["x"] * r["y"]
            beta = (1 - r["x"] * r["y"] * r["z"] / den) / 8
            bet = {(d, e): r[e] * beta for d in dirs for e in dirs if d != e}
            gam = {}
            for d in dirs:
                a, b = CYC[d]
                gam[d] = r[a] * r[b] * (num(1) / 16 - r[a] * r[b] / den / 8)
        else:
            bet = {(d, e): r[e] / 8 for d in dirs for e in dirs if d != e}
            gam = {d: ZERO for d in dirs}

    def D(k, arr, d, js):
        lo, hi = (-1, 0) if back else (0, 1)

        def diff(**sh):
            a, b = dict(sh), dict(sh)
            a[d], b[d] = hi, lo
            return k.pre(arr, *at(js, dirs, **a)) - k.pre(arr, *at(js, dirs, **b))
        if not ckc:
            return h[d] * diff()
        o = [e for e in dirs if e != d]
        al = 1 - 2 * sum((bet[d, e] for e in o), ZERO) - (4 * gam[d] if len(o) == 2 else ZERO)
        r = al * diff()
        for e in o:
            r = r + bet[d, e] * (diff(**{e: 1}) + diff(**{e: -1}))
        if len(o) == 2:
            for p in (1, -1):
                for q in (1, -1):
                    r = r + gam[d] * diff(**{o[0]: p, o[1]: q})
        return h[d] * r
    return D


def push(routine, dirs, f, src, names="xyz", ckc=False, rz=False):
    k, comps = boxed(routine, dirs, f, src, names, ckc)
    first = "dtsdr" if routine == "pxrpush_emrz_bvec" else "dtsdx"
    h = {d: k.real(first if d == "x" else "dtsd" + d, .1, 1) for d in dirs}
    for d in "xyz":
        if d not in dirs:
            k.real("dtsdt" if first == "dtsdr" else "dtsd" + d, .1, 1)
    k.requires(*[GT(x, ZERO) for x in h.values()])
    back = f == "e" and src == "b"
    D = operator(dirs, h, ckc, back)
    if back:
        k.real("mudt", -1, 1)
    if rz:
        k.real("rmin", choices=[0., 0., .5, 1.5])
        k.real("dr", choices=[.25, .5, 1.])
        k.requires(GT(sym("dr"), ZERO))
        r0 = sym("rmin") / sym("dr")
        k.requires(GE(sym("rmin"), ZERO))
        for q in names:
            k.requires(GE(ivec(q + "lo", 0), ZERO))
    for c in "xyz":
        q = comps[c]
        J = [k.J(d, ivec(f + q + "lo", p), ivec(f + q + "hi", p)) for p, d in enumerate(dirs)]
        js = [x[0] for x in J]
        inside = AND(*[AND(LE(ivec(q + "lo", p), j), LE(j, ivec(q + "hi", p))) for p, j in enumerate(js)])
        old = k.pre(f + q, *js)
        if src == "f":
            if c not in dirs:
                new = old
            else:
                new = old + D(k, "f", c, js)
        else:
            def dd(d, arr):
                arr = src + comps[arr[-1]]
                if rz and d == "x" and c == "z":
                    # (1/r) d(r A_theta)/dr at the component's radius
                    j = js[0]
                    if back:
                        rr = r0 + j
                        bulk = h["x"] * ((1 + HALF / rr) * k.pre(arr, *js) - (1 - HALF / rr) * k.pre(arr, js[0] - 1, js[1]))
                        return ite(AND(EQ(j, ZERO), EQ(sym("rmin"), ZERO)), 4 * h["x"] * k.pre(arr, *js), bulk)
                    rr = r0 + j + HALF
                    return h["x"] * ((1 + HALF / rr) * k.pre(arr, js[0] + 1, js[1]) - (1 - HALF / rr) * k.pre(arr, *js))
                return D(k, arr, d, js)
            cu = curl(k, c, src, dd, dirs)
            if f == "e":
                new = old + cu - sym("mudt") * k.pre("j" + q, *js)
                if rz and c == "y":
                    new = ite(AND(EQ(js[0], ZERO), EQ(sym("rmin"), ZERO)), old, new)
            else:
                new = old - cu
        k.ensures(f + q, k.post(f + q, *js), ite(inside, new, old), J)
    return k


def contracts():
    r = []
    for nd, t in ((3, True), (2, False)):
        r.append(norder("pxrpush_em%dd_evec_norder" % nd, True, t))
        r.append(norder("pxrpush_em%dd_bvec_norder" % nd, False, t))
    for nd, dirs in ((2, "xz"), (3, "xyz")):
        r.append(push("pxrpush_em%dd_evec" % nd, dirs, "e", "b"))
        r.append(push("pxrpush_em%dd_bvec" % nd, dirs, "b", "e"))
        r.append(push("pxrpush_em%dd_evec_f" % nd, dirs, "e", "f"))
        r.append(push("pxrpush_em%dd_bvec_ckc" % nd, dirs, "b", "e", ckc=True))
        r.append(push("pxrpush_em%dd_evec_f_ckc" % nd, dirs, "e", "f", ckc=True))
    r.append(push("pxrpush_emrz_evec", "xz", "e", "b", names="rtz", rz=True))
    r.append(push("pxrpush_emrz_bvec", "xz", "b", "e", names="rtz", rz=True))
    return r
