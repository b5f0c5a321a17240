"""chi of photons and leptons"""
from ccontract import *

LEVEL = "proof"
TRUSTED = []


def chi(k, kind):
    v = {}
    for a in ("px", "py", "pz", "ex", "ey", "ez", "bx", "by", "bz", "lam"):
        v[a] = k.real(a)
    return v


def contracts():
    out = []
    for unit, flags in (("SI", ()), ("normalised", ("-DPXRMP_USE_NORMALIZED_UNITS",))):
        for kind in ("photon", "lepton"):
            k = CKernel("q_chi_" + kind, flags=flags, label="chi_%s_%s" % (kind, unit))
            si = unit == "SI"
            c = KC["k_c"]
            m = KC["k_m"]
            p = [k.real(a, -1e-21 if si else -50, 1e-21 if si else 50, choices=[0.0], wide=((-22, -10) if si else (0, 9)) if kind == "lepton" else ((-30, -10) if si else (-8, 9))) for a in ("px", "py", "pz")]
            E = [k.real(a, -1e13 if si else -1, 1e13 if si else 1, choices=[0.0], wide=(2, 20) if si else (-10, 8)) for a in ("ex", "ey", "ez")]
            B = [k.real(a, -3e4 if si else -1, 3e4 if si else 1, choices=[0.0], wide=(-5, 12) if si else (-10, 8)) for a in ("bx", "by", "bz")]
            lam = k.real("lam", 1e-7, 1e-5, log=True)
            k.requires(GT(lam, ZERO))
            p2 = p[0] * p[0] + p[1] * p[1] + p[2] * p[2]
            cB = [c * x for x in B]
            out.append(k)
            mc = m * c
            u = [x / mc for x in p]
            u2 = u[0] * u[0] + u[1] * u[1] + u[2] * u[2]
            if kind == "photon":
                gam = llvm.nsqrt(u2)
            else:
                gam = llvm.nsqrt(ONE + u2)
            k.ensures("zero-momentum", k.ret(), ZERO, hyps=[EQ(p2, ZERO)])
            # chi = gamma/E_s * sqrt( |E + v x B|^2 - (beta.E)^2 )
            bt = [x / gam for x in u]
            w = [E[0] + bt[1] * cB[2] - bt[2] * cB[1], E[1] + bt[2] * cB[0] - bt[0] * cB[2], E[2] + bt[0] * cB[1] - bt[1] * cB[0]]
            bE = bt[0] * E[0] + bt[1] * E[1] + bt[2] * E[2]
            ra = w[0] * w[0] + w[1] * w[1] + w[2] * w[2] - bE * bE
            k.ensures_true("nonnegative", GE(k.ret(), ZERO))
            f = KC["k_schw"] * (ONE if si else lam)
            z = k.ret() * f
            k.ensures("chi-squared", power(z, 4), power(gam, 4) * ra * ra, hyps=[NE(p2, ZERO)])
    return out
