"""field gathering in 2D (x,z)"""
from props.gath import *

TRUSTED = []


def contracts():
    ks = []
    for o in (1, 2, 3):
        for lower in (True, False):
            for f, cs in (("e", E), ("b", B)):
                for v in ("scalar", "vect"):
                    ks.append(gather("pxr_get%s2dxz_energy_conserving_%s_%d_%d" % (f, v, o, o), o, lower, cs, "xz"))
                r = "pxr_get%s2dxz_n_energy_conserving" % f
                ks.append(gather(r, o, lower, cs, "xz", label="%s[%d,%s]" % (r, o, "lower" if lower else "full")))
            if o == 3:
                ks.append(gather("pxr_geteb2dxz_energy_conserving_vect_3_3", o, lower, EB, "xz"))
    return ks
