"""field gathering in 3D"""
import re
from props.gath import *

TRUSTED = []
# the routine's own interface or formula restricts it to one option value
LOWER_ONLY = {"geteb3d_energy_conserving_vecv2_1_1_1"}


def contracts():
    ks = []
    units = program().units
    for o in (1, 2, 3):
        for lower in (True, False):
            lab = "lower" if lower else "full"
            for f, cs in (("e", E), ("b", B)):
                ks.append(gather("get%s3d_energy_conserving_scalar_%d_%d_%d" % (f, o, o, o), o, lower, cs))
                for r in ("pxrget%s3d_n_energy_conserving" % f, "pxr_get%s3d_n_energy_conserving" % f):
                    ks.append(gather(r, o, lower, cs, label="%s[%d,%s]" % (r, o, lab)))
            for f, cs in (("e", E), ("b", B), ("eb", EB)):
                for v in ("vec", "vec2", "vecv1", "vecv2", "vecv3", "vecv4", "linear", "blockvec", "blockvec2"):
                    r = "get%s3d_energy_conserving_%s_%d_%d_%d" % (f, v, o, o, o)
                    for x in (r, r + "_v2"):
                        if x in units and not (x in LOWER_ONLY and not lower):
                            ks.append(gather(x, o, lower, cs))
    return ks
