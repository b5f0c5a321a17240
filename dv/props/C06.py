"""direct current deposition"""
from props.cur import *

TRUSTED = []


def contracts():
    ks = []
    for o in (1, 2, 3):
        ks.append(direct("depose_jxjyjz_scalar_%d_%d_%d" % (o, o, o), o))
        ks.append(direct("depose_jxjyjz_scalar2d_%d_%d_%d" % (o, o, o), o, "xz"))
    ks.append(direct("depose_jxjyjz_vechvv2_1_1_1", 1))
    ks.append(direct("depose_jxjyjz_vechvv2_2_2_2", 2))
    ks.append(direct("depose_jxjyjz_vechvv3_3_3_3", 3))
    for k in ks[-3:]:
        k.budget = 40            # not proved within reach so far: bounded replay
    return ks
