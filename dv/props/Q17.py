"""physical constants, unit systems, default control values"""
from props.eng import *
import mpmath

LEVEL = "proof"
TRUSTED = []
SRC2 = "q_misc.cpp"
# CODATA 2014
BASE = dict(pi=None, me=Fraction("9.10938356e-31"), e=Fraction("1.6021766208e-19"), c=Fraction(299792458), hbar=Fraction("1.054571800e-34"), eps0=Fraction("8.854187817e-12"), alpha=Fraction("0.0072973525664"))
with mpmath.workdps(60):
    BASE["pi"] = Fraction(mpmath.nstr(mpmath.pi, 50))


def close(k, name, got, want, tol=Fraction(1, 10 ** 14)):
    """a stored constant is its definition up to the rounding of the arithmetic that computed it"""
    w = num(want)
    k.ensures_true(name, AND(LE(got - w, num(abs(want) * tol)), LE(w - got, num(abs(want) * tol))))


def contracts():
    out = []
    b = BASE
    pi, me, e, c, hb, eps, al = (b[n] for n in ("pi", "me", "e", "c", "hbar", "eps0", "alpha"))
    k = CKernel("q_base", src=SRC2, label="q_base", samples=1)
    o = k.out("o", num(7))
    for i, n in enumerate(("pi", "me", "e", "c", "hbar", "eps0", "alpha")):
        if n == "pi":
            k.ensures("pi", o(0), PI)
            continue
        close(k, ("pi", "electron-mass", "elementary-charge", "speed-of-light", "reduced-planck-constant", "vacuum-permittivity", "fine-structure-constant")[i], o(i), b[n])
    out.append(k)
    re = e * e / (4 * pi * eps * me * c * c)
    Es = me * me * c ** 3 / (e * hb)
    W = al * me * c * c / hb
    te = re / c
    Q = al * al / te
    SP = e * e * Es * Es / (4 * pi * pi * hb * hb * c)
    k = CKernel("q_derived", src=SRC2, label="q_derived", samples=1)
    o = k.out("o", num(6))
    for i, (n, v) in enumerate((("classical-electron-radius", re), ("schwinger-field", Es), ("pair-production-coefficient", W), ("classical-electron-time", te), ("synchrotron-coefficient", Q), ("schwinger-coefficient", SP))):
        close(k, n, o(i), v)
    out.append(k)
    for unit, uf in UNITS:
        si = unit == "SI"
        k = CKernel("q_units", src=SRC2, flags=uf, label="q_units_" + unit, samples=1)
        o = k.out("o", num(8))
        for i, (n, v) in enumerate((("speed-of-light", c if si else Fraction(1)), ("electron-mass", me if si else Fraction(1)), ("schwinger-field", Es if si else me * c / (hb * 2 * pi)),
                                    ("pair-production-coefficient", W * me * c * c if si else W / (2 * pi * c)), ("synchrotron-coefficient", Q * me * c * c if si else Q / (2 * pi * c)),
                                    ("schwinger-coefficient", SP if si else SP / (16 * pi ** 4 * c)), ("erber-prefactor", Fraction("0.16")), ("erber-exponent", Fraction(4, 3)))):
            close(k, n, o(i), v)
        out.append(k)
    k = CKernel("q_prefix", src=SRC2, label="q_prefix", samples=1)
    o = k.out("o", num(11))
    for i, (n, x) in enumerate((("giga", 9), ("mega", 6), ("kilo", 3), ("one", 0), ("deci", -1), ("centi", -2), ("milli", -3), ("micro", -6), ("nano", -9), ("pico", -12), ("femto", -15))):
        close(k, n, o(i), Fraction(10) ** x)
    out.append(k)
    for en, fl in ENGS:
        k = ek("q_e_default", fl, "q_e_default_" + en, samples=3)
        k.array("u", TWO)
        os, oc, ot = k.out("os", num(3)), k.out("octl", num(5)), k.out("oct", num(3), "I")
        k.ensures("unit-reference-length", os(0), ONE)
        want = (("0.001", "0.1", "500", "0.01", "500"), (50, 50, 50)) if en == "bw" else (("0.001", "0.001", "200", "0.001", "200"), (64, 64, 256))
        for i, v in enumerate(want[0]):
            close(k, "default-%s" % ("threshold", "rate-table-minimum", "rate-table-maximum", "distribution-table-minimum", "distribution-table-maximum")[i], oc(i), Fraction(v))
        for i, v in enumerate(want[1]):
            k.ensures("default-%s" % ("rate-table-points", "distribution-table-points", "fraction-points")[i], ot(i), num(v))
        out.append(k)
    return out
