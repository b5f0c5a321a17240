"""spec functions shared by contracts"""
from fractions import Fraction
from term import *


def dot(a, b):
    return add(*[mul(x, y) for x, y in zip(a, b)])


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def boris(u0, u1, E, B, q, m, dt, c):
    """implicit Boris scheme: u+ - u- = (q dt / 2 m gamma-) (u+ + u-) x B, u- = u0 + kE, u+ = u1 - kE"""
    k = q * dt * HALF / m
    um = [a + k * e for a, e in zip(u0, E)]
    up = [a - k * e for a, e in zip(u1, E)]
    g = sqrt(1 + dot(um, um) / c**2)
    cr = cross([a + b for a, b in zip(up, um)], B)
    return [(p - w, k / g * x) for p, w, x in zip(up, um, cr)]


def tabs(x):
    return ite(LE(ZERO, x), x, -x)


def bspline(order, d):
    """centred B-spline shape factor S_order(d)"""
    a = tabs(d)
    if order == 0:
        return ite(AND(LE(num(Fraction(-1, 2)), d), LT(d, HALF)), ONE, ZERO)
    if order == 1:
        return ite(LT(a, ONE), 1 - a, ZERO)
    if order == 2:
        return ite(LT(a, HALF), num(Fraction(3, 4)) - d**2, ite(LT(a, num(Fraction(3, 2))), HALF * (num(Fraction(3, 2)) - a)**2, ZERO))
    if order == 3:
        return ite(LT(a, ONE), num(Fraction(2, 3)) - d**2 + HALF * a * d**2, ite(LT(a, num(2)), num(Fraction(1, 6)) * (2 - a)**3, ZERO))
    raise ValueError(order)


def weights(order, d):
    """values of the centred B-spline of that order at the nodes base+o, for a point at distance d from base"""
    H = HALF
    if order == 0:
        return {0: ONE}
    if order == 1:
        return {0: 1 - d, 1: d}
    if order == 2:
        return {-1: H * (H - d)**2, 0: num(Fraction(3, 4)) - d**2, 1: H * (H + d)**2}
    o = 1 - d
    s = num(Fraction(1, 6))
    t = num(Fraction(2, 3))
    return {-1: s * o**3, 0: t - d**2 * (1 - d * H), 1: t - o**2 * (1 - o * H), 2: s * d**3}


def base(order, x, rounding=False):
    # even orders: both ways of rounding a tie give the same spline values (the spline is continuous)
    return floor(x) if order % 2 else nint(x) if rounding else floor(x + HALF)


def shape(order, J, x, rounding=False):
    """centred B-spline S_order(J - x) at the integer node J (lemma spline-pieces: equal to bspline(order, J - x))"""
    b = base(order, x, rounding)
    r = ZERO
    for o, w in weights(order, x - b).items():
        r = ite(EQ(J, b + o), w, r)
    return r
