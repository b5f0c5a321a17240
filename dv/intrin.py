"""Fortran intrinsics"""
from term import *
from ftn import Unsupported


def _args(s, args, fr, st):
    return [s.eval_any(a[2] if a[0] == "kw" else a, fr, st) for a in args]


def el1(f, tyf=None):
    def g(s, args, fr, st):
        a = s.eval_any(args[0], fr, st)
        return s.map1(lambda ty, v: f(ty, v), a)
    return g


def _re(v):
    from sx import CV
    return v.re if isinstance(v, CV) else v


def _abs(ty, v):
    if ty == "C":
        return ("R", sqrt(add(mul(v.re, v.re), mul(v.im, v.im))))
    return (ty, tabs(v))


def ufn(name):
    def f(ty, v):
        from sx import CV
        if isinstance(v, CV):
            if name == "exp":
                return ("C", CV(mul(fn("exp", v.re), fn("cos", v.im)), mul(fn("exp", v.re), fn("sin", v.im))))
            if name == "sqrt":
                return ("C", CV(app("csqrt_re", v.re, v.im), app("csqrt_im", v.re, v.im)))
            raise Unsupported("complex " + name)
        return ("R", fn(name, v))
    return el1(f)


def fn(name, v):
    if name == "exp" and v is ZERO:
        return ONE
    if name in ("sin", "tan", "asin", "atan", "sinh", "tanh") and v is ZERO:
        return ZERO
    if name in ("cos", "cosh") and v is ZERO:
        return ONE
    if name == "log" and v is ONE:
        return ZERO
    # parity normalisation
    if name in ("sin", "cos", "tan"):
        c, d = lin(v)
        if d:
            k = min(d.items(), key=lambda p: p[0].id)[1]
            if k < 0:
                r = app(name, -v)
                return r if name == "cos" else -r
    return app(name, v)


def minmax(f):
    def g(s, args, fr, st):
        vs = _args(s, args, fr, st)
        r = vs[0]
        for b in vs[1:]:
            r = s.map2(lambda ta, x, tb, y: ("R" if "R" in (ta, tb) else "I", f(x, y)), r, b)
        return r
    return g


def _int(ty, v):
    if ty == "C":
        v = v.re
    return ("I", trunc(v) if ty != "I" else v)


def _mod(s, args, fr, st):
    a, b = _args(s, args, fr, st)

    def f(ta, x, tb, y):
        if ta == "I" and tb == "I":
            if isnum(x) and isnum(y):
                return ("I", mod(x, y))
            return ("I", sub(x, mul(y, idiv(x, y))))
        return ("R", app("fmod", x, y))
    return s.map2(f, a, b)


def _modulo(s, args, fr, st):
    a, b = _args(s, args, fr, st)

    def f(ta, x, tb, y):
        if ta == "I" and tb == "I":
            if isnum(y) and val(y) > 0:
                return ("I", sub(x, mul(y, floor_div(x, y))))
            r = sub(x, mul(y, idiv(x, y)))
            return ("I", ite(AND(NE(r, ZERO), NE_sign(r, y)), add(r, y), r))
        return ("R", sub(x, mul(y, floor(div(x, y)))))
    return s.map2(f, a, b)


def floor_div(x, y):
    q = idiv(x, y)
    return ite(AND(LT(x, ZERO), NE(sub(x, mul(y, q)), ZERO)), sub(q, ONE), q)


def NE_sign(r, y):
    return NOT(EQ(LT(r, ZERO), LT(y, ZERO)))


def _sum(s, args, fr, st):
    a = s.eval_any(args[0], fr, st)
    if len(args) > 1:
        raise Unsupported("SUM with dim/mask")
    from sx import CV
    import itertools
    if a.ty == "C":
        return ("C", CV(_reduce(a, lambda o: a.fn(o).re), _reduce(a, lambda o: a.fn(o).im)))
    return (a.ty, _reduce(a, a.fn))


def _reduce(a, fnn):
    bs = [fresh("s", "I") for _ in a.ext]
    t = fnn(bs)
    for b, e in reversed(list(zip(bs, a.ext))):
        t = sum_delta(b, ZERO, sub(e, ONE), ONE, t)
    return t


def _product(s, args, fr, st):
    a = s.eval_any(args[0], fr, st)
    if all(isnum(e) for e in a.ext) and len(a.ext) == 1:
        r = ONE
        for q in range(int(val(a.ext[0]))):
            r = mul(r, a.fn([num(q)]))
        return (a.ty, r)
    raise Unsupported("PRODUCT symbolic")


def _maxval(f):
    def g(s, args, fr, st):
        a = s.eval_any(args[0], fr, st)
        if all(isnum(e) for e in a.ext) and len(a.ext) == 1 and val(a.ext[0]) <= 64:
            return (a.ty, f(*[a.fn([num(q)]) for q in range(int(val(a.ext[0])))]))
        raise Unsupported("MAXVAL symbolic")
    return g


def _size(s, args, fr, st):
    v = s.lval(args[0], fr, st)
    if v is None:
        a = s.eval_any(args[0], fr, st)
        ext = a.ext
    else:
        ext = v.extents()
    if len(args) > 1:
        d = args[1][2] if args[1][0] == "kw" else args[1]
        return ("I", ext[int(val(s.ev(d, fr, st))) - 1])
    r = ONE
    for e in ext:
        r = mul(r, e)
    return ("I", r)


def _bound(which):
    def g(s, args, fr, st):
        v = s.lval(args[0], fr, st)
        rng = [d for d in v.dims if d[0] == "rng"]
        if len(args) > 1:
            d = args[1][2] if args[1][0] == "kw" else args[1]
            return ("I", rng[int(val(s.ev(d, fr, st))) - 1][1 if which == "l" else 2])
        from sx import Arr
        return Arr("I", [num(len(rng))], lambda o: rng[int(val(o[0]))][1 if which == "l" else 2])
    return g


def _merge(s, args, fr, st):
    a, b, c = _args(s, args, fr, st)
    return (a[0], ite(c[1], a[1], b[1]))


def _sign(s, args, fr, st):
    a, b = _args(s, args, fr, st)
    return s.map2(lambda ta, x, tb, y: (ta, ite(LE(ZERO, y), tabs(x), -tabs(x))), a, b)


def _cmplx(s, args, fr, st):
    from sx import CV
    args = [a for a in args if a[0] != "kw"]
    a = s.eval_any(args[0], fr, st)
    if len(args) > 1:
        b = s.eval_any(args[1], fr, st)
        from sx import Arr
        return s.map2(lambda ta, x, tb, y: ("C", CV(_re(x), _re(y))), a, b)
    return s.map1(lambda ty, v: ("C", v if isinstance(v, CV) else CV(v, ZERO)), a)


def _present(s, args, fr, st):
    return ("B", FALSE if fr.vars.get(args[0][1]) is None else TRUE)


def _const(f):
    return f


def _flag(pre):
    def g(s, args, fr, st):
        v = s.lval(args[0], fr, st)
        if pre == "assoc" and args[0][0] == "name":
            pass
        f = st.flags.get("alloc:" + v.key)
        if f is not None:
            return ("B", f)
        return ("B", sym(pre + ":" + v.key, "B"))
    return g


def _any(which):
    def g(s, args, fr, st):
        a = s.eval_any(args[0], fr, st)
        if all(isnum(e) for e in a.ext) and len(a.ext) == 1 and val(a.ext[0]) <= 64:
            ts = [a.fn([num(q)]) for q in range(int(val(a.ext[0])))]
            return ("B", OR(*ts) if which == "any" else AND(*ts))
        raise Unsupported("ANY/ALL symbolic")
    return g


def _dot(s, args, fr, st):
    a, b = _args(s, args, fr, st)
    return ("R", _reduce(a, lambda o: mul(a.fn(o), b.fn(o))))



def _sqrt(ty, v):
    from sx import CV
    if isinstance(v, CV):
        return ("C", CV(app("csqrt_re", v.re, v.im), app("csqrt_im", v.re, v.im)))
    return ("R", sqrt(v))


INTRIN = {
    "sqrt": el1(_sqrt), "dsqrt": el1(_sqrt), "abs": el1(_abs), "dabs": el1(_abs), "iabs": el1(_abs),
    "exp": ufn("exp"), "log": ufn("log"), "sin": ufn("sin"), "cos": ufn("cos"), "tan": ufn("tan"), "tanh": ufn("tanh"),
    "asin": ufn("asin"), "acos": ufn("acos"), "atan": ufn("atan"), "log10": ufn("log10"), "sinh": ufn("sinh"), "cosh": ufn("cosh"),
    "dexp": ufn("exp"), "dlog": ufn("log"), "gamma": ufn("gamma"),
    "floor": el1(lambda ty, v: ("I", floor(v))),
    "ceiling": el1(lambda ty, v: ("I", -floor(-v))),
    "nint": el1(lambda ty, v: ("I", nint(v))),
    "int": el1(_int), "ifix": el1(_int),
    "aint": el1(lambda ty, v: ("R", trunc(v))),
    "anint": el1(lambda ty, v: ("R", nint(v))),
    "real": el1(lambda ty, v: ("R", _re(v))), "dble": el1(lambda ty, v: ("R", _re(v))), "float": el1(lambda ty, v: ("R", v)),
    "aimag": el1(lambda ty, v: ("R", v.im)),
    "conjg": el1(lambda ty, v: ("C", __import__("sx").CV(v.re, -v.im))),
    "min": minmax(tmin), "max": minmax(tmax),
    "mod": _mod, "modulo": _modulo, "sum": _sum, "product": _product, "maxval": _maxval(tmax), "minval": _maxval(tmin),
    "size": _size, "lbound": _bound("l"), "ubound": _bound("u"), "merge": _merge, "sign": _sign,
    "cmplx": _cmplx, "dcmplx": _cmplx, "present": _present, "associated": _flag("assoc"), "allocated": _flag("alloc"),
    "any": _any("any"), "all": _any("all"), "dot_product": _dot,
    "logical": el1(lambda ty, v: ("B", v)),
    "trim": el1(lambda ty, v: ("S", v)), "adjustl": el1(lambda ty, v: ("S", v)),
    "huge": lambda s, a, fr, st: ("R", sym("huge")), "tiny": lambda s, a, fr, st: ("R", sym("tiny")),
    "epsilon": lambda s, a, fr, st: ("R", sym("epsilon")),
    "atan2": lambda s, a, fr, st: ("R", app("atan2", *[x[1] for x in _args(s, a, fr, st)])),
}
