"""Hash-consed terms over mathematical integers, reals, booleans; arrays as write-chains (Content)."""
from fractions import Fraction
import itertools, sys, math
sys.setrecursionlimit(20000)

_tab = {}
_ids = itertools.count(1)
F0, F1 = Fraction(0), Fraction(1)


class T:
    __slots__ = ("op", "args", "sort", "id", "depth", "_fs")

    def __repr__(s):
        return show(s)

    def __add__(a, b): return add(a, lift(b))
    def __radd__(a, b): return add(lift(b), a)
    def __sub__(a, b): return sub(a, lift(b))
    def __rsub__(a, b): return sub(lift(b), a)
    def __mul__(a, b): return mul(a, lift(b))
    def __rmul__(a, b): return mul(lift(b), a)
    def __truediv__(a, b): return div(a, lift(b))
    def __rtruediv__(a, b): return div(lift(b), a)
    def __neg__(a): return scale(a, Fraction(-1))
    def __pow__(a, n): return power(a, n)


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    return num(x)


def mk(op, args, sort, depth=0):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.id, t.depth, t._fs = op, args, sort, next(_ids), depth, None
        _tab[k] = t
    return t


def num(x):
    x = Fraction(x) if not isinstance(x, Fraction) else x
    return mk("num", (x,), "I" if x.denominator == 1 else "R")


ZERO, ONE = num(0), num(1)
HALF = num(Fraction(1, 2))
TRUE, FALSE = mk("true", (), "B"), mk("false", (), "B")
_fresh = itertools.count(1)


def sym(name, sort="R"):
    return mk("sym", (name,), sort)


def fresh(name, sort="R"):
    return mk("sym", ("%s!%d" % (name, next(_fresh)),), sort)


def isnum(t): return t.op == "num"
def val(t): return t.args[0]


def maxdepth(ts):
    return max([t.depth for t in ts] or [0])


# ---------------------------------------------------------------- linear forms
def lin(t):
    """-> (const, dict term->coef)"""
    if t.op == "num":
        return t.args[0], {}
    if t.op == "add":
        return t.args[0], dict(t.args[1])
    return Fraction(0), {t: Fraction(1)}


def mklin(c, d):
    items = [(t, k) for t, k in d.items() if k != 0]
    if not items:
        return num(c)
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    integral = c.denominator == 1 and all(k.denominator == 1 and t.sort == "I" for t, k in items)
    return mk("add", (c, tuple(items)), "I" if integral else "R", maxdepth([t for t, _ in items]))


def add(*ts):
    c, d = Fraction(0), {}
    for t in ts:
        if t.op == "num":
            c += t.args[0]
        elif t.op == "add":
            c += t.args[0]
            for x, k in t.args[1]:
                d[x] = d.get(x, 0) + k
        else:
            d[t] = d.get(t, F0) + F1
    return mklin(c, d)


def scale(t, k):
    if k == 1:
        return t
    if k == 0:
        return ZERO
    c, d = lin(t)
    return mklin(c * k, {x: v * k for x, v in d.items()})


def sub(a, b):
    return add(a, scale(b, Fraction(-1)))


def mul(*ts):
    coef, f = Fraction(1), {}

    def addf(x, e):
        n = f.get(x, 0) + e
        if n == 0:
            f.pop(x, None)
        else:
            f[x] = n
    for t in ts:
        _mulin(t, 1, addf, lambda k: None)
    # gather coefficients
    for t in ts:
        coef *= _coef(t, 1)
    return _mkmul(coef, f)


def _coef(t, e):
    if t.op == "num":
        return t.args[0] ** e
    if t.op == "add":
        c, its = t.args
        if c == 0 and len(its) == 1:
            return its[0][1] ** e
        return _lead(t) ** e
    return Fraction(1)


def _lead(t):
    """normalising coefficient of a sum used as a factor: leading one (reals), signed content (integers)"""
    c, its = t.args
    k = its[0][1]
    if t.sort == "I":
        import math
        g = int(abs(c))
        for _, w in its:
            g = math.gcd(g, int(w)) if w.denominator == 1 else 0
            if w.denominator != 1:
                return k
        return Fraction(g if k > 0 else -g)
    return k


def _mulin(t, e, addf, _):
    if t.op == "num":
        return
    if t.op == "add":
        c, its = t.args
        if c == 0 and len(its) == 1:
            _mulin(its[0][0], e, addf, _)
            return
        k = _lead(t)
        u = scale(t, 1 / k)
        addf(u, e)
        return
    if t.op == "mul":
        for x, n in t.args:
            addf(x, n * e)
        return
    addf(t, e)


def _mkmul(coef, f):
    if coef == 0:
        return ZERO
    for x, e in f.items():
        if x.op == "sqrt" and abs(e) >= 2:
            g = dict(f)
            del g[x]
            return mul(_mkmul(coef, g), power(x, e))
    if not f:
        return num(coef)
    its = sorted(f.items(), key=lambda p: p[0].id)
    if len(its) == 1 and its[0][1] == 1:
        b = its[0][0]
    else:
        srt = "I" if all(t.sort == "I" and e > 0 for t, e in its) else "R"
        b = mk("mul", tuple(its), srt, maxdepth([t for t, _ in its]))
    return scale(b, coef)


def power(t, n):
    n = int(n)
    if n == 0:
        return ONE
    if t.op == "num":
        if n < 0 and t.args[0] == 0:
            return fresh("undefined", "R")      # division by zero: an arbitrary value, never equal to another one
        return num(t.args[0] ** n)
    if t.op == "sqrt" and abs(n) >= 2:
        h, r = divmod(abs(n), 2)
        b = power(t.args[0], h) * (t if r else ONE)
        return b if n > 0 else div(ONE, b)
    f = {}

    def addf(x, e):
        f[x] = f.get(x, 0) + e
        if f[x] == 0:
            del f[x]
    _mulin(t, n, addf, None)
    return _mkmul(_coef(t, n), f)


def div(a, b):
    if b.op == "num" and b.args[0] != 0:
        return scale(a, 1 / b.args[0])
    if b.op == "num":
        return app("div0", a)
    return mul(a, power(b, -1))


# ---------------------------------------------------------------- other ops
def app(name, *args, sort="R"):
    return mk("app", (name,) + tuple(args), sort, maxdepth(args))


def sqrt(t):
    if t.op == "num" and t.args[0] >= 0:
        v = t.args[0]
        a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if a * a == v.numerator and b * b == v.denominator:
            return num(Fraction(a, b))
    return mk("sqrt", (t,), "R", t.depth)


def floor(t):
    if t.sort == "I":
        return t
    if t.op == "num":
        return num(math.floor(t.args[0]))
    c, d = lin(t)
    # pull out integer parts
    ci = math.floor(c)
    out, rest = {}, {}
    for x, k in d.items():
        if x.sort == "I" and k.denominator == 1:
            out[x] = k
        else:
            rest[x] = k
    r = mklin(c - ci, rest)
    if r.op == "num":
        return mklin(Fraction(ci), out)
    return add(mklin(Fraction(ci), out), mk("floor", (r,), "I", r.depth))


def nint(t):
    if t.sort == "I":
        return t
    if t.op == "num":
        v = t.args[0]
        return num(math.floor(v + Fraction(1, 2)) if v >= 0 else -math.floor(-v + Fraction(1, 2)))
    return mk("nint", (t,), "I", t.depth)


def trunc(t):
    if t.sort == "I":
        return t
    if t.op == "num":
        v = t.args[0]
        return num(math.floor(v) if v >= 0 else -math.floor(-v))
    return mk("trunc", (t,), "I", t.depth)


def idiv(a, b):
    if a.op == "num" and b.op == "num":
        q = abs(a.args[0]) // abs(b.args[0])
        return num(q if (a.args[0] < 0) == (b.args[0] < 0) else -q)
    if b is ONE:
        return a
    return mk("idiv", (a, b), "I", maxdepth([a, b]))


def mod(a, b):   # Fortran MOD: sign of a
    if a.op == "num" and b.op == "num" and a.sort == "I":
        v, w = a.args[0], b.args[0]
        r = abs(v) % abs(w)
        return num(r if v >= 0 else -r)
    if a.sort == "I" and b.sort == "I":
        return sub(a, mul(b, idiv(a, b)))
    return app("fmod", a, b)


# ---------------------------------------------------------------- booleans
def AND(*ts):
    s = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for x in (t.args if t.op == "and" else (t,)):
            if x not in s:
                s.append(x)
    if not s:
        return TRUE
    ss = set(s)
    for x in s:
        if NOT(x) in ss:
            return FALSE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda t: t.id)
    return mk("and", tuple(s), "B", maxdepth(s))


def OR(*ts):
    return NOT(AND(*[NOT(t) for t in ts]))


def NOT(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "le":     # not (x<=0)  ->  x>0
        x = t.args[0]
        if x.sort == "I":
            return le0(sub(ONE, x))
        return lt0(-x)
    if t.op == "lt":
        return le0(-t.args[0])
    return mk("not", (t,), "B", t.depth)


def _normscale(x):
    c, d = lin(x)
    if not d:
        return x
    its = sorted(d.items(), key=lambda p: p[0].id)
    k = abs(its[0][1])
    if x.sort == "I" or all(t.sort == "I" for t in d):
        den = 1
        for v in list(d.values()) + [c]:
            den = den * v.denominator // math.gcd(den, v.denominator)
        g = 0
        for v in d.values():
            g = math.gcd(g, int(v * den))
        # keep const possibly fractional; handled by caller
        return scale(x, Fraction(den, g))
    return scale(x, 1 / k)


def le0(x):
    if x.op == "num":
        return TRUE if x.args[0] <= 0 else FALSE
    x = _normscale(x)
    c, d = lin(x)
    if all(t.sort == "I" and k.denominator == 1 for t, k in d.items()) and c.denominator != 1:
        x = mklin(Fraction(math.ceil(c)), d)
    if x.op == "ite" and False:
        pass
    return mk("le", (x,), "B", x.depth)


def lt0(x):
    if x.op == "num":
        return TRUE if x.args[0] < 0 else FALSE
    x = _normscale(x)
    c, d = lin(x)
    if all(t.sort == "I" and k.denominator == 1 for t, k in d.items()):
        return le0(mklin(Fraction(math.floor(c)) + 1, d))
    return mk("lt", (x,), "B", x.depth)


def eq0(x):
    if x.op == "num":
        return TRUE if x.args[0] == 0 else FALSE
    x = _normscale(x)
    c, d = lin(x)
    its = sorted(d.items(), key=lambda p: p[0].id)
    if len(its) == 1 and c == 0 and its[0][0].op == "sqrt":
        return eq0(its[0][0].args[0])
    if its[0][1] < 0:
        x = -x
        c = -c
    if c.denominator != 1 and all(t.sort == "I" and k.denominator == 1 for t, k in d.items()):
        return FALSE
    return mk("eq", (x,), "B", x.depth)


def LE(a, b): return le0(sub(lift(a), lift(b)))
def LT(a, b): return lt0(sub(lift(a), lift(b)))
def GE(a, b): return LE(b, a)
def GT(a, b): return LT(b, a)


def EQ(a, b):
    a, b = lift(a), lift(b)
    if a.sort == "B" or b.sort == "B":
        if a is b:
            return TRUE
        return OR(AND(a, b), AND(NOT(a), NOT(b)))
    return eq0(sub(a, b))


def NE(a, b): return NOT(EQ(a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.sort == "B":
        return OR(AND(c, a), AND(NOT(c), b))
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    s = "I" if a.sort == "I" and b.sort == "I" else ("B" if a.sort == "B" else "R")
    # factor common additive part:  ite(c, r+d, r) -> r + ite(c,d,0)
    if a.op == "add" or b.op == "add":
        ca, da = lin(a)
        cb, db = lin(b)
        common = {t: k for t, k in da.items() if db.get(t) == k}
        if common:
            r = mklin(Fraction(0), common)
            return add(r, ite(c, sub(a, r), sub(b, r)))
    return mk("ite", (c, a, b), s, maxdepth((c, a, b)))


def tmin(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = ite(LE(r, t), r, t)
    return r


def tmax(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = ite(LE(t, r), r, t)
    return r


def tabs(t):
    return ite(LE(ZERO, t), t, -t)


# ---------------------------------------------------------------- sums
def tsum(bv, lo, hi, body, step=ONE):
    """sum over bv in lo..hi step; bound variable renamed canonically"""
    if body is ZERO:
        return ZERO
    if isnum(lo) and isnum(hi) and isnum(step):
        l, h, s = val(lo), val(hi), val(step)
        n = (h - l) // s + 1
        if n <= 0:
            return ZERO
        if n <= 12:
            return add(*[subst(body, {bv: num(l + k * s)}) for k in range(int(n))])
    c, d = lin(body)
    if len(d) == 1 and c == 0:
        (t, k), = d.items()
        if k != 1:
            return scale(tsum(bv, lo, hi, t, step), k)
    if step is ONE and isnum(lo) and lo is not ONE:
        # canonical lower bound 1
        w = fresh("w", "I")
        body = subst(body, {bv: add(w, lo, num(-1))})
        return tsum(w, ONE, add(hi, ONE, -lo), body)
    if bv not in free(body) and step is ONE and bv not in free(lo):
        return mul(body, tmax(ZERO, add(hi, -lo, ONE)))
    dep = body.depth + 1
    cv = mk("sym", ("@%d" % dep,), "I")
    if cv is not bv:
        if cv in free(body):
            raise Exception("capture")
        body = subst(body, {bv: cv})
    return mk("sum", (cv, lo, hi, step, body), "R" if body.sort == "R" else "I", max(dep, lo.depth, hi.depth))


# ---------------------------------------------------------------- arrays
_cid = itertools.count(1)


class Content:
    """immutable: base(name) | write(prev, binders, guard, idx, val, mode) | cite(cond,a,b)"""
    __slots__ = ("kind", "name", "sort", "prev", "binders", "guard", "idx", "val", "mode", "id", "cond", "alt", "_fs", "_root")

    def __init__(s, kind):
        s.kind, s.id = kind, next(_cid)
        s.prev = s.binders = s.guard = s.idx = s.val = s.mode = s.cond = s.alt = s.name = None
        s._fs = None
        s._root = None

    def __repr__(s):
        if s.kind == "base":
            return s.name
        if s.kind == "cite":
            return "cite#%d" % s.id
        return "#%d" % s.id

    def base(s):
        c = s
        while c.kind != "base":
            if c.kind == "cite":
                return None
            c = c.prev
        return c


_bases = {}


def cbase(name, sort="R"):
    k = (name, sort)
    if k not in _bases:
        c = Content("base")
        c.name, c.sort = name, sort
        _bases[k] = c
    return _bases[k]


def fresh_base(name, sort="R"):
    return cbase("%s!%d" % (name, next(_fresh)), sort)


def cwrite(prev, idx, v, mode="set", binders=(), guard=TRUE):
    if guard is FALSE:
        return prev
    c = Content("write")
    c.prev, c.idx, c.val, c.mode, c.binders, c.guard, c.sort = prev, tuple(idx), v, mode, tuple(binders), guard, prev.sort
    return c


def ccite(cond, a, b):
    if a is b or cond is TRUE:
        return a
    if cond is FALSE:
        return b
    c = Content("cite")
    c.cond, c.prev, c.alt, c.sort = cond, a, b, a.sort
    return c


def rawsel(c, idx):
    return mk("sel", (c,) + tuple(idx), c.sort, maxdepth(idx))


def differ(i, j):
    """syntactically certainly different / same / unknown"""
    same = True
    for a, b in zip(i, j):
        if a is b:
            continue
        same = False
        d = sub(a, b)
        if d.op == "num":
            return True    # nonzero as a is not b
        if eq0(d) is FALSE:
            return True
    return False if same else None


def select(c, idx, ctx=None):
    """read; resolves what is decided syntactically (or by ctx), otherwise stays lazy"""
    idx = tuple(idx)
    acc = []
    while True:
        if c.kind == "base":
            r = rawsel(c, idx)
            break
        if c.kind == "cite":
            if ctx is not None:
                d = ctx.decide(c.cond)
                if d is True:
                    c = c.prev
                    continue
                if d is False:
                    c = c.alt
                    continue
            r = rawsel(c, idx)
            break
        if not c.binders:
            d = differ(idx, c.idx)
            g = c.guard
            if d is True:
                c = c.prev
                continue
            if d is None and ctx is not None:
                e = ctx.decide(AND(*[EQ(a, b) for a, b in zip(idx, c.idx)]))
                if e is False:
                    c = c.prev
                    continue
                if e is True:
                    d = False
            if d is False:
                if g is not TRUE and ctx is not None:
                    e = ctx.decide(g)
                    if e is True:
                        g = TRUE
                    elif e is False:
                        c = c.prev
                        continue
                if g is TRUE:
                    if c.mode == "set":
                        r = c.val
                        break
                    acc.append(c.val)
                    c = c.prev
                    continue
            r = rawsel(c, idx)
            break
        # binder write
        hit = bind_match(c, idx, ctx)
        if hit is not None:
            cond, v = hit
            dd = cond is TRUE or (ctx.decide(cond) if ctx is not None else None)
            if dd is True:
                if c.mode == "set":
                    r = v
                    break
                acc.append(v)
                c = c.prev
                continue
            if dd is False or cond is FALSE:
                c = c.prev
                continue
        r = rawsel(c, idx)
        break
    return add(r, *acc) if acc else r


_fused = {}


def fuse_binders(c):
    """two nested binders (blocks, position in block) of a write replaced by the one position they enumerate once each"""
    r = _fused.get(c)
    if r is not None:
        return r
    bs = list(c.binders)
    idx, g, v = list(c.idx), c.guard, c.val
    done = False
    while True:
        for q in range(len(bs)):
            for w in range(q + 1, len(bs)):
                b, lo, hi, st = bs[q]
                n, nlo, nhi, nst = bs[w]
                if st is ONE or b not in free(nhi):
                    continue
                f = fuse_cond(b, lo, hi, st, n, nlo, nhi, nst)
                if f is None:
                    continue
                p = fresh("p", "I")
                m = {n: p if b in free(nlo) else sub(p, b)}
                parts = [subst(x, m) for x in idx + [g, v]] + [subst(x, m) for y in bs[w + 1:] for x in y[1:]]
                if any(b in free(x) or n in free(x) for x in parts):
                    continue
                nb = bs[:q] + bs[q + 1:w] + [(p, f[0], f[1], ONE)] + [(y[0],) + tuple(subst(x, m) for x in y[1:]) for y in bs[w + 1:]]
                if any(b in free(x) for y in nb for x in y[1:]):
                    continue
                idx, g, v, bs, done = [subst(x, m) for x in idx], subst(g, m), subst(v, m), nb, True
                break
            else:
                continue
            break
        else:
            break
    r = (tuple(bs), tuple(idx), g, v) if done else (c.binders, c.idx, c.guard, c.val)
    _fused[c] = r
    return r


def stride(w, b):
    """w = b*K + rest with rest free of b: (K, rest) or None"""
    rest = subst(w, {b: ZERO})
    K = sub(subst(w, {b: ONE}), rest)
    if b in free(K) or sub(w, add(mul(b, K), rest)) is not ZERO:
        return None
    return K, rest


def radix(j, K):
    """j = A*K + B, reading A off the terms that contain K"""
    c, d = lin(j)
    A, B = [], [num(c)]
    for t, v in d.items():
        q = None
        if t is K:
            q = ONE
        elif t.op == "mul" and any(x is K and p >= 1 for x, p in t.args):
            q = mul(*[power(x, p - 1 if x is K else p) for x, p in t.args])
        if q is None:
            B.append(scale(t, v))
        else:
            A.append(scale(q, v))
    return add(*A), add(*B)


def radix_solve(bs, sub_, w, j, ctx):
    """one row-major position a*K + rest, 0 <= rest < K for every binder value, against A*K + B with 0 <= B < K: a = A, rest = B"""
    for a in bs:
        if a in sub_ or a not in free(w):
            continue
        sr = stride(w, a)
        if sr is None or isnum(sr[0]):
            continue
        K, rest = sr
        A, B = radix(j, K)
        if ctx.decide(LT(B, ZERO)) is True:
            A, B = sub(A, ONE), add(B, K)
        hyp = [AND(LE(bs[b][1], b), LE(b, bs[b][2])) for b in bs if b in free(rest) and b not in sub_]
        if ctx.decide(AND(LE(ZERO, B), LT(B, K))) is not True:
            continue
        ctx.push(AND(*hyp))
        try:
            ok = ctx.decide(AND(LE(ZERO, rest), LT(rest, K)))
        finally:
            ctx.pop()
        if ok is True:
            return a, A, rest, B
    return None


def bind_match(c, idx, ctx=None):
    """solve binders from idx. returns (cond, value) with binders eliminated, or None"""
    r = bind_match1(c.binders, c.idx, c.guard, c.val, idx, ctx)
    if r is None and len(c.binders) > 1:
        f = fuse_binders(c)
        if len(f[0]) < len(c.binders):
            r = bind_match1(f[0], f[1], f[2], f[3], idx, ctx)
    return r


def bind_match1(c_binders, c_idx, c_guard, c_val, idx, ctx=None):
    sub_ = {}
    conds = []
    bs = {b[0]: b for b in c_binders}
    pend = list(zip(c_idx, idx))
    # order binders; solve those appearing linearly alone
    progress = True
    pairs = pend
    while progress:
        progress = False
        rest = []
        for w, j in pairs:
            w2 = subst(w, sub_) if sub_ else w
            fv = [b for b in bs if b not in sub_ and b in free(w2)]
            if not fv:
                conds.append(EQ(w2, j))
                continue
            if len(fv) == 1:
                b = fv[0]
                k, d = lin(w2)
                co = d.get(b)
                if co is not None and abs(co) == 1 and not any(b in free(t) for t in d if t is not b):
                    r = mklin(k, {t: v for t, v in d.items() if t is not b})
                    sub_[b] = scale(sub(j, r), co)
                    progress = True
                    continue
            if ctx is not None:
                q = radix_solve(bs, sub_, w2, j, ctx)
                if q is not None:
                    sub_[q[0]] = q[1]
                    rest.append((q[2], q[3]))
                    progress = True
                    continue
            rest.append((w, j))
        pairs = rest
    if pairs or any(b not in sub_ for b in bs):
        return None
    for b, lo, hi, st in c_binders:
        e = sub_[b]
        lo2, hi2 = subst(lo, sub_), subst(hi, sub_)
        conds += [LE(lo2, e), LE(e, hi2)]
        if st is not ONE:
            conds.append(EQ(mod(sub(e, lo2), subst(st, sub_)), ZERO))
    g = subst(c_guard, sub_)
    return AND(g, *conds), subst(c_val, sub_)


def expand_sel(t, one=False, ctx=None):
    """t is a 'sel' whose content is not base: expand one level of its chain into ite/sum"""
    c, idx = t.args[0], t.args[1:]
    if c.kind == "base":
        return t
    if c.kind == "cite":
        return ite(c.cond, select(c.prev, idx), select(c.alt, idx))
    if not c.binders:
        cond = AND(c.guard, *[EQ(a, b) for a, b in zip(idx, c.idx)])
        older = select(c.prev, idx)
        if c.mode == "set":
            return ite(cond, c.val, older)
        return add(older, ite(cond, c.val, ZERO))
    older = select(c.prev, idx)
    h = bind_match(c, idx, ctx)
    if c.mode == "set":
        if h is None:
            raise NotResolved("binder write not invertible: idx %s" % (c.idx,))
        cond, v = h
        return ite(cond, v, older)
    if h is not None:
        cond, v = h
        return add(older, ite(cond, v, ZERO))
    body = ite(AND(c.guard, *[EQ(a, b) for a, b in zip(idx, c.idx)]), c.val, ZERO)
    return add(older, nest_sum(c.binders, body))


class NotResolved(Exception):
    pass


def nest_sum(binders, body):
    """sum over binders (outermost first); eliminates deltas"""
    for b, lo, hi, st in reversed(binders):
        body = sum_delta(b, lo, hi, st, body)
    return body


def split_ite0(t):
    """t == ite(c, v, 0)?"""
    c, d = lin(t)
    if c == 0 and len(d) == 1:
        (x, k), = d.items()
        if x.op == "ite" and x.args[2] is ZERO:
            return x.args[0], scale(x.args[1], k)
    return None


def sum_delta(b, lo, hi, st, body, force=False):
    if body is ZERO:
        return ZERO
    c, d = lin(body)
    if len(d) > 1 or (c != 0 and d):
        parts = []
        if c != 0:
            parts.append(num(c))
        for x, k in d.items():
            parts.append(scale(x, k))
        fu = []
        for p in list(parts):
            if lin(p)[1] and next(iter(lin(p)[1])).op == "sum":
                f = fuse_sum(b, lo, hi, st, p)
                if f is not None:
                    fu.append(f)
                    parts.remove(p)
        if fu:
            return add(*(fu + ([sum_delta(b, lo, hi, st, add(*parts), force)] if parts else [])))
        if any(split_ite0(p) for p in parts):
            plain = [p for p in parts if not split_ite0(p)]
            return add(*([sum_delta(b, lo, hi, st, p, force) for p in parts if split_ite0(p)] +
                         ([tsum(b, lo, hi, add(*plain), st)] if plain else [])))
    s = split_ite0(body)
    if s:
        cond, v = s
        cs = cond.args if cond.op == "and" else (cond,)
        for a in cs:
            if a.op == "eq":
                k, dd = lin(a.args[0])
                co = dd.get(b)
                if co is not None and abs(co) == 1 and (force or not any(t.op == "mul" for t in dd)) and not any(b in free(t) for t in dd if t is not b):
                    r = mklin(k, {t: w for t, w in dd.items() if t is not b})
                    e = scale(r, -co)
                    if e.sort != "I":
                        continue
                    rest = [subst(x, {b: e}) for x in cs if x is not a]
                    rng = [LE(lo, e), LE(e, hi)]
                    if st is not ONE:
                        rng.append(EQ(mod(sub(e, lo), st), ZERO))
                    return ite(AND(*(rest + rng)), subst(v, {b: e}), ZERO)
        out = [x for x in cs if b not in free(x)]
        if out:
            inn = [x for x in cs if b in free(x)]
            return ite(AND(*out), sum_delta(b, lo, hi, st, ite(AND(*inn), v, ZERO), force), ZERO)
    # hoist binder-free conds of a nested sum: sum_b sum_b' ite(c(b')...)  handled by caller via fusion
    f = fuse_sum(b, lo, hi, st, body)
    if f is not None:
        return f
    return tsum(b, lo, hi, body, st)


def fuse_cond(b, lo, hi, st, n, nlo, nhi, nst):
    """blocks b in lo..hi step L and n in nlo..min(..): b+n covers lo+nlo .. hi+nlo exactly once
    when the n-range is nlo..nlo+min(L, hi-b+1)-1.  Returns (new lo, new hi) for p=b+n or None"""
    if nst is not ONE:
        return None
    if b in free(nlo):
        off = sub(nlo, b)
        if b in free(off):
            return None
        if EQ_min(nhi, tmin(add(nlo, st, num(-1)), add(hi, off))):
            return add(lo, off), add(hi, off)
        return None
    want = add(nlo, tmin(st, add(sub(hi, b), ONE)), num(-1))
    alts = [want, add(nlo, tmin(add(sub(hi, b), ONE), st), num(-1)), tmin(add(nlo, st, num(-1)), add(nlo, sub(hi, b))),
            tmin(add(nlo, sub(hi, b)), add(nlo, st, num(-1)))]
    if nhi in alts or (EQ_min(nhi, want)):
        return add(lo, nlo), add(hi, nlo)
    return None


def EQ_min(a, b):
    """ite-form minimum comparison up to argument order"""
    def norm(t):
        c, d = lin(t)
        for x, k in d.items():
            if x.op == "ite" and x.args[0].op in ("le", "lt") and k == 1:
                r = mklin(c, {y: w for y, w in d.items() if y is not x})
                p, q = x.args[1], x.args[2]
                # is it min?
                cnd = x.args[0]
                if cnd is LE(p, q) or cnd is LT(p, q):
                    return frozenset((add(p, r), add(q, r)))
        return None
    na, nb = norm(a), norm(b)
    return na is not None and na == nb


def fuse_swapped(v, lo, hi, body):
    """sum over v in lo..hi of a sum over i in ilo..ihi step L = hi-lo+1, guarded by p=i+v-lo <= ihi and depending on p only"""
    c, d = lin(body)
    if c != 0 or len(d) != 1:
        return None
    (x, k), = d.items()
    if x.op != "sum":
        return None
    i, ilo, ihi, L, inner = x.args
    if L is ONE or add(hi, ONE, -lo, -L) is not ZERO or v in free(ilo) or v in free(ihi):
        return None
    s = split_ite0(inner)
    if not s:
        return None
    p = fresh("p", "I")
    m = {v: add(p, -i, lo)}
    cs = s[0].args if s[0].op == "and" else (s[0],)
    keep, seen = [], False
    for a in cs:
        if a is LE(lo, v) or a is LE(v, hi):
            continue
        if a.op == "le" and EQ_min(sub(v, a.args[0]), tmin(hi, add(ihi, -i, lo))):
            seen = True
            continue
        a2 = subst(a, m)
        if a2 is LE(p, ihi):
            seen = True
        else:
            keep.append(a2)
    val_ = subst(s[1], m)
    if not seen or any(i in free(t) for t in keep + [val_]):
        return None
    return scale(sum_delta(p, ilo, ihi, ONE, ite(AND(*keep), val_, ZERO) if keep else val_), k)


def fuse_sum(b, lo, hi, st, body):
    if st is ONE:
        return fuse_swapped(b, lo, hi, body)
    c, d = lin(body)
    if c != 0 or len(d) != 1:
        return None
    (x, k), = d.items()
    if x.op != "sum":
        return None
    n, nlo, nhi, nst, inner = x.args
    r = fuse_cond(b, lo, hi, st, n, nlo, nhi, nst)
    if r is None:
        return None
    p = fresh("p", "I")
    inner2 = subst(inner, {n: p if b in free(nlo) else sub(p, b)})
    if b in free(inner2):
        return None
    return scale(sum_delta(p, r[0], r[1], ONE, inner2), k)


# ---------------------------------------------------------------- traversal
def children(t):
    op = t.op
    if op in ("num", "sym", "true", "false"):
        return ()
    if op == "add" or op == "mul":
        its = t.args[1] if op == "add" else t.args
        return tuple(x for x, _ in its)
    if op == "sel" or op == "app":
        return t.args[1:]
    return t.args


def free(t):
    """frozenset of free symbols and Content bases' names are NOT included; contents' free symbols are"""
    if t._fs is not None:
        return t._fs
    if t.op == "sym":
        r = frozenset((t,))
    elif t.op == "sum":
        b, lo, hi, st, body = t.args
        r = free(lo) | free(hi) | free(st) | (free(body) - {b})
    else:
        r = frozenset()
        for x in children(t):
            r |= free(x)
        if t.op == "sel":
            r |= cfree(t.args[0])
    t._fs = r
    return r


def cfree(c):
    # iterative on chain
    stack = []
    x = c
    while x._fs is None and x.kind == "write":
        stack.append(x)
        x = x.prev
    if x._fs is None:
        if x.kind == "base":
            x._fs = frozenset()
        else:
            x._fs = free(x.cond) | cfree(x.prev) | cfree(x.alt)
    r = x._fs
    for y in reversed(stack):
        s = free(y.val) | free(y.guard)
        for i in y.idx:
            s |= free(i)
        for b, lo, hi, st in y.binders:
            s |= free(lo) | free(hi) | free(st)
        s -= {b[0] for b in y.binders}
        y._fs = y.prev._fs | s
    return c._fs


def roots(c):
    """set of base Contents reachable (including through values)"""
    if c._root is not None:
        return c._root
    chain = []
    x = c
    while x._root is None and x.kind == "write":
        chain.append(x)
        x = x.prev
    if x._root is None:
        if x.kind == "base":
            x._root = frozenset((x,))
        else:
            x._root = roots(x.prev) | roots(x.alt) | troots(x.cond)
    for y in reversed(chain):
        s = troots(y.val) | troots(y.guard)
        for i in y.idx:
            s |= troots(i)
        y._root = y.prev._root | s
    return c._root


_troots = {}


def troots(t):
    r = _troots.get(t)
    if r is not None:
        return r
    r = frozenset()
    for x in children(t):
        r |= troots(x)
    if t.op == "sel":
        r |= roots(t.args[0])
    _troots[t] = r
    return r


def rebuild(t, ch):
    """rebuild t with mapped children list (same order as children())"""
    op = t.op
    if op == "add":
        return add(num(t.args[0]), *[scale(x, k) for x, (_, k) in zip(ch, t.args[1])])
    if op == "mul":
        return mul(*[power(x, e) for x, (_, e) in zip(ch, t.args)])
    if op == "ite":
        return ite(*ch)
    if op == "and":
        return AND(*ch)
    if op == "not":
        return NOT(ch[0])
    if op == "le":
        return le0(ch[0])
    if op == "lt":
        return lt0(ch[0])
    if op == "eq":
        return eq0(ch[0])
    if op == "sqrt":
        return sqrt(ch[0])
    if op == "floor":
        return floor(ch[0])
    if op == "nint":
        return nint(ch[0])
    if op == "trunc":
        return trunc(ch[0])
    if op == "idiv":
        return idiv(*ch)
    raise Exception(op)


def rebuild_app(t, ch):
    f = t.args[0]
    if (f == "pow" and ch[1] is ZERO) or (f == "exp" and ch[0] is ZERO):
        return ONE
    if f == "log" and ch[0].op == "app" and ch[0].args[0] == "exp":
        return ch[0].args[1]
    if f == "log" and ch[0] is ONE:
        return ZERO
    return app(t.args[0], *ch, sort=t.sort)


def subst(t, m, cm=None):
    """substitute symbols (T->T) and contents bases (Content->Content)"""
    if not m and not cm:
        return t
    memo = {}
    keys = frozenset(m)
    ckeys = frozenset(cm) if cm else frozenset()
    return _subst(t, m, keys, memo, cm or {}, ckeys, {})


def _touch(t, keys, ckeys):
    return bool(free(t) & keys) or (ckeys and bool(troots(t) & ckeys))


def _subst(t, m, keys, memo, cm, ckeys, cmemo):
    if t in m:
        return m[t]
    if not _touch(t, keys, ckeys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    S = lambda x: _subst(x, m, keys, memo, cm, ckeys, cmemo)
    if op == "sum":
        b, lo, hi, st, body = t.args
        bb = fresh("s", "I")
        body2 = subst(body, {b: bb})
        body3 = _subst(body2, m, keys, {}, cm, ckeys, cmemo)
        r = sum_delta(bb, S(lo), S(hi), S(st), body3)
    elif op == "sel":
        c = csubst(t.args[0], m, keys, memo, cm, ckeys, cmemo)
        r = select(c, [S(x) for x in t.args[1:]])
    elif op == "app":
        r = rebuild_app(t, [S(x) for x in t.args[1:]])
    else:
        r = rebuild(t, [S(x) for x in children(t)])
    memo[t] = r
    return r


def csubst(c, m, keys, memo, cm, ckeys, cmemo):
    if c in cm:
        return cm[c]
    if not (cfree(c) & keys) and not (ckeys and roots(c) & ckeys):
        return c
    if c in cmemo:
        return cmemo[c]
    chain = []
    x = c
    while x.kind == "write" and x not in cmemo and x not in cm and ((cfree(x) & keys) or (ckeys and roots(x) & ckeys)):
        chain.append(x)
        x = x.prev
    if x in cm:
        p = cm[x]
    elif x in cmemo:
        p = cmemo[x]
    elif x.kind == "cite" and ((cfree(x) & keys) or (ckeys and roots(x) & ckeys)):
        S = lambda y: _subst(y, m, keys, memo, cm, ckeys, cmemo)
        p = ccite(S(x.cond), csubst(x.prev, m, keys, memo, cm, ckeys, cmemo), csubst(x.alt, m, keys, memo, cm, ckeys, cmemo))
        cmemo[x] = p
    else:
        p = x
    S = lambda y: _subst(y, m, keys, memo, cm, ckeys, cmemo)
    for y in reversed(chain):
        if y.binders:
            # binders are globally unique symbols, not in m
            bs = tuple((b, S(lo), S(hi), S(st)) for b, lo, hi, st in y.binders)
        else:
            bs = ()
        p = cwrite(p, [S(i) for i in y.idx], S(y.val), y.mode, bs, S(y.guard))
        cmemo[y] = p
    return p


def transform(t, f, memo):
    """bottom-up rewriting: f(t) applied on rebuilt node; does not enter contents"""
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op in ("num", "sym", "true", "false"):
        r = f(t)
    elif op == "sel":
        r = f(rawsel(t.args[0], [transform(x, f, memo) for x in t.args[1:]]))
    elif op == "app":
        r = f(rebuild_app(t, [transform(x, f, memo) for x in t.args[1:]]))
    elif op == "sum":
        b, lo, hi, st, body = t.args
        r = f(t)
    else:
        r = f(rebuild(t, [transform(x, f, memo) for x in children(t)]))
    memo[t] = r
    return r


def size(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return 0
    seen.add(t)
    return 1 + sum(size(x, seen) for x in children(t))


# ---------------------------------------------------------------- printing
def show(t, lim=2000):
    s = _show(t, [4000])
    return s if len(s) <= lim else s[:lim] + "..."


def _fr(x):
    return str(x) if x.denominator == 1 else "(%s/%s)" % (x.numerator, x.denominator)


def _show(t, b):
    b[0] -= 1
    if b[0] < 0:
        return "…"
    o = t.op
    if o == "num":
        return _fr(t.args[0])
    if o == "sym":
        return t.args[0]
    if o in ("true", "false"):
        return o
    if o == "add":
        c, its = t.args
        p = [("" if k == 1 else "-" if k == -1 else _fr(k) + "*") + _show(x, b) for x, k in its]
        if c:
            p.append(_fr(c))
        return "(" + " + ".join(p) + ")"
    if o == "mul":
        return "*".join(_show(x, b) + ("" if e == 1 else "^%d" % e) for x, e in t.args)
    if o == "sel":
        return "%r(%s)" % (t.args[0], ",".join(_show(x, b) for x in t.args[1:]))
    if o == "app":
        return "%s(%s)" % (t.args[0], ",".join(_show(x, b) for x in t.args[1:]))
    if o in ("le", "lt", "eq"):
        return "[%s %s 0]" % (_show(t.args[0], b), {"le": "<=", "lt": "<", "eq": "=="}[o])
    if o == "sum":
        v, lo, hi, st, body = t.args
        return "SUM(%s=%s..%s%s: %s)" % (v.args[0], _show(lo, b), _show(hi, b), "" if st is ONE else " step " + _show(st, b), _show(body, b))
    return "%s(%s)" % (o, ", ".join(_show(x, b) for x in t.args))
