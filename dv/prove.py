"""Proof back ends: case splitting (z3 linear arithmetic) + exact rational-function normalisation; numeric refutation."""
from fractions import Fraction
import random, time
from term import *
import term as TM
from arith import Ctx, STATS
from sympy.polys.rings import ring
from sympy import QQ
import mpmath
mpmath.mp.dps = 40

PST = {"splits": 0, "leaves": 0, "polys": 0, "obligations": 0}


class Failed(Exception):
    def __init__(s, msg, term=None, ctx=None, hyps=None):
        Exception.__init__(s, msg)
        s.term, s.hyps = term, hyps


class Unknown(Exception):
    pass


# ------------------------------------------------------------------ simplification under hypotheses
from term import floor as TM_floor


def simp(t, ctx, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    o = t.op
    if o in ("num", "sym", "true", "false"):
        r = t
    elif o == "ite":
        c = simpb(t.args[0], ctx, memo)
        if c is TRUE:
            r = simp(t.args[1], ctx, memo)
        elif c is FALSE:
            r = simp(t.args[2], ctx, memo)
        else:
            r = ite(c, simp(t.args[1], ctx, memo), simp(t.args[2], ctx, memo))
    elif t.sort == "B":
        r = simpb(t, ctx, memo)
    elif o == "sel":
        c = t.args[0]
        idx = [simp(x, ctx, memo) for x in t.args[1:]]
        x = select(c, idx, ctx)
        if x.op == "sel" and x.args[0].kind != "base":
            y = expand_sel(x, ctx=ctx)
            r = simp(y, ctx, memo)
        elif x.op == "sel":
            r = x
        else:
            r = simp(x, ctx, memo)
    elif o == "app":
        r = rebuild_app(t, [simp(x, ctx, memo) for x in t.args[1:]])
    elif o == "sum":
        b, lo, hi, st, body = t.args
        lo, hi, st = simp(lo, ctx, memo), simp(hi, ctx, memo), simp(st, ctx, memo)
        bb = fresh("s", "I")
        body = subst(body, {b: bb})
        rng = AND(LE(lo, bb), LE(bb, hi))
        ctx.push(rng)
        try:
            if not ctx.feasible():
                r = ZERO
            else:
                # simplifying under the range may produce conditions decided by it
                r = None
                body2 = simp(body, ctx)
        finally:
            ctx.pop()
        if r is None:
            r = sum_delta(bb, lo, hi, st, body2)
            if r.op != "sum" and r is not t:
                r2 = r
                if any_sel(r2):
                    r2 = simp(r2, ctx, memo)
                r = r2
    elif o in ("nint", "trunc"):
        x = simp(t.args[0], ctx, memo)
        h = HALF if o == "nint" else ZERO
        if x.op == "num":
            r = rebuild(t, [x])
        elif ctx.decide(LE(ZERO, x)) is True:
            r = TM_floor(x + h)
        elif ctx.decide(LE(x, ZERO)) is True:
            r = -TM_floor(h - x)
        else:
            r = rebuild(t, [x])
    elif o == "mul":
        ch = [simp(x, ctx, memo) for x, _ in t.args]
        r = rebuild(t, ch)
        r = push_mul_sum(r)
    else:
        r = rebuild(t, [simp(x, ctx, memo) for x in children(t)])
    if r.op == "add":
        c, its = r.args
        if any(x.op == "mul" for x, _ in its):
            r = add(num(c), *[scale(push_mul_sum(x), k) for x, k in its])
    memo[t] = r
    return r


def push_mul_sum(r):
    c, d = lin(r)
    if c == 0 and len(d) == 1:
        (m, k), = d.items()
        if m.op == "mul":
            ss = [(x, e) for x, e in m.args if x.op == "sum" and e == 1]
            if len(ss) == 1:
                S = ss[0][0]
                b, lo, hi, st, body = S.args
                rest = mul(*[power(x, e) for x, e in m.args if x is not S])
                if b not in free(rest):
                    bb = fresh("s", "I")
                    return tsum(bb, lo, hi, mul(scale(rest, k), subst(body, {b: bb})), st)
    return r


def any_sel(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return False
    seen.add(t)
    if t.op == "sel" and t.args[0].kind != "base":
        return True
    return any(any_sel(x, seen) for x in children(t))


def simpb(c, ctx, memo):
    if c in (TRUE, FALSE):
        return c
    r = memo.get(c)
    if r is not None:
        return r
    if c.op == "and":
        out = []
        for x in c.args:
            y = simpb(x, ctx, memo)
            if y is FALSE:
                out = [FALSE]
                break
            out.append(y)
        r = AND(*out)
        if r.op == "and":
            d = ctx.decide(r)
            r = TRUE if d is True else FALSE if d is False else r
    elif c.op == "not":
        r = NOT(simpb(c.args[0], ctx, memo))
    else:
        d = ctx.decide(c)
        if d is None and c.op in ("le", "lt", "eq"):
            x = simp(c.args[0], ctx, memo)
            c2 = {"le": le0, "lt": lt0, "eq": eq0}[c.op](x)
            if c2.op == "eq":
                c2 = radix_split(c2, ctx)
            else:
                d = radix_decide(c2, ctx)
                if d is not None:
                    c2 = TRUE if d else FALSE
            if c2 is not c:
                if c2 in (TRUE, FALSE):
                    r = c2
                else:
                    d = ctx.decide(c2)
                    r = TRUE if d is True else FALSE if d is False else c2
            else:
                r = c
        else:
            r = TRUE if d is True else FALSE if d is False else c
    memo[c] = r
    return r


def radices(t):
    """candidate radices: integer factors of products in t (syms and sums), sums first"""
    out, seen = {}, set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == "add":
            for y, _ in x.args[1]:
                go(y)
        elif x.op == "mul":
            for y, e in x.args:
                if e > 0 and y.sort == "I":
                    if y.op in ("add", "sym", "sel"):
                        out.setdefault(y, 0)
                    go(y)
    go(t)
    return list(out)


def by_radix(t, r):
    """t = r*X + Y (t, r integer polynomials)"""
    if r.op == "add":
        k, d = lin(r)
        s = None
        for x, co in d.items():
            if x.op in ("sym", "sel") and abs(co) == 1 and not any(x in subterms(y) for y in d if y is not x):
                s = (x, co)
                break
        if s is None:
            return None
        R = fresh("radix", "I")
        e = scale(add(R, -mklin(k, {y: w for y, w in d.items() if y is not s[0]})), 1 / Fraction(s[1]))
        t = replace(t, {s[0]: e})
    else:
        R = r
    t = expand(t)
    k0, d = lin(t)
    X, Y = [], [num(k0)]
    for m, k in d.items():
        q = divides(m, R)
        if q is not None:
            X.append(scale(q, k))
        else:
            Y.append(scale(m, k))
    X, Y = add(*X), add(*Y)
    if R is not r:
        X, Y = subst(X, {R: r}), subst(Y, {R: r})
        if X.op == "mul":
            X = expand(X)
    return X, Y


def nonlin(t):
    return t.op == "add" and any(m.op == "mul" for m, _ in t.args[1])


def radix_split(c, ctx, extra=()):
    """mixed-radix equality:  n*X + Y == 0 with |Y| < n  ->  X==0 and Y==0"""
    if c.op == "and":
        return AND(*[radix_split(x, ctx, extra) for x in c.args])
    if c.op != "eq":
        return c
    t = c.args[0]
    if t.sort != "I":
        return c
    key = ("rs", c)
    if key in ctx.cache[-1]:
        return ctx.cache[-1][key]
    r = radix_split1(t, ctx, extra)
    r = c if r is None else r
    ctx.cache[-1][key] = r
    return r


def cands(t, extra):
    l = [x for x in radices(t) if x.op == "add"]
    l += [x for x in extra if x not in l]
    for x in radices(t) + radices(expand(t)):
        if x not in l and x.op in ("sym", "sel"):
            l.append(x)
    return l


def radix_split1(t, ctx, extra=()):
    if not nonlin(t):
        te = expand(t)
        if not nonlin(te):
            return eq0(te) if te is not t else None
    cs = cands(t, extra)
    for rd in cs:
        xy = by_radix(t, rd)
        if xy is None:
            continue
        X, Y = xy
        if X is ZERO:
            continue
        if ctx.entails(AND(LT(Y, rd), LT(-rd, Y))):
            return AND(radix_split(eq0(X), ctx, cs), radix_split(eq0(Y), ctx, cs))
    return None


def radix_le(t, ctx, depth=0, extra=()):
    """True when t <= 0 follows by Horner-style digit bounds: r*X+Y with X <= -1 and Y <= r, or X <= 0 and Y <= 0"""
    if not nonlin(t):
        return ctx.entails(le0(t))
    if ctx.entails(le0(t)):
        return True
    if depth > 4:
        return False
    cs = cands(t, extra)
    for rd in cs:
        xy = by_radix(t, rd)
        if xy is None or xy[0] is ZERO:
            continue
        X, Y = xy
        if not ctx.entails(LE(ONE, rd)):
            continue
        if ctx.entails(LE(Y, rd)) and radix_le(add(X, ONE), ctx, depth + 1, cs):
            return True
        if ctx.entails(LE(Y, ZERO)) and radix_le(X, ctx, depth + 1, cs):
            return True
        if ctx.entails(LE(Y, -rd)) and radix_le(add(X, num(-1)), ctx, depth + 1, cs):
            return True
    return False


def radix_decide(c, ctx):
    if c.op not in ("le", "lt") or c.args[0].sort != "I":
        return None
    t = c.args[0]
    if not nonlin(t):
        return None
    key = ("rl", c)
    if key in ctx.cache[-1]:
        return ctx.cache[-1][key]
    r = None
    if radix_le(t if c.op == "le" else add(t, ONE), ctx):
        r = True
    elif radix_le(sub(ONE, t) if c.op == "le" else -t, ctx):
        r = False
    ctx.cache[-1][key] = r
    return r


def divides(m, f):
    """m / f if polynomially divisible (monomials)"""
    fm = {x: e for x, e in (f.args if f.op == "mul" else ((f, 1),))}
    mm = {x: e for x, e in (m.args if m.op == "mul" else ((m, 1),))}
    for x, e in fm.items():
        if mm.get(x, 0) < e:
            return None
        mm[x] -= e
    return mul(*[power(x, e) for x, e in mm.items() if e])


_pm = {}


def pmap(t):
    """polynomial as {monomial: coefficient}; a monomial is a sorted tuple of (atom id, exponent)"""
    r = _pm.get(t)
    if r is not None:
        return r
    if t.op == "num":
        r = {(): t.args[0]} if t.args[0] else {}
    elif t.op == "add":
        c, its = t.args
        r = {(): Fraction(c)} if c else {}
        for x, k in its:
            for m, w in pmap(x).items():
                v = r.get(m, 0) + k * w
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
    elif t.op == "mul" and all(e > 0 for _, e in t.args):
        r = {(): Fraction(1)}
        for x, e in t.args:
            px = pmap(x)
            for _ in range(e):
                n = {}
                for m, w in r.items():
                    for m2, w2 in px.items():
                        d = dict(m)
                        for q, f in m2:
                            d[q] = d.get(q, 0) + f
                        mm = tuple(sorted(d.items()))
                        v = n.get(mm, 0) + w * w2
                        if v:
                            n[mm] = v
                        else:
                            n.pop(mm, None)
                if len(n) > 4000:
                    raise Unknown("expansion too large")
                r = n
    else:
        _at[t.id] = t
        r = {((t.id, 1),): Fraction(1)}
    _pm[t] = r
    return r


_at = {}


def expand(t):
    """distribute products over sums completely (integer polynomials)"""
    return add(*[scale(mul(*[power(_at[q], e) for q, e in m]), w) if m else num(w) for m, w in pmap(t).items()])


# ------------------------------------------------------------------ rational functions
class Leaf:
    def __init__(s, ts):
        s.atoms = []
        s.seen = {}
        for t in ts:
            s.scan(t)
        names = ["x%d" % i for i in range(len(s.atoms))] or ["x0"]
        s.R, *g = ring(names, QQ)
        s.gen = dict(zip(s.atoms, g))
        s.idx = {a: i for i, a in enumerate(s.atoms)}
        s.memo = {}
        s.budget = 400000

    def scan(s, t):
        if t in s.seen:
            return
        s.seen[t] = 1
        if t.op == "num":
            return
        if t.op in ("add", "mul"):
            for x in children(t):
                s.scan(x)
            return
        if t.op == "sqrt":
            s.scan(t.args[0])
        s.atoms.append(t)

    def frac(s, t):
        r = s.memo.get(t)
        if r is None:
            r = s.memo[t] = s._frac(t)
        return r

    def q(s, f):
        return QQ(f.numerator, f.denominator)

    def _frac(s, t):
        if t.op == "num":
            return (s.R.ground_new(s.q(t.args[0])), {})
        if t.op == "add":
            c, its = t.args
            fr = []
            for x, k in its:
                n, d = s.frac(x)
                fr.append((n * s.q(k), d))
            if c:
                fr.append((s.R.ground_new(s.q(c)), {}))
            L = {}
            for n, d in fr:
                for f, e in d.items():
                    if L.get(f, 0) < e:
                        L[f] = e
            tot = s.R.zero
            cof = {}
            for n, d in fr:
                key = tuple(sorted(((hash(f), e) for f, e in d.items())))
                m = cof.get(key)
                if m is None:
                    m = s.R.one
                    for f, e in L.items():
                        k = e - d.get(f, 0)
                        if k:
                            m = m * f ** k
                    cof[key] = m
                s.chk(n, m)
                tot = tot + n * m
            tot = s.red(tot)
            return (tot, L)
        if t.op == "mul":
            n, d = s.R.one, {}
            for x, e in t.args:
                a, b = s.frac(x)
                if e > 0:
                    for _ in range(e):
                        s.chk(n, a)
                        n = n * a
                    for f, k in b.items():
                        d[f] = d.get(f, 0) + k * e
                else:
                    if a == 0:
                        raise Unknown("division by zero term")
                    if not a.is_ground:
                        d[a] = d.get(a, 0) - e
                    else:
                        n = n * s.R.ground_new((1 / a.LC) ** (-e))
                    for f, k in b.items():
                        for _ in range(k * -e):
                            s.chk(n, f)
                            n = n * f
            # cancel identical factors
            for f in list(d):
                if n == 0:
                    d = {}
                    break
                while d.get(f, 0) > 0:
                    if n == f:
                        n = s.R.one
                        d[f] -= 1
                    else:
                        break
                if d.get(f) == 0:
                    del d[f]
            return (n, d)
        return (s.gen[t], {})

    def chk(s, a, b):
        s.budget -= len(a) * len(b)
        if s.budget < -4000000:
            raise Unknown("polynomial too large")

    def red(s, p):
        return p

    def zero(s, t):
        n, d = s.frac(t)
        if n == 0:
            return True
        # eliminate sqrt atoms, outermost (latest) first
        for a in reversed(s.atoms):
            if a.op != "sqrt":
                continue
            i = s.idx[a]
            if all(m[i] == 0 for m in n):
                continue
            an, ad = s.frac(a.args[0])
            den = s.R.one
            for f, e in ad.items():
                den = den * f ** e
            mx = max(m[i] for m in n)
            H = mx // 2
            parts = {}
            for m, c in n.items():
                k = m[i]
                mm = list(m)
                mm[i] = k % 2
                parts.setdefault(k // 2, {})[tuple(mm)] = c
            tot = s.R.zero
            for h, dd in parts.items():
                # distinct monomials may collide only across different h
                p = s.R.from_dict(dd) if hasattr(s.R, "from_dict") else s.R(dd)
                tot = tot + p * an ** h * den ** (H - h)
            n = tot
            if n == 0:
                return True
        return n == 0


def rename_shared(t):
    """change of variables: a shared sum A = c*x + r (x an atom found in no other shared sum) becomes a new variable, x := (A - r)/c"""
    if size(t) < 250:
        return t
    use, seen = {}, set()

    def walk(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == "mul":
            for y, e in x.args:
                if y.op == "add" and y.sort == "R":
                    use[y] = use.get(y, 0) + abs(e)
        for y in children(x):
            walk(y)
    walk(t)
    cand = sorted([a for a, n in use.items() if n >= 3 and size(a) > 12], key=lambda a: -use[a])[:12]

    def atoms(x, out):
        if x in out[1]:
            return
        out[1].add(x)
        if x.op in ("sel", "sym", "app"):
            out[0].add(x)
        for y in children(x):
            atoms(y, out)
    at = {}
    for a in cand:
        o = (set(), set())
        atoms(a, o)
        at[a] = o[0]
    m = {}
    for a in cand:
        c, d = lin(a)
        best = None
        for mono, k in d.items():
            for x, e in (mono.args if mono.op == "mul" else ((mono, 1),)):
                if e != 1 or x.op not in ("sel", "sym") or x.sort != "R" or x in m:
                    continue
                co = div(scale(mono, k), x)
                rest = mklin(c, {y: w for y, w in d.items() if y is not mono})
                o1, o2 = (set(), set()), (set(), set())
                atoms(rest, o1)
                atoms(co, o2)
                if x in o1[0] or x in o2[0] or any(x in at[b] for b in cand if b is not a and a not in subterms(b)):
                    continue
                if any(y.op == "add" for y in subterms(co)):
                    continue
                sc = size(co)
                if best is None or sc < best[0]:
                    best = (sc, x, co, rest)
        if best:
            A = fresh("shared", "R")
            m[best[1]] = (a, A, best[2], best[3])
    if not m:
        return t
    r = {a: A for x, (a, A, co, rest) in m.items()}
    for x, (a, A, co, rest) in m.items():
        r[x] = div(sub(A, rest), co)
    for _ in range(len(m) + 1):
        t = replace(t, r)
    return t


def linear_parts(t):
    """coefficients of t as a linear form in (some of) its array-read leaves; None when there is no such form"""
    if t.op not in ("add", "mul") or size(t) < 60:
        return None
    leaves, seen = {}, set()

    def scan(x):
        if x in seen:
            return
        seen.add(x)
        if x.op in ("add", "mul"):
            for y in children(x):
                scan(y)
        elif x.op == "sel" and x.sort == "R":
            leaves.setdefault(x.args[0], []).append(x)
    scan(t)
    allowed, best = (), None
    for base in sorted(leaves, key=lambda c: -len(leaves[c])):
        if len(leaves[base]) < 2:
            break
        r = linear_in(t, allowed + (base,))
        if r is not None:
            allowed += (base,)
            best = r
    return list(best.values()) if best is not None and len(best) > 1 else None


def linear_in(t, bases):
    memo = {}

    class No(Exception):
        pass

    def lf(x):
        r = memo.get(("l", x))
        if r is None:
            if x.op in ("add", "mul"):
                r = any([lf(y) for y in children(x)])
            else:
                r = x.op == "sel" and x.sort == "R" and x.args[0] in bases
            memo[("l", x)] = r
        return r

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if not lf(x):
            r = {None: x}
        elif x.op == "sel":
            r = {x: ONE}
        elif x.op == "add":
            c, its = x.args
            r = {}
            for y, k in its:
                for a, v in go(y).items():
                    r.setdefault(a, []).append(scale(v, k))
            if c:
                r.setdefault(None, []).append(num(c))
            r = {a: add(*v) for a, v in r.items()}
        else:
            w = [(y, e) for y, e in x.args if lf(y)]
            if len(w) != 1 or w[0][1] != 1:
                raise No
            o = mul(*[power(y, e) for y, e in x.args if y is not w[0][0]])
            r = {a: mul(o, v) for a, v in go(w[0][0]).items()}
        memo[x] = r
        return r
    try:
        return go(t)
    except No:
        return None


P61 = (1 << 61) - 1
_mv = {}


class NoMod(Exception):
    pass


def modval(t):
    """value of t modulo a 61-bit prime at a fixed pseudo-random point (atoms independent)"""
    r = _mv.get(t)
    if r is not None:
        return r
    o = t.op
    if o == "num":
        f = t.args[0]
        r = f.numerator * pow(f.denominator, P61 - 2, P61) % P61
    elif o == "add":
        c, its = t.args
        r = c.numerator * pow(c.denominator, P61 - 2, P61) % P61 if c else 0
        for x, k in its:
            w = k.numerator if k.denominator == 1 else k.numerator * pow(k.denominator, P61 - 2, P61)
            r += modval(x) * w
        r %= P61
    elif o == "mul":
        r = 1
        for x, e in t.args:
            v = modval(x)
            if e < 0:
                if v == 0:
                    raise NoMod
                v = pow(v, P61 - 2, P61)
                e = -e
            r = r * pow(v, e, P61) % P61
    elif o in ("sum", "ite", "sqrt"):
        raise NoMod
    else:
        r = random.Random("m%d" % t.id).randrange(1, P61)
    _mv[t] = r
    return r


def modular(t):
    """False: t is not identically zero in its atoms; True: probably zero; None: not applicable"""
    try:
        return modval(t) == 0
    except NoMod:
        return None


_fm = {}


def factor_match(t, ctx=None):
    """t = k1*M1 + k2*M2 with M1, M2 products whose factors agree pairwise up to constants"""
    c, d = lin(t)
    if c != 0 or len(d) != 2:
        return False
    (m1, k1), (m2, k2) = d.items()
    f1 = dict(m1.args) if m1.op == "mul" else {m1: 1}
    f2 = dict(m2.args) if m2.op == "mul" else {m2: 1}
    for x in list(f1):
        e = f2.get(x, 0)
        q = min(f1[x], e) if f1[x] > 0 and e > 0 else (max(f1[x], e) if f1[x] < 0 and e < 0 else 0)
        if q:
            f1[x] -= q
            f2[x] -= q
    f1 = {x: e for x, e in f1.items() if e}
    f2 = {x: e for x, e in f2.items() if e}
    if len(f1) != len(f2) or len(f1) < 2 or any(x.op != "add" for x in list(f1) + list(f2)):
        return False
    ratio = Fraction(k1) / Fraction(k2)
    left = dict(f2)
    for a, e in f1.items():
        for b in list(left):
            if left[b] != e:
                continue
            r = _fm.get((a, b))
            if r is None:
                r = _fm[(a, b)] = proportional(a, b)
            if r is not False:
                ratio *= r ** e
                del left[b]
                break
        else:
            return False
    return not left and ratio == -1


def proportional(a, b):
    """a = r*b identically, r a small rational constant; False when not"""
    try:
        va, vb = modval(a), modval(b)
    except NoMod:
        return False
    if vb == 0:
        return False
    q = va * pow(vb, P61 - 2, P61) % P61
    for den in range(1, 49):
        n = q * den % P61
        if n > P61 // 2:
            n -= P61
        if abs(n) < 1000:
            r = Fraction(n, den)
            z = sub(a, scale(b, r))
            if z is ZERO or Leaf([z]).zero(z):
                return r
            return False
    return False


def poly_zero(t, ctx=None):
    if t is ZERO:
        return True
    if t.op == "num":
        return False
    PST["polys"] += 1
    if factor_match(t, ctx):
        return True
    if modular(t) is False:
        return poly_zero_unified(t, ctx)
    t = rename_shared(t)
    if t is ZERO:
        return True
    parts = linear_parts(t)
    if parts is not None and all(c is ZERO or Leaf([c]).zero(c) for c in parts):
        return True
    L = Leaf([t])
    if L.zero(t):
        return True
    return poly_zero_unified(t, ctx, L)


def poly_zero_unified(t, ctx, L=None):
    L = L or Leaf([t])
    # unify atoms whose arguments are provably equal
    m = {}
    ats = [a for a in L.atoms if a.op in ("sqrt", "app", "sel", "floor", "nint", "trunc")]
    for i in range(len(ats)):
        for j in range(i):
            a, b = ats[i], ats[j]
            if a.op != b.op or a in m or b in m or a.sort != b.sort:
                continue
            if a.op in ("app", "sel"):
                if a.args[0] != b.args[0] or len(a.args) != len(b.args):
                    continue
                pa, pb = a.args[1:], b.args[1:]
            else:
                pa, pb = a.args, b.args
            ok = True
            for x, y in zip(pa, pb):
                if x is y:
                    continue
                if not isinstance(x, T) or not isinstance(y, T):
                    ok = False
                    break
                if a.op == "sel" or x.sort == "B":
                    if ctx is None or not ctx.entails(EQ(x, y)):
                        ok = False
                        break
                else:
                    d = sub(x, y)
                    if d.op == "num" or not poly_zero(d, ctx):
                        ok = False
                        break
            if ok:
                m[a] = b
    if m:
        t2 = replace(t, m)
        if t2 is ZERO:
            return True
        if t2 is not t:
            return poly_zero(t2, ctx)
    return False


def replace(t, m):
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        ch = children(x)
        if not ch:
            r = x
        else:
            n = [go(y) for y in ch]
            if all(a is b for a, b in zip(n, ch)):
                r = x
            elif x.op == "app":
                r = rebuild_app(x, n)
            elif x.op == "sel":
                r = rawsel(x.args[0], n)
            elif x.op == "sum":
                r = x
            else:
                r = rebuild(x, n)
        memo[x] = r
        return r
    return go(t)


# ------------------------------------------------------------------ equality prover
def atoms_of(t, out, seen, order):
    """undecided atomic conditions of ites, outside sums"""
    if t in seen:
        return
    seen.add(t)
    if t.op == "ite":
        c = t.args[0]
        for a in (c.args if c.op == "and" else (c,)):
            while a.op in ("not", "and"):
                a = a.args[0]
            if a not in out:
                out[a] = 0
                order.append(a)
            out[a] += 1
    if t.op == "sum":
        return
    for x in children(t):
        atoms_of(x, out, seen, order)


def solve_eq(c, t):
    """equality atom -> (symbol, term) usable for substitution"""
    k, d = lin(c.args[0])
    best = None
    for x, co in d.items():
        if x.op != "sym":
            continue
        if x.sort == "I" and abs(co) != 1:
            continue
        if any(x in free(y) for y in d if y is not x):
            continue
        e = scale(mklin(k, {y: w for y, w in d.items() if y is not x}), -1 / co)
        if x.sort == "I" and e.sort != "I":
            continue
        pr = 0 if x.args[0].startswith("J") else 1
        if best is None or pr < best[0]:
            best = (pr, x, e)
    return best


class Budget:
    def __init__(s, sec=120):
        s.t = time.time() + sec

    def check(s):
        if time.time() > s.t:
            raise Unknown("proof budget exhausted")


def prove_zero(t, ctx, budget=None, depth=0):
    """raises Failed(leaf) or Unknown; returns number of leaves"""
    budget = budget or Budget()
    budget.check()
    t = simp(t, ctx)
    if t is ZERO:
        PST["leaves"] += 1
        return 1
    if depth > 400:
        raise Unknown("split depth")
    atoms, order = {}, []
    atoms_of(t, atoms, set(), order)
    if atoms:
        a = max(order, key=lambda x: (atoms[x], -x.id))
        PST["splits"] += 1
        n = 0
        for pol in (True, False):
            h = a if pol else NOT(a)
            ctx.push(h)
            try:
                if not ctx.feasible():
                    continue
                t2 = t
                q = h if h.op == "eq" else eq0(h.args[0]) if h.op == "le" and ctx.entails(eq0(h.args[0])) else None
                if q is not None and q.op == "eq":
                    se = solve_eq(q, t)
                    if se:
                        t2 = subst(t, {se[1]: se[2]})
                n += prove_zero(t2, ctx, budget, depth + 1)
            finally:
                ctx.pop()
        return n
    # sums
    c, d = lin(t)
    groups = {}
    rest = {}
    for x, k in d.items():
        if x.op == "sum":
            groups.setdefault(x.args[1:4], []).append((x, k))
        elif contains_sum(x):
            rest[x] = k
        else:
            rest[x] = k
    if groups:
        n = 0
        # merge groups with provably equal bounds
        keys = list(groups)
        for i in range(len(keys)):
            for j in range(i):
                if keys[j] in groups and keys[i] in groups and all(p is q or ctx.entails(EQ(p, q)) for p, q in zip(keys[i], keys[j])):
                    groups[keys[j]] += groups.pop(keys[i])
        if depth < 380:
            forced = {}
            for key, xs in groups.items():
                for x, k in xs:
                    y = sum_delta(x.args[0], x.args[1], x.args[2], x.args[3], x.args[4], True)
                    if y is not x:
                        forced[x] = y
            if forced:
                return prove_zero(mklin(c, {x: k for x, k in d.items() if x not in forced}) + add(*[scale(y, d[x]) for x, y in forced.items()]), ctx, budget, depth + 1)
        for (lo, hi, st), xs in groups.items():
            bb = fresh("s", "I")
            body = add(*[scale(subst(x.args[4], {x.args[0]: bb}), k) for x, k in xs])
            ctx.push(AND(LE(lo, bb), LE(bb, hi)))
            try:
                if ctx.feasible():
                    n += prove_zero(body, ctx, budget, depth + 1)
            except Failed as f:
                f.definite = False
                raise
            finally:
                ctx.pop()
        r = mklin(c, rest)
        if r is not ZERO:
            try:
                n += prove_zero(r, ctx, budget, depth + 1)
            except Failed as f:
                f.definite = False
                raise
        return n
    PST["leaves"] += 1
    if poly_zero(t, ctx):
        return 1
    if contradictory(ctx):
        return 1
    for ent in (ctx.entails, ctx.entails_fresh):
        if pinched(t, ctx, ent):
            return 1
    if __import__("os").environ.get("DBGH"):
        print("FAILED LEAF", show(t, 400))
        for h in ctx.hyps: print("     H", show(h, 200))
    raise Failed("residual not zero", t, hyps=list(ctx.hyps))


def contradictory(ctx):
    """does a nonlinear integer hypothesis contradict the others (mixed-radix bounds)?"""
    for h in ctx.hyps:
        if h.op in ("le", "lt") and h.args[0].sort == "I" and nonlin(h.args[0]):
            t = h.args[0]
            if radix_le(sub(ONE, t) if h.op == "le" else -t, ctx):
                return True
        if h.op == "eq" and h.args[0].sort == "I" and nonlin(h.args[0]):
            t = expand(h.args[0])
            c = radix_split(eq0(t), ctx)
            if c is FALSE or (c is not h and ctx.entails(NOT(c))):
                return True
            if radix_le(add(t, ONE), ctx) or radix_le(sub(ONE, t), ctx):
                return True
    return False


TIES = (Fraction(0), Fraction(1, 2), Fraction(-1, 2), Fraction(1), Fraction(-1))


def pinched(t, ctx, ent):
    """is t zero once factors that vanish and equalities implied by the hypotheses are used?"""
    zs = {}
    for x in subterms(t):
        if x.op == "mul":
            for y, e in x.args:
                if e > 0 and y.op == "add" and y not in zs:
                    zs[y] = ent(EQ(y, ZERO))
    zs = {y: ZERO for y, ok in zs.items() if ok}
    t2 = t
    if zs:
        t2 = replace(t, zs)
        if t2 is ZERO or poly_zero(t2, ctx):
            return True
    piv = {}
    hs = [h.args[0] for h in ctx.hyps if h.op == "eq" and h.args[0].sort != "B"]
    hs += [h.args[0] for h in ctx.hyps if h.op == "le" and ent(eq0(h.args[0]))]
    sub_ = subterms(t2)
    for x in sub_:
        if x.op in ("floor", "nint", "trunc"):
            for dl in TIES:
                e = sub(x.args[0], add(x, num(dl)))
                if ent(EQ(e, ZERO)):
                    hs.append(e)
                    break
            else:
                for y in sorted((y for y in sub_ if y.op == "sym" and y.sort == "I"), key=lambda y: y.id)[:6]:
                    if ent(EQ(x, y)):
                        hs.append(sub(x, y))
                        break
    for ha in hs:
        ha = replace(ha, piv) if piv else ha
        k, d = lin(ha)
        best = None
        for x, co in d.items():
            if x.sort == "I" and abs(co) != 1:
                continue
            if any(y is not x and x in subterms(y) for y in d):
                continue
            if x.op in ("floor", "nint", "trunc", "sel", "app"):
                pr = 0 if x in sub_ else 2
            elif x.op == "sym":
                pr = 1
            else:
                continue
            if best is None or pr < best[0]:
                best = (pr, x, co)
        if best is None:
            continue
        x, co = best[1], best[2]
        e = scale(mklin(k, {y: w for y, w in d.items() if y is not x}), -1 / Fraction(co))
        piv = {a: replace(b, {x: e}) for a, b in piv.items()}
        piv[x] = e
    if piv:
        t2 = replace(t2, piv)
    if t2 is not t:
        t2 = simp(t2, ctx)
        if t2 is ZERO or poly_zero(t2, ctx):
            return True
    return False


def subterms(t):
    out = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo += children(x)
    return out


def contains_sum(t):
    if t.op == "sum":
        return True
    return any(contains_sum(x) for x in children(t))


# ------------------------------------------------------------------ numeric evaluation
class Env:
    """numeric interpretation; unknown symbols get deterministic pseudo-random values"""
    def __init__(s, seed=0, vals=None, arrays=None, apps=None, exact=False, scale=1):
        s.scale = mpmath.mpf(scale)
        s.vals = dict(vals or {})
        s.arrays = arrays or {}
        s.seed = seed
        s.memo = {}
        s.amemo = {}
        s.apps = apps or {}

    def num(s, x):
        return x

    def sym(s, t):
        n = t.args[0]
        if n in s.vals:
            v = s.vals[n]
            return v
        r = random.Random("%s|%s" % (s.seed, n))
        if t.sort == "I":
            v = r.randint(-4, 9)
        elif t.sort == "B":
            v = r.random() < .5
        else:
            v = mpmath.mpf(r.randint(-4000, 4000)) / 1000 * s.scale
        s.vals[n] = v
        return v

    def base(s, c, idx):
        k = (c.name, idx)
        if c.name in s.arrays:
            return s.arrays[c.name](*idx)
        if k not in s.amemo:
            r = random.Random("%s|%s" % (s.seed, k))
            s.amemo[k] = r.randint(0, 9) if c.sort == "I" else (r.random() < .5 if c.sort == "B" else mpmath.mpf(r.randint(-4000, 4000)) / 1000 * s.scale)
        return s.amemo[k]

    def ev(s, t):
        r = s.memo.get(t)
        if r is None:
            r = s._ev(t)
            s.memo[t] = r
        return r

    def _ev(s, t):
        o = t.op
        if o == "num":
            v = t.args[0]
            return int(v) if v.denominator == 1 else mpmath.mpf(v.numerator) / v.denominator
        if o == "sym":
            return s.sym(t)
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "add":
            c, its = t.args
            r = s._ev(num(c))
            for x, k in its:
                v = s.ev(x)
                r = r + (v if k == 1 else (int(k) * v if k.denominator == 1 else v * mpmath.mpf(k.numerator) / k.denominator))
            return r
        if o == "mul":
            r = 1
            for x, e in t.args:
                v = s.ev(x)
                if e > 0:
                    r = r * v ** e
                else:
                    r = mpmath.mpf(r) / v ** (-e)
            return r
        if o == "ite":
            return s.ev(t.args[1]) if s.ev(t.args[0]) else s.ev(t.args[2])
        if o == "le":
            return s.ev(t.args[0]) <= 0
        if o == "lt":
            return s.ev(t.args[0]) < 0
        if o == "eq":
            return s.ev(t.args[0]) == 0
        if o == "and":
            return all(s.ev(x) for x in t.args)
        if o == "not":
            return not s.ev(t.args[0])
        if o == "sqrt":
            return mpmath.sqrt(s.ev(t.args[0]))
        if o == "floor":
            return int(mpmath.floor(s.ev(t.args[0])))
        if o == "nint":
            v = s.ev(t.args[0])
            return int(mpmath.floor(v + 0.5)) if v >= 0 else -int(mpmath.floor(-v + 0.5))
        if o == "trunc":
            v = s.ev(t.args[0])
            return int(mpmath.floor(v)) if v >= 0 else -int(mpmath.floor(-v))
        if o == "idiv":
            a, b = s.ev(t.args[0]), s.ev(t.args[1])
            q = abs(a) // abs(b)
            return q if (a < 0) == (b < 0) else -q
        if o == "app":
            n = t.args[0]
            a = [s.ev(x) for x in t.args[1:]]
            if n in s.apps:
                return s.apps[n](*a)
            if n in ("exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "tanh", "sinh", "cosh", "gamma", "log10", "atan2"):
                return getattr(mpmath, n)(*a)
            if n == "pow":
                return mpmath.mpf(a[0]) ** a[1]
            k = (n, tuple(a))
            if k not in s.amemo:
                r = random.Random("%s|%s" % (s.seed, k))
                s.amemo[k] = r.randint(0, 9) if t.sort == "I" else (r.random() < .5 if t.sort == "B" else mpmath.mpf(r.randint(-4000, 4000)) / 1000)
            return s.amemo[k]
        if o == "sum":
            b, lo, hi, st, body = t.args
            l, h, q = s.ev(lo), s.ev(hi), s.ev(st)
            tot = 0
            saved = s.vals.get(b.args[0])
            memo = s.memo
            for v in range(l, h + 1, q):
                s.vals[b.args[0]] = v
                s.memo = {}
                tot = tot + s.ev(body)
            s.memo = memo
            if saved is None:
                s.vals.pop(b.args[0], None)
            else:
                s.vals[b.args[0]] = saved
            return tot
        if o == "sel":
            return s.read(t.args[0], tuple(s.ev(x) for x in t.args[1:]))
        raise Exception("eval " + o)

    def read(s, c, idx):
        add_ = 0
        while True:
            if c.kind == "base":
                return s.base(c, idx) + add_ if add_ != 0 else s.base(c, idx)
            if c.kind == "cite":
                c = c.prev if s.ev(c.cond) else c.alt
                continue
            if not c.binders:
                if s.ev(c.guard) and tuple(s.ev(x) for x in c.idx) == idx:
                    if c.mode == "set":
                        v = s.ev(c.val)
                        return v + add_ if add_ != 0 else v
                    add_ = add_ + s.ev(c.val)
            else:
                # enumerate binders
                hit = s.enum(c, idx, 0)
                if hit:
                    if c.mode == "set":
                        return hit[-1] + add_ if add_ != 0 else hit[-1]
                    for v in hit:
                        add_ = add_ + v
            c = c.prev

    def enum(s, c, idx, k):
        if k == len(c.binders):
            memo = s.memo
            s.memo = {}
            try:
                if s.ev(c.guard) and tuple(s.ev(x) for x in c.idx) == idx:
                    return [s.ev(c.val)]
                return []
            finally:
                s.memo = memo
        b, lo, hi, st = c.binders[k]
        memo = s.memo
        s.memo = {}
        l, h, q = s.ev(lo), s.ev(hi), s.ev(st)
        s.memo = memo
        out = []
        for v in range(l, h + 1, q):
            s.vals[b.args[0]] = v
            out += s.enum(c, idx, k + 1)
        s.vals.pop(b.args[0], None)
        return out
