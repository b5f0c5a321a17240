"""Symbolic executor over LLVM IR of the harness + library templates: all inputs, all iterations.

Scalars are mathematical integers/reals (term.py), memory is a set of objects (byte-offset cells for small objects, index -> value
functions for arrays), conditionals are merged at the immediate post-dominator, loops are unrolled when their exits are decided,
closed by a registered invariant, or summarised exactly (induction / accumulation / geometric cells, array writes under a binder)."""
import re, os, subprocess, hashlib, tempfile, math
from fractions import Fraction
import irparse
from irparse import Ty, PTR, CFG, successors
from term import *
import term as TM
from arith import Ctx
from sx import Unsupported
import prove

REPO = os.environ.get("PICSAR_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
HARN = os.path.join(os.path.dirname(HERE), "harness")
INC = ["-I" + os.path.join(REPO, "src/multi_physics/QED/src"), "-I" + HARN]
PI = sym("PI")
SINK = "<sink>"


def tmpdir():
    d = os.path.join(tempfile.gettempdir(), "dvir")
    os.makedirs(d, exist_ok=True)
    return d


def repo_key():
    h = hashlib.sha1()
    d = os.path.join(REPO, "src/multi_physics/QED/src")
    for n in sorted(os.listdir(d)):
        h.update(n.encode())
        h.update(open(os.path.join(d, n), "rb").read())
    for root, dirs, files in sorted(os.walk(HARN)):
        for n in sorted(files):
            h.update(open(os.path.join(root, n), "rb").read())
    return h.hexdigest()[:12]


_mods = {}


def module(src, flags=()):
    k = (src, tuple(flags))
    if k in _mods:
        return _mods[k]
    key = hashlib.sha1((repo_key() + repr(k)).encode()).hexdigest()[:12]
    out = os.path.join(tmpdir(), "%s-%s.ll" % (os.path.splitext(src)[0], key))
    if not os.path.exists(out):
        t = out + ".%d" % os.getpid()
        c = ["clang++", "-std=c++11", "-O0", "-S", "-emit-llvm", "-fno-discard-value-names", "-ffp-contract=off", "-Xclang", "-disable-llvm-passes",
             "-Xclang", "-disable-O0-optnone", "-DDV_SYMBOLIC", "-w", "-idirafter", os.path.join(HARN, "omp")] + INC + list(flags) + [os.path.join(HARN, src), "-o", t + ".0"]
        r = subprocess.run(c, capture_output=True, text=True)
        if r.returncode:
            raise Unsupported("harness does not compile: " + r.stderr[-600:])
        r = subprocess.run(["opt", "-S", "-passes=function(sroa)", t + ".0", "-o", t], capture_output=True, text=True)
        if r.returncode:
            raise Unsupported("opt: " + r.stderr[-300:])
        os.unlink(t + ".0")
        os.rename(t, out)
    m = irparse.Module(open(out).read())
    m.dem = demangle(list(m.fns) + list(m.decls))
    _mods[k] = m
    return m


def demangle(names):
    r = subprocess.run(["c++filt", "--no-params" if False else "-_"] if False else ["c++filt"], input="\n".join(n[1:].strip('"') for n in names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split("\n")))


# ------------------------------------------------------------------ values
class Obj:
    n = 0

    def __init__(s, name, kind, size, stride=None, length=None, heap=False, form=None, known=None):
        Obj.n += 1
        s.id, s.name, s.kind, s.size, s.stride, s.length, s.heap = Obj.n, name, kind, size, stride, length, heap
        s.form = form          # initial contents of an array: field -> Content
        s.fn = None
        s.init = known or {}   # initial cells of a small object

    def __repr__(s):
        return s.name


NULLO = Obj("null", "null", 0)


class Ptr:
    __slots__ = ("o", "off")

    def __init__(s, o, off):
        s.o, s.off = o, off

    def __repr__(s):
        return "&%s+%s" % (s.o.name, s.off)


class PIte:
    __slots__ = ("c", "a", "b")

    def __init__(s, c, a, b):
        s.c, s.a, s.b = c, a, b


class PInt:
    __slots__ = ("p",)

    def __init__(s, p):
        s.p = p


NULL = Ptr(NULLO, ZERO)
UNDEF = ("undef",)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.o is b.o and a.off is b.off
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, PIte) and isinstance(b, PIte):
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    return False


def vite(c, a, b):
    if same(a, b) or b is UNDEF:
        return a
    if a is UNDEF:
        return b
    if isinstance(a, T) and isinstance(b, T):
        if a.sort == "B" or b.sort == "B":
            a, b = asB(a), asB(b)
        return ite(c, a, b)
    if isinstance(a, list) and isinstance(b, list):
        return [vite(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
            return Ptr(a.o, ite(c, a.off, b.off))
        return PIte(c, a, b)
    if isinstance(a, Content) and isinstance(b, Content):
        return ccite(c, a, b)
    raise Unsupported("merge of %r and %r" % (a, b))


def asB(t):
    """i1 as a boolean term"""
    if t.sort == "B":
        return t
    if t.op == "num":
        return FALSE if t.args[0] == 0 else TRUE
    if t.op == "ite" and t.args[1] is ONE and t.args[2] is ZERO:
        return t.args[0]
    if t.op == "ite" and t.args[1] is ZERO and t.args[2] is ONE:
        return NOT(t.args[0])
    return NE(t, ZERO)


def asI(t):
    if t.sort == "B":
        return ite(t, ONE, ZERO)
    return t


_rat = {}


def literal(v):
    """decimal literal -> exact simple rational that rounds to this double (pi kept symbolic)"""
    if isinstance(v, Fraction):
        return num(v)
    if v in _rat:
        return _rat[v]
    if v != v or v in (float("inf"), float("-inf")):
        r = sym("INF") if v > 0 else scale(sym("INF"), Fraction(-1))
        _rat[v] = r
        return r
    f = None
    for m, t in ((1, PI), (2, scale(PI, Fraction(2))), (.5, scale(PI, HALF.args[0])), (4, scale(PI, Fraction(4)))):
        if v == m * math.pi:
            _rat[v] = t
            return t
        if v == -m * math.pi:
            _rat[v] = scale(t, Fraction(-1))
            return _rat[v]
    x = Fraction(v)
    for d in (1, 10, 100, 1000, 10 ** 4, 10 ** 6):
        c = x.limit_denominator(d)
        if float(c) == v:
            f = c
            break
    if f is None:
        c = Fraction(repr(v))
        f = c if float(c) == v else x
    _rat[v] = num(f)
    return _rat[v]


# ------------------------------------------------------------------ normalisation of real expressions
def rnorm(t):
    """cancel common factors of a rational expression (exact), keeping non-arithmetic subterms opaque"""
    import sympy
    if t.op == "num" or t.op == "sym":
        return t
    ats, back = {}, {}

    def tr(x):
        o = x.op
        if o == "num":
            return sympy.Rational(x.args[0].numerator, x.args[0].denominator)
        if o == "add":
            r = sympy.Rational(x.args[0].numerator, x.args[0].denominator)
            for y, k in x.args[1]:
                r += sympy.Rational(k.numerator, k.denominator) * tr(y)
            return r
        if o == "mul":
            r = sympy.Integer(1)
            for y, e in x.args:
                r *= tr(y) ** int(e)
            return r
        if x not in ats:
            ats[x] = sympy.Symbol("a%d" % len(ats))
            back[ats[x]] = x
        return ats[x]
    if size(t) > 300:
        return t
    e = sympy.cancel(sympy.together(tr(t)))
    n, d = sympy.fraction(e)

    def poly(p):
        p = sympy.expand(p)
        r = ZERO
        for m in sympy.Add.make_args(p):
            c, fs = m.as_coeff_mul()
            y = num(Fraction(int(c.p), int(c.q)))
            for f in fs:
                b, ex = f.as_base_exp()
                y = mul(y, power(back[b], int(ex)))
            r = add(r, y)
        return r
    d = sympy.factor_list(d)
    dd = num(Fraction(int(sympy.Rational(d[0]).p), int(sympy.Rational(d[0]).q)))
    den = dd
    for f, ex in d[1]:
        den = mul(den, power(poly(f), int(ex)))
    nn = poly(n)
    c, its = lin(nn)
    r = div(num(c), den)
    for y, k in its.items():
        r = add(r, div(scale(y, k), den))
    return r


POS = set()      # symbols known positive (contracts add to it)


def positive(t, strict=True):
    """syntactic positivity"""
    if t.op == "num":
        return t.args[0] > 0 if strict else t.args[0] >= 0
    if t.op == "sym":
        return t in POS or t.args[0].startswith("k_") or t is PI
    if t.op == "app":
        return t.args[0] in ("exp", "gamma", "cosh") or (t.args[0] == "pow" and positive(t.args[1]))
    if t.op == "sqrt":
        return positive(t.args[0], strict) if strict else True
    if t.op == "mul":
        return all((e % 2 == 0 and not strict) or positive(x, strict) for x, e in t.args)
    if t.op == "add":
        c, its = lin(t)
        if c < 0 or any(k < 0 for k in its.values()):
            return False
        if not all(positive(x, False) for x in its):
            return False
        return not strict or c > 0 or any(positive(x, True) for x in its)
    return False


def nsqrt(t):
    """square root with square factors of known sign taken out and quotients split (exact for non-negative arguments)"""
    t = lift(t)
    if t.op in ("num", "sym") or size(t) > 300:
        return sqrt(t)
    r = rnorm(t)
    c, its = lin(r)
    # as a single quotient
    den = ONE
    for x in its:
        if x.op == "mul":
            for y, e in x.args:
                if e < 0:
                    q = dict(den.args).get(y, 0) if den.op == "mul" else (1 if den is y else 0)
                    if -e > q:
                        den = mul(den, power(y, int(-e - q)))
    if den is not ONE and den.op not in ("mul",) and not positive(den):
        return sqrt(t)
    if den is ONE and r.op != "mul":
        n, k = content_of(r)
        if k == 1:
            return sqrt(r)
        return mul(sqrt(num(k)), nsqrt(n)) if sqrt(num(k)).op == "num" else sqrt(r)
    if den is not ONE:
        if not positive(den):
            return sqrt(t)
        n = rnorm(mul(r, den))
        return div(nsqrt(n), nsqrt(den))
    out, rest = ONE, ONE
    for x, e in r.args:
        if e % 2 == 0 and positive(x):
            out = mul(out, power(x, int(e // 2)))
        elif e % 2 == 1 and e > 1 and positive(x):
            out, rest = mul(out, power(x, int(e // 2))), mul(rest, x)
        else:
            rest = mul(rest, power(x, int(e)))
    return mul(out, sqrt(rest))


def content_of(r):
    return r, Fraction(1)


def tpow(a, b):
    """pow(a,b) normalised (a > 0 assumed, as the contracts' domains ensure)"""
    a, b = lift(a), lift(b)
    if b.op == "num" and b.args[0].denominator == 1 and abs(b.args[0]) <= 8:
        return power(a, int(b.args[0]))
    if b.op == "num" and b.args[0] == Fraction(1, 2):
        return nsqrt(a)
    if a is ONE:
        return ONE
    if a.op == "app" and a.args[0] == "pow":
        return tpow(a.args[1], rnorm(mul(a.args[2], b)))
    if a.op == "app" and a.args[0] == "exp":
        return texp(mul(a.args[1], b))
    if a.op == "mul" and any(x.op == "app" and x.args[0] in ("pow", "exp") for x, _ in a.args):
        return mul(*[tpow(x, mul(num(e), b)) for x, e in a.args])
    return app("pow", a, rnorm(b))


def texp(a):
    if a is ZERO:
        return ONE
    if a.op == "app" and a.args[0] == "log":
        return a.args[1]
    return app("exp", a)


def tlog(a):
    if a is ONE:
        return ZERO
    if a.op == "app" and a.args[0] == "exp":
        return a.args[1]
    return app("log", a)


MATH1 = {"exp": texp, "log": tlog, "sqrt": nsqrt, "tanh": lambda a: app("tanh", a), "tgamma": lambda a: app("gamma", a), "sin": lambda a: app("sin", a), "cos": lambda a: app("cos", a),
         "sinh": lambda a: app("sinh", a), "cosh": lambda a: app("cosh", a), "tan": lambda a: app("tan", a), "log10": lambda a: app("log10", a),
         "fabs": tabs, "floor": None, "ceil": None, "trunc": None, "log1p": lambda a: tlog(add(ONE, a)), "expm1": lambda a: sub(texp(a), ONE), "cbrt": lambda a: tpow(a, num(Fraction(1, 3)))}


class State:
    __slots__ = ("mem", "freed", "live", "tape", "rpos")

    def __init__(s):
        s.mem, s.freed, s.live = {}, {}, ()
        s.tape, s.rpos = (), 0          # ghost: blocks written to / next block read from the stream model

    def copy(s):
        n = State()
        n.mem, n.freed, n.live = dict(s.mem), dict(s.freed), s.live
        n.tape, n.rpos = s.tape, s.rpos
        return n


class Frame:
    def __init__(s, f, cfg, args):
        s.f, s.cfg, s.env, s.args = f, cfg, {}, args
        s.loop = None
        s.regions = {}


class LoopCtx:
    def __init__(s, header, body, outer):
        s.h, s.body, s.outer, s.leaves = header, body, outer, []
        s.path0 = 0


class Exec:
    def __init__(s, m, opts=None, stubs=None, invs=None):
        s.m, s.opts = m, opts or {}
        s.ctx = Ctx(timeout=4000)
        s.obl = []          # (name, ok, seconds, note)
        s.path = []
        s.thrown = []
        s.stubs, s.invs = dict(stubs or {}), invs or []
        s.binders = []      # enclosing summarised loops: (i, N)
        s.loopfacts = []
        s.inlined, s.nloops, s.notes = set(), 0, []
        s.globs = {}
        s.depth = 0
        s.probe = 0
        s.reads = {}        # array name -> index terms read
        s.pairfacts, s.unifacts = {}, {}
        s.cfgs = {}
        s.steps = 0
        s.frames = []
        s.calls = []

    # ---------------- helpers
    def newsym(s, name, sort):
        if s.binders:
            return rawsel(fresh_base("loop:" + name, sort), [b for b, _ in s.binders])
        return fresh("loop:" + name, sort)

    def assume(s, h):
        if h is not TRUE:
            s.ctx.assume(h)

    def oblige(s, name, c, note=""):
        """proof obligation at the current point; assumed afterwards"""
        if c is TRUE:
            s.obl.append((name, True, note))
            return
        ok = s.ctx.entails(c)
        if not ok and not s.probe:
            ok = s.ctx.entails_fresh(c) or s.nl(c) or s.by_cases(c)
        s.obl.append((name, ok, note or (show(c, 200) if not ok else "")))
        if ok:
            return
        if c is FALSE and s.ctx.feasible():
            return
        s.assume(c)

    def by_cases(s, c, depth=3):
        """does c follow in every case of the conditional values inside it?"""
        its = [t for t in prove.subterms(c) if t.op == "ite"]
        its = [t for t in its if not any(y.op == "ite" for y in prove.subterms(t.args[0]))]
        if not its or depth == 0:
            return False
        a = min(its, key=lambda t: t.id).args[0]
        for h, v in ((a, TRUE), (NOT(a), FALSE)):
            s.ctx.push(h)
            try:
                if not s.ctx.feasible():
                    continue
                d = rewrite(c, {a: v})
                q = h if h.op == "eq" else TM.eq0(h.args[0]) if h.op == "le" and s.ctx.entails(TM.eq0(h.args[0])) else None
                se = prove.solve_eq(q, d) if q is not None and q.op == "eq" else None
                if se:
                    d = subst(d, {se[1]: se[2]})
                d = prove.simpb(d, s.ctx, {})
                if not (d is TRUE or s.ctx.entails(d) or s.by_cases(d, depth - 1)):
                    return False
            finally:
                s.ctx.pop()
        return True

    def nl(s, c):
        try:
            prove.PST
            import contract
            return contract.nl_entails(s.ctx, c, 5000)
        except Exception:
            return False

    # ---------------- operands
    def val(s, v, ty, fr):
        k = v[0]
        if k == "reg":
            return fr.env[v[1]]
        if k == "int":
            if ty.k == "int" and ty.n == 1:
                return TRUE if v[1] else FALSE
            return num(v[1])
        if k == "fp":
            return literal(v[1])
        if k == "null":
            return NULL
        if k in ("undef", "poison"):
            return UNDEF
        if k == "zeroinitializer":
            return s.zero(ty)
        if k == "glob":
            return s.glob(v[1])
        if k == "agg":
            return [s.val(x, t, fr) for t, x in v[1]]
        if k == "gep":
            (pt, pv), ops = v[2][0], v[2][1:]
            return s.gep(v[1], s.val(pv, pt, fr), [(t, s.val(x, t, fr)) for t, x in ops])
        raise Unsupported("operand %r" % (v,))

    def zero(s, ty):
        ty = s.m.res(ty)
        if ty.k == "int":
            return FALSE if ty.n == 1 else ZERO
        if ty.k == "fp":
            return ZERO
        if ty.k == "ptr":
            return NULL
        if ty.k in ("arr", "vec"):
            return [s.zero(ty.el) for _ in range(ty.n)]
        if ty.k == "struct":
            return [s.zero(f) for f in ty.fields]
        raise Unsupported("zero of %r" % ty)

    def glob(s, n):
        p = s.globs.get(n)
        if p is not None:
            return p
        if n in s.m.fns or n in s.m.decls:
            o = Obj(n, "fn", 0)
            o.fn = n
            p = Ptr(o, ZERO)
        else:
            d = s.m.globals.get(n, "")
            o = Obj(n, "mem", 1 << 20)
            p = Ptr(o, ZERO)
            g = n[1:]
            if g.startswith("k_"):
                o.init = {0: (sym(g), 8)}
            else:
                mm = re.search(r"\b(constant|global) (.*)$", d)
                if mm:
                    try:
                        q = irparse.P(irparse.toks(re.sub(r", (align|comdat|section).*$", "", mm.group(2))))
                        ty = q.type()
                        if q.peek() is not None and ty.k != "opaque" and (mm.group(1) == "constant"):
                            cells = {}
                            s.flat(s.val(q.value(ty), ty, None), ty, 0, cells)
                            o.init = cells
                    except (SyntaxError, Unsupported, KeyError, IndexError):
                        pass
        s.globs[n] = p
        return p

    def flat(s, v, ty, off, cells):
        ty = s.m.res(ty)
        if ty.k in ("arr", "vec"):
            for i in range(ty.n):
                s.flat(v[i], ty.el, off + i * s.m.size(ty.el), cells)
        elif ty.k == "struct":
            _, offs = s.m.offsets(ty)
            for f, o, x in zip(ty.fields, offs, v):
                s.flat(x, f, off + o, cells)
        else:
            cells[off] = (v, s.m.size(ty))

    # ---------------- pointers
    def gep(s, bt, p, ops):
        if isinstance(p, PIte):
            return PIte(p.c, s.gep(bt, p.a, ops), s.gep(bt, p.b, ops))
        if not isinstance(p, Ptr):
            raise Unsupported("gep on %r" % (p,))
        off = p.off
        t = bt
        for q, (ty, i) in enumerate(ops):
            i = asI(i)
            if q == 0:
                off = add(off, scale(i, Fraction(s.m.size(bt))))
                continue
            t = s.m.res(t)
            if t.k == "struct":
                _, offs = s.m.offsets(t)
                n = int(i.args[0])
                off = add(off, num(offs[n]))
                t = t.fields[n]
            elif t.k in ("arr", "vec"):
                off = add(off, scale(i, Fraction(s.m.size(t.el))))
                t = t.el
            else:
                raise Unsupported("gep into %r" % t)
        return Ptr(p.o, off)

    def pnorm(s, p):
        while isinstance(p, PIte):
            d = s.ctx.decide(p.c)
            if d is True:
                p = p.a
            elif d is False:
                p = p.b
            else:
                break
        return p

    def peq(s, a, b):
        a, b = s.pnorm(a), s.pnorm(b)
        if isinstance(a, PIte):
            return ite(a.c, s.peq(a.a, b), s.peq(a.b, b))
        if isinstance(b, PIte):
            return ite(b.c, s.peq(a, b.a), s.peq(a, b.b))
        if a.o is b.o:
            return EQ(a.off, b.off)
        return FALSE

    # ---------------- memory
    def elem(s, o, off):
        """(index term, field) of a byte offset into an array"""
        st = Fraction(o.stride)
        c, its = lin(off)
        q = {}
        for t, k in its.items():
            if (k / st).denominator != 1:
                # an integer multiple hidden in a product or an ite
                raise Unsupported("offset %s in array %s of stride %s" % (show(off, 100), o.name, o.stride))
            q[t] = k / st
        f = c % st
        return mklin((c - f) / st, q), int(f)

    def content(s, st, o, f, sort="R"):
        c = st.mem.get((o, f))
        if c is None:
            c = (o.form or {}).get(f)
            if c is None:
                c = fresh_base("uninit:" + o.name, sort)
            st.mem[(o, f)] = c
        return c

    def check_live(s, st, o, what):
        fr = st.freed.get(o)
        if fr is not None and fr is not FALSE:
            s.oblige("no-use-after-free", NOT(fr), "%s of %s" % (what, o.name))

    def bounds(s, o, i, what):
        if o.length is None:
            return
        s.oblige("in-bounds", AND(LE(ZERO, i), LT(i, o.length)), "" if s.probe else "%s %s[%s]" % (what, o.name, show(i, 60)))

    def load(s, st, p, ty):
        ty = s.m.res(ty)
        if ty.k == "struct":
            _, offs = s.m.offsets(ty)
            return [s.load(st, s.padd(p, o), f) for f, o in zip(ty.fields, offs)]
        if ty.k in ("arr", "vec"):
            return [s.load(st, s.padd(p, i * s.m.size(ty.el)), ty.el) for i in range(ty.n)]
        p = s.pnorm(p)
        if isinstance(p, PIte):
            r = []
            for h, q in ((p.c, p.a), (NOT(p.c), p.b)):
                s.ctx.push(h)
                s.path.append(h)
                try:
                    r.append(s.load(st, q, ty) if s.ctx.feasible() else UNDEF)
                finally:
                    s.path.pop()
                    s.ctx.pop()
            return vite(p.c, r[0], r[1])
        if not isinstance(p, Ptr):
            raise Unsupported("load from %r" % (p,))
        o = p.o
        if o is NULLO:
            s.oblige("no-null-dereference", FALSE, "load")
            return UNDEF
        s.check_live(st, o, "read")
        sort = "R" if ty.k == "fp" else "I"
        if o.kind == "arr":
            i, f = s.elem(o, p.off)
            s.bounds(o, i, "read")
            c = s.content(st, o, f, sort)
            s.noteread(o, f, i)
            r = select(c, [i], s.ctx)
            if r.op == "sel" and r.args[0] is c and c.kind == "cite":
                r = s.selcite(c, i)
            if ty.k == "int" and ty.n == 1:
                r = asB(r)
            return r
        if p.off.op != "num":
            return s.loadvar(st, p, ty)
        off = int(p.off.args[0])
        sz = s.m.size(ty)
        if isinstance(o.size, int):
            if not (0 <= off and off + sz <= o.size):
                s.oblige("in-bounds", FALSE, "read %s+%d" % (o.name, off))
        e = st.mem.get((o, off)) or o.init.get(off)
        if e is None:
            v = s.uninit(o, off, ty)
            st.mem[(o, off)] = (v, sz)
            return v
        v, z = e
        if v is UNDEF:
            return v
        if z != sz:
            if isinstance(v, T) and v is ZERO:
                return s.zero(ty)
            if isinstance(v, T) and ty.k == "int" and v.sort in "IB" and sz < z:
                return v if v.op == "num" and 0 <= v.args[0] < 2 ** (8 * sz) else v
            raise Unsupported("partial read of %s+%d" % (o.name, off))
        if ty.k == "ptr" and isinstance(v, T) and v is ZERO:
            return NULL
        if ty.k == "ptr" and isinstance(v, PInt):
            return v.p
        if ty.k == "int" and isinstance(v, (Ptr, PIte)):
            return PInt(v)
        if ty.k == "int" and ty.n == 1 and isinstance(v, T):
            return asB(v)
        if ty.k == "int" and ty.n > 1 and isinstance(v, T):
            return asI(v)
        return v

    def selcite(s, c, i):
        d = s.ctx.decide(c.cond)
        if d is not None:
            return select(c.prev if d else c.alt, [i], s.ctx)
        return ite(c.cond, select(c.prev, [i], s.ctx), select(c.alt, [i], s.ctx))

    def loadvar(s, st, p, ty):
        """small object read at a symbolic position: case over its cells"""
        sz = s.m.size(ty)
        cells = dict((off, e) for off, e in p.o.init.items())
        cells.update({k[1]: e for k, e in st.mem.items() if k[0] is p.o and isinstance(k[1], int)})
        cand = [(off, e) for off, e in sorted(cells.items()) if e[1] == sz and s.ctx.sat(EQ(p.off, num(off))) != "unsat"]
        if not cand or len(cand) > 16:
            raise Unsupported("symbolic offset into " + p.o.name)
        s.oblige("in-bounds", OR(*[EQ(p.off, num(o)) for o, _ in cand]), "read %s" % p.o.name)
        r = cand[-1][1][0]
        for off, e in reversed(cand[:-1]):
            r = vite(EQ(p.off, num(off)), e[0], r)
        return r

    def storevar(s, st, p, v, ty, guard):
        """small object written at a symbolic position: conditional write of each possible cell"""
        o, sz = p.o, s.m.size(ty)
        if not isinstance(o.size, int) or o.size > 256:
            raise Unsupported("store at symbolic offset into " + o.name)
        c, its = lin(p.off)
        if any(k % sz for k in its.values()) or c.denominator != 1:
            raise Unsupported("store at symbolic offset into " + o.name)
        cand = [q for q in range(int(c) % sz, o.size - sz + 1, sz) if s.ctx.sat(EQ(p.off, num(q))) != "unsat"]
        s.oblige("in-bounds", OR(NOT(guard), *[EQ(p.off, num(q)) for q in cand]), "write %s" % o.name)
        for q in cand:
            h = EQ(p.off, num(q))
            s.ctx.push(h)
            try:
                s.store(st, Ptr(o, num(q)), v, ty, AND(guard, h))
            finally:
                s.ctx.pop()

    def uninit(s, o, off, ty):
        if ty.k == "ptr":
            return UNDEF
        t = s.newsym("uninit:%s+%d" % (o.name, off), "R" if ty.k == "fp" else "I")
        return asB(t) if ty.k == "int" and ty.n == 1 else t

    def padd(s, p, n):
        if isinstance(p, PIte):
            return PIte(p.c, s.padd(p.a, n), s.padd(p.b, n))
        return Ptr(p.o, add(p.off, num(n)))

    def noteread(s, o, f, i):
        nm = o.name
        if f == 0 and (nm in s.pairfacts or nm in s.unifacts):
            L = s.reads.setdefault(nm, [])
            if i in L:
                # facts may have been popped with an enclosing scope: assume again
                pass
            for g in s.unifacts.get(nm, ()):
                s.assume(g(i))
            for g in s.pairfacts.get(nm, ()):
                for j in L:
                    if j is not i:
                        s.assume(g(i, j))
                        s.assume(g(j, i))
                        c = cbase(nm, "R")
                        s.assume(OR(NE(i, j), EQ(rawsel(c, [i]), rawsel(c, [j]))))
            if i not in L:
                L.append(i)

    def store(s, st, p, v, ty, guard=TRUE):
        ty = s.m.res(ty)
        if ty.k == "struct":
            _, offs = s.m.offsets(ty)
            for k, (f, o) in enumerate(zip(ty.fields, offs)):
                s.store(st, s.padd(p, o), v[k] if v is not UNDEF else UNDEF, f, guard)
            return
        if ty.k in ("arr", "vec"):
            for i in range(ty.n):
                s.store(st, s.padd(p, i * s.m.size(ty.el)), v[i] if v is not UNDEF else UNDEF, ty.el, guard)
            return
        p = s.pnorm(p)
        if isinstance(p, PIte):
            for h, q in ((p.c, p.a), (NOT(p.c), p.b)):
                s.ctx.push(h)
                s.path.append(h)
                try:
                    if s.ctx.feasible():
                        s.store(st, q, v, ty, AND(guard, h))
                finally:
                    s.path.pop()
                    s.ctx.pop()
            return
        if not isinstance(p, Ptr):
            raise Unsupported("store to %r" % (p,))
        o = p.o
        if o is NULLO:
            s.oblige("no-null-dereference", FALSE, "store")
            return
        s.check_live(st, o, "write")
        if o.kind == "arr":
            i, f = s.elem(o, p.off)
            s.bounds(o, i, "write")
            if v is UNDEF:
                v = s.newsym("uninit", "R" if ty.k == "fp" else "I")
            if not isinstance(v, T):
                raise Unsupported("pointer stored in array " + o.name)
            v = asI(v)
            c = s.content(st, o, f, "R" if ty.k == "fp" else "I")
            st.mem[(o, f)] = cwrite(c, [i], v, guard=guard)
            return
        if p.off.op != "num":
            return s.storevar(st, p, v, ty, guard)
        off = int(p.off.args[0])
        sz = s.m.size(ty)
        if isinstance(o.size, int) and not (0 <= off and off + sz <= o.size):
            s.oblige("in-bounds", FALSE, "write %s+%d" % (o.name, off))
        if isinstance(v, T):
            v = asI(v) if ty.k == "int" else v
        if guard is not TRUE:
            old = s.load(st, p, ty)
            v = vite(guard, v, old)
        for q in range(off - 7, off + sz):
            if q != off and (o, q) in st.mem and isinstance(q, int):
                e = st.mem[(o, q)]
                if q + e[1] > off:
                    del st.mem[(o, q)]
        st.mem[(o, off)] = (v, sz)

    def alloc(s, st, size, name, heap=True):
        size = asI(size)
        if s.probe or True:
            pass
        if size.op == "num":
            o = Obj("%s#%d" % (name, Obj.n), "mem", int(size.args[0]), heap=heap)
        else:
            # stride: the common factor of the requested byte count
            c, its = lin(size)
            g = 0
            for k in list(its.values()) + ([c] if c else []):
                g = math.gcd(g, abs(int(k)))
            if g == 1 and size.op == "mul":
                g = 1
            o = Obj("%s#%d" % (name, Obj.n), "arr", size, stride=g, length=rdiv(size, g), heap=heap)
            if g not in (1, 4, 8, 16, 24, 32, 40, 48):
                for w in (32, 24, 8, 4):
                    if g % w == 0:
                        o.stride, o.length = w, rdiv(size, w)
                        break
        if heap:
            st.freed[o] = FALSE
            st.live = st.live + (o,)
        return Ptr(o, ZERO)

    def free(s, st, p, guard=TRUE):
        p = s.pnorm(p)
        if isinstance(p, PIte):
            s.free(st, p.a, AND(guard, p.c))
            s.free(st, p.b, AND(guard, NOT(p.c)))
            return
        if p is UNDEF:
            s.oblige("frees-only-owned-memory", OR(NOT(guard), FALSE), "free of an uninitialised pointer")
            return
        o = p.o
        if o is NULLO:
            return
        if not o.heap:
            s.oblige("frees-only-owned-memory", NOT(guard), "free of " + o.name)
            return
        old = st.freed.get(o, FALSE)
        s.oblige("no-double-free", OR(NOT(guard), NOT(old)), "free of " + o.name)
        st.freed[o] = OR(old, guard)

    def memcpy(s, st, d, src, n):
        d, src = s.pnorm(d), s.pnorm(src)
        n = asI(n)
        if n is ZERO:
            return
        if isinstance(d, PIte) or isinstance(src, PIte):
            raise Unsupported("copy through an undetermined pointer")
        if n.op == "num" and d.o.kind == "mem" and src.o.kind == "mem" and d.off.op == "num" and src.off.op == "num":
            a, b, k = int(src.off.args[0]), int(d.off.args[0]), int(n.args[0])
            s.check_live(st, src.o, "read")
            s.check_live(st, d.o, "write")
            cells = dict(src.o.init)
            cells.update({q[1]: e for q, e in st.mem.items() if q[0] is src.o and isinstance(q[1], int)})
            for q in [q for q in st.mem if q[0] is d.o and isinstance(q[1], int) and b <= q[1] < b + k]:
                del st.mem[q]
            if isinstance(d.o.size, int) and b + k > d.o.size or isinstance(src.o.size, int) and a + k > src.o.size:
                s.oblige("in-bounds", FALSE, "copy")
            for off, e in cells.items():
                if a <= off < a + k:
                    st.mem[(d.o, b + off - a)] = e
            return
        if n.op == "num" and int(n.args[0]) <= 512 and int(n.args[0]) % 8 == 0 and (d.o.kind == "mem" or src.o.kind == "mem" or d.o.stride > 8 or src.o.stride > 8 or n.args[0] <= 64):
            D = Ty("fp", 64)
            I = Ty("int", 64)
            vs = []
            for q in range(0, int(n.args[0]), 8):
                t = D
                if src.o.kind == "mem" and src.off.op == "num":
                    e = st.mem.get((src.o, int(src.off.args[0]) + q)) or src.o.init.get(int(src.off.args[0]) + q)
                    if e is not None and isinstance(e[0], (Ptr, PIte)):
                        t = PTR
                    elif e is not None and isinstance(e[0], T) and e[0].sort == "I" and e[0].op != "num" and e[1] == 8:
                        t = I
                elif src.o.kind == "arr":
                    i, f = s.elem(src.o, add(src.off, num(q)))
                    c = st.mem.get((src.o, f)) or (src.o.form or {}).get(f)
                    if c is not None and c.sort == "I":
                        t = I
                vs.append((q, t, s.load(st, s.padd(src, q), t)))
            for q, t, v in vs:
                s.store(st, s.padd(d, q), v, t)
            return
        if d.o.kind == "arr" and src.o.kind == "arr" and d.o.stride == src.o.stride:
            i0, f0 = s.elem(d.o, d.off)
            j0, f1 = s.elem(src.o, src.off)
            cnt = rdiv(n, d.o.stride)
            if f0 or f1 or cnt is None:
                raise Unsupported("copy of array tails")
            s.check_live(st, src.o, "read")
            s.check_live(st, d.o, "write")
            ob = lambda o, b: s.oblige("in-bounds", OR(LE(cnt, ZERO), AND(LE(ZERO, b), LE(add(b, cnt), o.length))), "copy %s" % o.name)
            ob(d.o, i0)
            ob(src.o, j0)
            fs = {k[1] for k in st.mem if k[0] is src.o} | set(src.o.form or {}) or {0}
            for f in fs:
                sc = s.content(st, src.o, f)
                dc = s.content(st, d.o, f, sc.sort)
                b = fresh("b", "I")
                st.mem[(d.o, f)] = cwrite(dc, [add(i0, b)], select(sc, [add(j0, b)], s.ctx), binders=((b, ZERO, sub(cnt, ONE), ONE),))
            return
        if d.o.kind == "arr" and src.o.kind == "mem" and n.op != "num":
            raise Unsupported("variable-size copy from a fixed object")
        if d.o.kind == "mem" and n.op != "num":
            raise Unsupported("variable-size copy into a fixed object")
        raise Unsupported("copy %s <- %s, %s bytes" % (d, src, show(n, 60)))

    def memset(s, st, d, v, n):
        n = asI(n)
        if v is not ZERO:
            raise Unsupported("memset")
        d = s.pnorm(d)
        if n.op == "num" and d.o.kind == "mem":
            b, k = int(d.off.args[0]), int(n.args[0])
            for q in range(b, b + k):
                st.mem.pop((d.o, q), None)
            q = b
            while q < b + k:
                w = 8 if b + k - q >= 8 and q % 8 == 0 else 1
                st.mem[(d.o, q)] = (ZERO, w)
                q += w
            return
        if n.op == "num" and d.o.kind == "arr":
            for q in range(0, int(n.args[0]), 8):
                s.store(st, s.padd(d, q), ZERO, Ty("fp", 64))
            return
        i0, f0 = s.elem(d.o, d.off)
        cnt = rdiv(n, d.o.stride)
        s.oblige("in-bounds", OR(LE(cnt, ZERO), AND(LE(ZERO, i0), LE(add(i0, cnt), d.o.length))), "fill " + d.o.name)
        b = fresh("b", "I")
        for f in ({k[1] for k in st.mem if k[0] is d.o} | {0}):
            st.mem[(d.o, f)] = cwrite(s.content(st, d.o, f), [add(i0, b)], ZERO, binders=((b, ZERO, sub(cnt, ONE), ONE),))

    # ---------------- functions
    def cfg(s, f):
        if f.name not in s.cfgs:
            s.cfgs[f.name] = CFG(f)
        return s.cfgs[f.name]

    def call_fn(s, name, args, st):
        """returns (state, value) or None when no execution returns normally"""
        f = s.m.fn(name)
        if f is None:
            raise Unsupported("no body: " + s.m.dem.get(name, name))
        if s.depth > 60:
            raise Unsupported("recursion")
        cfg = s.cfg(f)
        fr = Frame(f, cfg, args)
        for (t, r, at), v in zip(f.params, args):
            if r:
                fr.env[r] = v
        if s.depth:
            s.inlined.add(s.m.dem.get(name, name).split("(")[0][-90:])
        s.depth += 1
        s.frames.append(fr)
        try:
            ip, ok = cfg.ipdom(cfg.nodes, SINK)
            fr.ip = (ip, ok)
            a = s.region(fr, cfg.entry, st, SINK)
        finally:
            s.depth -= 1
            s.frames.pop()
        if a is None:
            return None
        st, ph = a
        return st, ph.get("ret")

    # ---------------- control flow
    def phis(s, fr, frm, to):
        """phi values of block `to` on the edge from `frm`"""
        r = {}
        for ins in fr.f.blocks[to]:
            if ins.op != "phi":
                break
            for v, b in ins.a[1]:
                if b == frm:
                    r[ins.res] = s.val(v, s.m.res(ins.a[0]), fr)
                    break
        return r

    def edge(s, fr, frm, to, st):
        """follow an edge: ('go', block) | ('arr', arrival) | None when dead / left the loop"""
        L = fr.loop
        if to not in fr.cfg.live:
            s.thrown.append(AND(*s.path))
            return None
        if L is not None:
            if to == L.h:
                return ("arr", (st, s.phis(fr, frm, to)))
            if to not in L.body:
                L.leaves.append((AND(*s.path[L.path0:]), st, to, s.phis(fr, frm, to), list(s.ctx.hyps[L.hyp0:])))
                return None
        return ("go", to)

    def region(s, fr, cur, st, stop, ph=None):
        """execute from block cur (phis ph) to `stop`; returns arrival (state, phi values) or None"""
        ip, ok = fr.ip
        while True:
            if cur == stop:
                return st, (ph or {})
            if ph:
                fr.env.update(ph)
                ph = None
            if cur in fr.cfg.loops and not (fr.loop is not None and fr.loop.h == cur and fr.loop.started):
                a = s.loop(fr, cur, st, stop)
                if a is None:
                    return None
                if a[0] == "arr":
                    return a[1]
                _, cur, st, ph = a
                continue
            if fr.loop is not None and fr.loop.h == cur:
                fr.loop.started = True
                # mark header consumed: nested regions reaching it again is the latch
            blk = fr.f.blocks[cur]
            dead = False
            for ins in blk[:-1]:
                if ins.op == "phi":
                    continue
                s.steps += 1
                if s.steps > 400000:
                    raise Unsupported("too many steps")
                if ins.op == "call":
                    r = s.call(fr, ins, st)
                    if r is None:
                        s.thrown.append(AND(*s.path))
                        dead = True
                        break
                    st = r
                else:
                    s.step(fr, ins, st)
            if dead:
                return None
            t = blk[-1]
            if t.op == "ret":
                v = s.val(t.a[1], s.m.res(t.a[0]), fr) if t.a[1] is not None else None
                if fr.loop is not None:
                    L = fr.loop
                    L.leaves.append((AND(*s.path[L.path0:]), st, "<ret>", {"ret": v}, list(s.ctx.hyps[L.hyp0:])))
                    return None
                return st, {"ret": v}
            if t.op == "unreachable" or t.op == "resume":
                s.thrown.append(AND(*s.path))
                return None
            if t.op == "invoke":
                r = s.call(fr, t, st)
                if r is None:
                    s.thrown.append(AND(*s.path))
                    return None
                st = r
                e = s.edge(fr, cur, t.a[3], st)
            elif t.op == "br" and t.a[2] is None:
                e = s.edge(fr, cur, t.a[1], st)
            elif t.op == "br":
                c = asB(s.val(t.a[0], Ty("int", 1), fr))
                d = s.ctx.decide(c)
                if d is not None:
                    e = s.edge(fr, cur, t.a[1] if d else t.a[2], st)
                else:
                    r = s.fork(fr, cur, [(c, t.a[1]), (NOT(c), t.a[2])], st, stop)
                    if r is None:
                        return None
                    if r[0] == "arr":
                        return r[1]
                    _, cur, st, ph = r
                    continue
            elif t.op == "switch":
                v = s.val(t.a[0], Ty("int", 32), fr)
                alts, no = [], TRUE
                for cv, b in t.a[2]:
                    alts.append((EQ(v, num(cv[1])), b))
                    no = AND(no, NE(v, num(cv[1])))
                alts.append((no, t.a[1]))
                hit = [b for c, b in alts if s.ctx.decide(c) is True]
                if hit:
                    e = s.edge(fr, cur, hit[0], st)
                else:
                    alts = [(c, b) for c, b in alts if s.ctx.decide(c) is not False]
                    r = s.fork(fr, cur, alts, st, stop)
                    if r is None:
                        return None
                    if r[0] == "arr":
                        return r[1]
                    _, cur, st, ph = r
                    continue
            else:
                raise Unsupported("terminator " + t.op)
            if e is None:
                return None
            if e[0] == "arr":
                return e[1]
            nxt = e[1]
            ph = s.phis(fr, cur, nxt)
            cur = nxt

    def scoped(s, c, go):
        """run go() under hypothesis c; facts learned are kept as implications (returned)"""
        s.ctx.push(c)
        s.path.append(c)
        n = len(s.ctx.hyps)
        env_hyps = []
        try:
            if not s.ctx.feasible():
                return None, []
            r = go()
            env_hyps = s.ctx.hyps[n:]
            return r, list(env_hyps)
        finally:
            s.path.pop()
            s.ctx.pop()

    def fork(s, fr, cur, alts, st, stop):
        """alternatives (condition, successor); merged at the immediate post-dominator"""
        ip, ok = fr.ip
        j = ip.get(cur, SINK)
        res = []
        for c, b in alts:
            def go(b=b):
                st2 = st.copy()
                e = s.edge(fr, cur, b, st2)
                if e is None:
                    return None
                if e[0] == "arr":
                    return e[1]
                ph = s.phis(fr, cur, b)
                if b == j:
                    return st2, ph
                return s.region(fr, b, st2, j, ph)
            r, hy = s.scoped(c, go)
            res.append((c, r, hy))
        live = [(c, r, hy) for c, r, hy in res if r is not None]
        if not live:
            return None
        dead = [c for c, r, hy in res if r is None]
        for c in dead:
            s.assume(NOT(c))
        if len(live) == 1:
            c, r, hy = live[0]
            s.assume(c)
            for h in hy:
                s.assume(h)
        else:
            for c, r, hy in live:
                for h in hy:
                    s.assume(OR(NOT(c), h))
        a = s.merge([(c, r) for c, r, _ in live])
        if j == SINK or j == stop:
            return ("arr", a)
        return ("go", j, a[0], a[1])

    def merge(s, live):
        (st, ph) = live[-1][1]
        for c, (st1, ph1) in reversed(live[:-1]):
            n = State()
            for k in set(st.mem) | set(st1.mem):
                x, y = st1.mem.get(k), st.mem.get(k)
                if x is None or y is None:
                    o = k[0]
                    if x is None and y is None:
                        continue
                    if o.kind == "mem":
                        z = y if x is None else x
                        base = o.init.get(k[1])
                        if base is not None:
                            x = x or base
                            y = y or base
                        else:
                            n.mem[k] = z
                            continue
                    else:
                        base = (o.form or {}).get(k[1])
                        if base is None:
                            n.mem[k] = y if x is None else x
                            continue
                        x = x or base
                        y = y or base
                if x is y:
                    n.mem[k] = x
                elif isinstance(x, Content):
                    n.mem[k] = ccite(c, x, y)
                else:
                    if x[1] != y[1]:
                        raise Unsupported("cells of different size at a merge")
                    n.mem[k] = (vite(c, x[0], y[0]), x[1])
            for o in set(st.freed) | set(st1.freed):
                a, b = st1.freed.get(o), st.freed.get(o)
                if a is None:
                    n.freed[o] = OR(c, b)          # not allocated on that side: nothing to free
                elif b is None:
                    n.freed[o] = OR(NOT(c), a)
                else:
                    n.freed[o] = a if a is b else OR(AND(c, a), AND(NOT(c), b))
            n.live = tuple(dict.fromkeys(st1.live + st.live))
            n.tape = s.merge_tape(c, st1.tape, st.tape)
            n.rpos = max(st.rpos, st1.rpos)
            for a, g in ((st, NOT(c)), (st1, c)):
                if not all(s.ctx.entails(OR(NOT(g), EQ(n.tape[q][0], ZERO))) for q in range(a.rpos, n.rpos)):
                    raise Unsupported("stream read on one path only")
            ph = {k: vite(c, ph1[k], ph[k]) if (k in ph1 and ph[k] is not None) else ph[k] for k in ph}
            st = n
        return st, ph

    def merge_tape(s, c, a, b):
        if a is b or a == b:
            return a
        out = []
        for q in range(max(len(a), len(b))):
            x, y = a[q] if q < len(a) else None, b[q] if q < len(b) else None
            if x is None:
                out.append((ite(c, ZERO, y[0]),) + y[1:])
            elif y is None:
                out.append((ite(c, x[0], ZERO),) + x[1:])
            elif x[1] != y[1] or (x[1] == "arr" and x[3] is not y[3]) or (x[1] == "cell" and x[3] != y[3]):
                raise Unsupported("stream blocks of different kinds on two paths")
            else:
                out.append((x[0] if x[0] is y[0] else ite(c, x[0], y[0]), x[1], x[2] if x[2] is y[2] else (ccite(c, x[2], y[2]) if x[1] == "arr" else vite(c, x[2], y[2])), x[3]))
        return tuple(out)

    def tape_write(s, st, p, n):
        """model of a stream write: the bytes are appended as one block"""
        p, n = s.pnorm(p), asI(n)
        if not isinstance(p, Ptr):
            if s.ctx.entails(EQ(n, ZERO)):
                return
            raise Unsupported("write through an undetermined pointer")
        if p.o is None or p.o.kind == "null":
            s.oblige("in-bounds", EQ(n, ZERO), "write from a null pointer")
            return
        s.check_live(st, p.o, "read")
        if p.o.kind == "mem":
            if n.op != "num" or p.off.op != "num":
                raise Unsupported("write of a variable part of a fixed object")
            a, k = int(p.off.args[0]), int(n.args[0])
            while k:
                e = st.mem.get((p.o, a)) or p.o.init.get(a)
                if e is None or e[1] > k:
                    raise Unsupported("write of undetermined bytes")
                st.tape += ((num(e[1]), "cell", e[0], e[1]),)
                a, k = a + e[1], k - e[1]
            return
        i0, f0 = s.elem(p.o, p.off)
        cnt = rdiv(n, p.o.stride)
        if f0 or cnt is None or p.o.stride != 8:
            raise Unsupported("write of array tails")
        s.oblige("in-bounds", OR(LE(cnt, ZERO), AND(LE(ZERO, i0), LE(add(i0, cnt), p.o.length))), "write %s" % p.o.name)
        b = fresh("b", "I")
        con = s.content(st, p.o, 0)
        snap = cwrite(cbase("tape!%d" % len(st.tape), con.sort), [b], select(con, [add(i0, b)], s.ctx), binders=((b, ZERO, sub(cnt, ONE), ONE),))
        st.tape += ((n, "arr", snap, con.sort),)

    def tape_read(s, st, p, n):
        """model of a stream read: the next block(s), of exactly that size, are delivered"""
        p, n = s.pnorm(p), asI(n)
        while st.rpos < len(st.tape) and s.ctx.entails(EQ(st.tape[st.rpos][0], ZERO)) and not s.ctx.entails(EQ(n, st.tape[st.rpos][0])):
            st.rpos += 1
        if s.ctx.entails(EQ(n, ZERO)) and not (st.rpos < len(st.tape) and s.ctx.entails(EQ(n, st.tape[st.rpos][0]))):
            return
        if st.rpos >= len(st.tape):
            raise Unsupported("read past the end of the stream")
        if not isinstance(p, Ptr):
            raise Unsupported("read through an undetermined pointer")
        if p.o.kind == "mem":
            if n.op != "num" or p.off.op != "num":
                raise Unsupported("read into a variable part of a fixed object")
            a, k = int(p.off.args[0]), int(n.args[0])
            while k:
                if st.rpos >= len(st.tape) or st.tape[st.rpos][1] != "cell" or st.tape[st.rpos][3] > k or not s.ctx.entails(EQ(st.tape[st.rpos][0], num(st.tape[st.rpos][3]))):
                    raise Unsupported("read does not match the block written")
                L, _, v, w = st.tape[st.rpos]
                for q in [q for q in st.mem if q[0] is p.o and isinstance(q[1], int) and a <= q[1] < a + w]:
                    del st.mem[q]
                st.mem[(p.o, a)] = (v, w)
                st.rpos += 1
                a, k = a + w, k - w
            return
        L, kind, con, srt = st.tape[st.rpos]
        if kind != "arr" or not s.ctx.entails(EQ(L, n)):
            raise Unsupported("read does not match the block written")
        s.check_live(st, p.o, "write")
        i0, f0 = s.elem(p.o, p.off)
        cnt = rdiv(n, p.o.stride)
        if f0 or cnt is None or p.o.stride != 8:
            raise Unsupported("read into array tails")
        s.oblige("in-bounds", OR(LE(cnt, ZERO), AND(LE(ZERO, i0), LE(add(i0, cnt), p.o.length))), "read %s" % p.o.name)
        b = fresh("b", "I")
        st.mem[(p.o, 0)] = cwrite(s.content(st, p.o, 0, srt), [add(i0, b)], select(con, [b], s.ctx), binders=((b, ZERO, sub(cnt, ONE), ONE),))
        st.rpos += 1

    # ---------------- loops
    def loop(s, fr, h, st, stop):
        body = fr.cfg.loops[h]
        s.nloops += 1
        sv = (len(s.obl), len(s.thrown), dict(fr.env), len(s.loopfacts), len(s.notes))
        inv = s.find_inv(fr, h)
        leaves = None
        why = ""
        if inv is not None:
            leaves = s.loop_inv(fr, h, body, st.copy(), inv)
        else:
            try:
                leaves = s.unroll(fr, h, body, st.copy())
            except NoUnroll as e:
                why = str(e)
            if leaves is None:
                del s.obl[sv[0]:], s.thrown[sv[1]:], s.loopfacts[sv[3]:]
                fr.env = dict(sv[2])
                leaves = s.summarise(fr, h, body, st.copy(), why)
        if not leaves:
            return None
        # continue at the exits
        groups = {}
        for c, st2, to, ph, hy in leaves:
            groups.setdefault(to, []).append((c, st2, ph, hy))
        if len(groups) == 1:
            (to, ls), = groups.items()
            a = s.merge([(c, (st2, ph)) for c, st2, ph, hy in ls])
            return s.resume_at(fr, to, a, stop)
        ip, ok = fr.ip
        # several exit blocks: join at the nearest common post-dominator
        def chain(b):
            r = [b]
            while b in ip:
                b = ip[b]
                r.append(b)
            return r
        if "<ret>" in groups:
            j = SINK
        else:
            cs = [chain(t) for t in groups]
            j = next((b for b in cs[0] if all(b in x for x in cs[1:])), SINK)
        res = []
        for to, ls in groups.items():
            c = OR(*[x[0] for x in ls])
            a = s.merge([(x[0], (x[1], x[2])) for x in ls])

            def go(to=to, a=a, ls=ls):
                for x in ls:
                    for hh in x[3]:
                        s.assume(hh if len(ls) == 1 else OR(NOT(x[0]), hh))
                if to == "<ret>" or to == j:
                    return a
                e = s.resume_at(fr, to, a, j)
                if e is None:
                    return None
                if e[0] == "arr":
                    return e[1]
                return s.region(fr, e[1], e[2], j, e[3])
            r, hy = s.scoped(c, go)
            res.append((c, r, hy))
        live = [x for x in res if x[1] is not None]
        if not live:
            return None
        for c, r, hy in res:
            if r is None:
                s.assume(NOT(c))
        for c, r, hy in live:
            for hh in hy:
                s.assume(hh if len(live) == 1 else OR(NOT(c), hh))
        a = s.merge([(c, r) for c, r, _ in live])
        if j == SINK or j == stop:
            return ("arr", a)
        return ("go", j, a[0], a[1])

    def resume_at(s, fr, to, a, stop):
        st, ph = a
        L = fr.loop
        if to == "<ret>":
            if L is not None:
                L.leaves.append((AND(*s.path[L.path0:]), st, "<ret>", ph, list(s.ctx.hyps[L.hyp0:])))
                return None
            return ("arr", (st, ph))
        if L is not None:
            if to == L.h:
                return ("arr", (st, ph))
            if to not in L.body:
                L.leaves.append((AND(*s.path[L.path0:]), st, to, ph, list(s.ctx.hyps[L.hyp0:])))
                return None
        if to not in fr.cfg.live:
            s.thrown.append(AND(*s.path))
            return None
        if to == stop:
            return ("arr", (st, ph))
        return ("go", to, st, ph)

    def iterate(s, fr, h, body, st, ph):
        """one pass through the loop body from its header: (latch arrival or None, leaves)"""
        L = LoopCtx(h, body, fr.loop)
        L.started = False
        L.path0 = len(s.path)
        L.hyp0 = len(s.ctx.hyps)
        old = fr.loop, fr.ip
        fr.loop = L
        if h not in fr.regions:
            fr.regions[h] = fr.cfg.ipdom([b for b in fr.cfg.nodes if b in body], SINK, header=h)
        fr.ip = fr.regions[h]
        L.started = True
        try:
            fr.env.update(ph)
            a = s.region(fr, h, st, SINK)
        finally:
            fr.loop, fr.ip = old
        return a, L.leaves

    def cur_phis(s, fr, h):
        return {ins.res: fr.env[ins.res] for ins in fr.f.blocks[h] if ins.op == "phi"}

    def unroll(s, fr, h, body, st):
        ph = s.cur_phis(fr, h)
        s.ctx.push()
        n0 = len(s.ctx.hyps)
        cap = s.opts.get("unroll", 40)
        try:
            for it in range(cap):
                s.probe += it == 0
                try:
                    a, leaves = s.iterate(fr, h, body, st, ph)
                finally:
                    s.probe -= it == 0
                if it == 0 and not (a is not None and leaves):
                    pass
                if leaves:
                    if a is not None:
                        raise NoUnroll("exit not decided at iteration %d" % it)
                    new = list(s.ctx.hyps[n0:])
                    return [(c, x, to, p, hy) for c, x, to, p, hy in leaves] if self_ok(s, new) else None
                if a is None:
                    return []
                st, ph = a
            raise NoUnroll("more than %d iterations" % cap)
        finally:
            keep = list(s.ctx.hyps[n0:])
            s.ctx.pop()
            s._keep = keep
            import sys as _s
            if _s.exc_info()[0] is None:
                for hh in keep:
                    s.assume(hh)

    def find_inv(s, fr, h):
        nm = s.m.dem.get(fr.f.name, fr.f.name)
        for pat, cells, f in s.invs:
            if pat in nm:
                ph = {re.sub(r"\.\d+$|\d+$", "", k[1:].replace(".addr", "")): k for k in s.cur_phis(fr, h)}
                ph.update({re.sub(r"(\.\d+)+$", "", k[1:]).replace(".addr", ""): k for k in s.cur_phis(fr, h)})
                if all(c in ph for c in cells):
                    return f, {c: ph[c] for c in cells}
        return None

    def loop_inv(s, fr, h, body, st, inv):
        f, names = inv
        ph0 = s.cur_phis(fr, h)
        env0 = dict(fr.env)
        mk = lambda ph, st: f(s, fr, {c: ph[r] for c, r in names.items()}, {c: ph0[r] for c, r in names.items()}, st)
        for nm, c in mk(ph0, st)[0]:
            s.oblige("loop-invariant:%s:entry" % nm, c)
        # arbitrary iteration
        cells = {}
        for r, v in ph0.items():
            cells[r] = s.havoc(v, r[1:])
        s.ctx.push()
        hy0 = len(s.ctx.hyps)
        try:
            facts, variant = mk(cells, st)
            for nm, c in facts:
                s.assume(c)
            base = dict(st.mem)
            st2 = st.copy()
            fr.env = dict(env0)
            a, leaves = s.iterate(fr, h, body, st2, cells)
            if a is not None:
                st3, ph = a
                for k, v in st3.mem.items():
                    if k in base and base[k] is not v and not (isinstance(v, tuple) and isinstance(base[k], tuple) and same(v[0], base[k][0])):
                        raise Unsupported("memory %s modified in a loop under invariant" % (k,))
                s.ctx.push()
                def close(ph, depth=0):
                    for v in ph.values() if depth < 6 else ():
                        t = v if isinstance(v, T) else v.off if isinstance(v, Ptr) else None
                        it = [x for x in prove.subterms(t) if x.op == "ite"] if t is not None else [v] if isinstance(v, PIte) else []
                        for x in it:
                            c = x.args[0] if isinstance(x, T) else x.c
                            if isinstance(x, T) and any(y.op == "ite" for y in prove.subterms(c)):
                                continue
                            for h in (c, NOT(c)):
                                s.ctx.push(h)
                                s.path.append(h)
                                try:
                                    if s.ctx.feasible():
                                        g = lambda t: s.decite(rewrite(t, {c: TRUE if h is c else FALSE}))
                                        close({k: g(w) if isinstance(w, T) else Ptr(w.o, g(w.off)) if isinstance(w, Ptr) else s.pnorm(w) for k, w in ph.items()}, depth + 1)
                                finally:
                                    s.path.pop()
                                    s.ctx.pop()
                            return
                    f2, v2 = mk(ph, st3)
                    for nm, c in f2:
                        s.oblige("loop-invariant:%s:preserved" % nm, c)
                    if variant is not None:
                        s.oblige("loop-terminates", AND(LE(ZERO, variant), LT(v2, variant)))
                close(ph)
                s.ctx.pop()
            out = []
            for c, x, to, p, hy in leaves:
                out.append((c, x, to, p, hy))
        finally:
            s.ctx.pop()
        for _, c in mk(cells, st)[0]:   # once more: the facts it cites about array elements hold from here on
            s.assume(c)
        if len(out) == 1:
            s.assume(out[0][0])
            for hh in out[0][4]:
                s.assume(hh)
        else:
            s.assume(OR(*[x[0] for x in out]))
            for x in out:
                for hh in x[4]:
                    s.assume(OR(NOT(x[0]), hh))
        fr.env.update(cells)
        return out

    def havoc(s, v, name):
        if isinstance(v, T):
            if v.sort == "B":
                return s.newsym(name, "B")
            return s.newsym(name, v.sort if v.op != "num" else ("I" if v.sort == "I" else "R"))
        if isinstance(v, Ptr):
            if v.o.kind == "arr":
                return Ptr(v.o, scale(s.newsym(name, "I"), Fraction(v.o.stride)))
            return Ptr(v.o, s.newsym(name, "I"))
        if v is UNDEF:
            return s.newsym(name, "R")
        raise Unsupported("loop cell of kind %r" % (v,))

    def summarise(s, fr, h, body, st, why):
        phity = {ins.res: s.m.res(ins.a[0]) for ins in fr.f.blocks[h] if ins.op == "phi"}
        ph0 = s.cur_phis(fr, h)
        env0 = dict(fr.env)
        nobl = len(s.obl)
        i = fresh("i", "I")
        # --- pass A: which memory does the body change?
        modc, moda = {}, set()
        reals = {r for r in ph0 if phity[r].k == "fp"}
        while True:
            cells, mcells = {}, {}
            st2 = st.copy()
            for r, v in ph0.items():
                cells[r] = s.cellsym(v, r[1:], phity[r])
            for k in modc:
                v = st.mem[k][0] if k in st.mem else k[0].init[k[1]][0]
                mcells[k] = s.cellsym(v, "m:%s+%s" % (k[0].name, k[1]), None, modc[k])
                st2.mem[k] = (mcells[k], (st.mem.get(k) or k[0].init.get(k[1]))[1])
            hv = {}
            for k in moda:
                hv[k] = fresh_base("loop:W", s.content(st2, k[0], k[1]).sort)
                st2.mem[k] = hv[k]
            start = dict(st2.mem)
            s.ctx.push()
            s.probe += 1
            seen = {n: list(L) for n, L in s.reads.items()}
            try:
                fr.env = dict(env0)
                a, leaves = s.iterate(fr, h, body, st2, cells)
            finally:
                s.probe -= 1
                s.reads = seen
                s.ctx.pop()
            del s.obl[nobl:]
            if a is None:
                raise Unsupported("loop body never repeats but its exit is undecided (%s)" % why)
            st3, ph1 = a
            ch = False
            for k, v in st3.mem.items():
                o = st.mem.get(k)
                if isinstance(v, Content):
                    b = start.get(k)
                    if b is None:
                        if k[0] in st.freed or k[0] in {q[0] for q in st.mem} or k[0].form is not None:
                            # array existing before the loop, first touched inside
                            pre = (k[0].form or {}).get(k[1])
                            if v is pre or v.kind == "base":
                                continue
                            s.content(st, k[0], k[1], v.sort)
                            moda.add(k)
                            ch = True
                        continue
                    if v is not b and k not in moda:
                        moda.add(k)
                        ch = True
                else:
                    b = start.get(k)
                    pre = st.mem.get(k) or k[0].init.get(k[1])
                    if pre is None:
                        if b is None and self_old(st, k[0]):
                            # uninitialised cell written in the body: a temporary of each iteration
                            st.mem[k] = (UNDEF, v[1])
                            modc[k] = v[0]
                            ch = True
                        continue
                    if (b is None or not same(b[0], v[0])) and k not in modc:
                        modc[k] = v[0]
                        ch = True
            if not ch:
                break
        for o, fz in st3.freed.items():
            if o in st.freed and fz is not st.freed[o]:
                raise Unsupported("memory released inside a loop")
        # --- classify cells
        allc = [("p", r, cells[r], ph0[r], ph1[r]) for r in ph0]
        for k in modc:
            o = (st.mem.get(k) or k[0].init.get(k[1]))[0]
            allc.append(("m", k, mcells[k], o, st3.mem[k][0]))
        cs = set()
        for _, _, x, _, _ in allc:
            cs |= symsof(x)
        Wn = {b.name for b in hv.values()}

        def inv_term(t):
            return not (symsof(t) & cs) and not any(b.name in Wn for b in troots(t))
        closed = {}   # symbol -> closed form in i
        rest = []
        for kind, key, x, x0, x1 in allc:
            xs = cellterm(x)
            if xs is None:
                rest.append((kind, key, x, x0, x1))
                continue
            if same(x, x1):
                closed[xs] = cellval(x0, x)
                continue
            t1 = cellval(x1, x)
            t0 = cellval(x0, x)
            if t1 is None or t0 is None:
                rest.append((kind, key, x, x0, x1))
                continue
            if xs.sort == "B" or t1.sort == "B":
                rest.append((kind, key, x, x0, x1))
                continue
            d = sub(t1, xs)
            if inv_term(d):
                closed[xs] = add(t0, mul(i, d))
                continue
            if t1.op in ("mul", "add", "num", "sym", "app", "sel", "ite"):
                q = rnorm(div(t1, xs)) if xs in free(t1) and size(t1) < 60 else None
                if q is not None and inv_term(q):
                    closed[xs] = mul(t0, tpow(q, i))
                    continue
            rest.append((kind, key, x, x0, x1))
        # --- trip count
        if len(leaves) != 1:
            raise Unsupported("loop with %d exits needs an invariant (%s in %s)" % (len(leaves), why, s.m.dem.get(fr.f.name, "")[:80]))
        sm = {}
        for xs, v in closed.items():
            sm[xs] = v
        exitc = subst(leaves[0][0], sm)
        if symsof(exitc) & (cs - set(closed)):
            raise Unsupported("exit condition depends on an unclassified cell")
        exitc = s.decite(exitc, LE(ZERO, i))
        N = s.trip(exitc, i)
        N = rsimp(N)
        if not s.ctx.entails(LE(ZERO, N)):
            N = tmax(ZERO, N)
        # --- temporaries and accumulations: evaluate the body on the closed forms
        accs = {}
        for kind, key, x, x0, x1 in rest:
            accs[cellterm(x) if cellterm(x) is not None else id(x)] = (kind, key, x, x0)
        st4 = st.copy()
        cells2 = {}
        for r in ph0:
            xs = cellterm(cells[r])
            cells2[r] = recell(cells[r], closed[xs]) if xs in closed else cells[r]
        for k in modc:
            xs = cellterm(mcells[k])
            z = (st.mem.get(k) or k[0].init.get(k[1]))[1]
            st4.mem[k] = (recell(mcells[k], closed[xs]) if xs in closed else mcells[k], z)
        for k in moda:
            st4.mem[k] = hv[k]
        s.ctx.push()
        s.binders.append((i, N))
        hy0 = len(s.ctx.hyps)
        try:
            s.assume(AND(LE(ZERO, i), LT(i, N)))
            hy1 = len(s.ctx.hyps)
            fr.env = dict(env0)
            a, lv = s.iterate(fr, h, body, st4, cells2)
            facts = list(s.ctx.hyps[hy1:])
        finally:
            s.binders.pop()
            s.ctx.pop()
        if a is None:
            raise Unsupported("loop body is never completed")
        if lv and not all(s.ctx_false(c, i, N) for c, *_ in lv):
            raise Unsupported("exit inside the trip count")
        st5, ph5 = a
        # temporaries: value does not depend on its own previous value
        final, tmp = {}, {}
        unres = {xs for xs in accs if isinstance(xs, T)}
        todo = dict(accs)
        while todo:
            ch = False
            for xs, (kind, key, x, x0) in list(todo.items()):
                x1 = ph5[key] if kind == "p" else st5.mem[key][0]
                if isinstance(x1, T) and tmp:
                    x1 = subst(x1, tmp)
                fr1 = symsof(x1)
                if isinstance(x1, T) and x1.sort == "R" and isinstance(xs, T):
                    d = sub(x1, xs)
                    if not (symsof(d) & unres) and not any(b.name in Wn for b in troots(d)):
                        final[(kind, key)] = add(x0, tsum(i, ZERO, sub(N, ONE), d))
                        if any(xs in symsof(ph5[r]) for r in ph5 if r != key) or any(xs in rootsyms(st5.mem[k]) for k in moda):
                            # the running value is used inside: partial sums
                            b = fresh("q", "I")
                            tmp[xs] = add(x0, tsum(b, ZERO, sub(i, ONE), subst(d, {i: b})))
                        del todo[xs]
                        ch = True
                        continue
                if isinstance(x1, T) and not (fr1 & unres) and not any(b.name in Wn for b in troots(x1)):
                    last = subst(x1, {i: sub(N, ONE)})
                    init = x0 if isinstance(x0, T) else None
                    final[(kind, key)] = last if init is None or s.ctx.entails(LE(ONE, N)) else vite(LE(ONE, N), last, init)
                    prev = subst(x1, {i: sub(i, ONE)})
                    tmp[xs] = prev if init is None else vite(EQ(i, ZERO), init, prev)
                    del todo[xs]
                    ch = True
                    continue
                if not isinstance(x1, T) and not (fr1 & unres) and (isinstance(x1, (Ptr, PIte)) or x1 is UNDEF):
                    final[(kind, key)] = UNDEF
                    del todo[xs]
                    ch = True
                    continue
            if not ch:
                raise Unsupported("loop-carried cell %s not summarised" % ([v[1] for v in todo.values()][0],))
        if tmp and not all(o[1] for o in s.obl[nobl:]):
            # once more with the values the carried cells have, for the obligations that depend on them
            o2, n2 = s.obl[nobl:], len(s.notes)
            del s.obl[nobl:]
            st6 = st.copy()
            full = dict(closed)
            full.update(tmp)
            cells3 = {}
            for r in ph0:
                xs = cellterm(cells[r])
                cells3[r] = recell(cells[r], full[xs]) if xs in full else cells[r]
            for k in modc:
                xs = cellterm(mcells[k])
                z = (st.mem.get(k) or k[0].init.get(k[1]))[1]
                st6.mem[k] = (recell(mcells[k], full[xs]) if xs in full else mcells[k], z)
            for k in moda:
                st6.mem[k] = hv[k]
            s.ctx.push()
            s.binders.append((i, N))
            try:
                s.assume(AND(LE(ZERO, i), LT(i, N)))
                fr.env = dict(env0)
                s.iterate(fr, h, body, st6, cells3)
            except Unsupported:
                s.obl[nobl:] = o2
            finally:
                s.binders.pop()
                s.ctx.pop()
        if tmp:
            need = set()
            for k in moda:
                need |= rootsyms(st5.mem[k]) & unres
            for hh in facts:
                need |= symsof(hh) & unres
            if need - set(tmp):
                raise Unsupported("loop-carried value used before it is defined")
        sub_t = lambda t: subst(t, tmp) if tmp else t
        # arrays
        out = st.copy()
        for k in set(st5.mem) - set(st.mem):
            if not self_old(st, k[0]):
                pass
        for k in moda:
            out.mem[k] = s.lift_writes(st5.mem[k], hv[k], out.mem[k] if k in out.mem else s.content(out, k[0], k[1]), i, N, sub_t)
        for k in modc:
            xs = cellterm(mcells[k])
            z = (st.mem.get(k) or k[0].init.get(k[1]))[1]
            v = recell(mcells[k], subst(closed[xs], {i: N})) if xs in closed else final[("m", k)]
            out.mem[k] = (v, z)
        phN = {}
        for r in ph0:
            xs = cellterm(cells[r])
            phN[r] = recell(cells[r], subst(closed[xs], {i: N})) if xs in closed else final[("p", r)]
        for hh in facts:
            if any(b.name in Wn for b in troots(hh)):
                continue
            if i in free(hh):
                s.loopfacts.append((i, N, sub_t(hh), tuple(s.binders)))
            else:
                s.assume(OR(LE(N, ZERO), hh))
        # allocations of the body must be released within it
        for o in st5.live:
            if o not in st.live and st5.freed.get(o) is not TRUE:
                s.notes.append("allocation in a loop not shown released: " + o.name)
        # exit: evaluate the header once more at i = N
        fr.env = dict(env0)
        np_ = len(s.obl)
        a, lv = s.iterate(fr, h, body, out, phN)
        if a is not None:
            raise Unsupported("loop exit not reached after the computed trip count")
        return lv

    def decite(s, t, h=TRUE):
        """resolve the conditionals of a term that the context decides (under h)"""
        s.ctx.push(h)
        try:
            for _ in range(40):
                its = [x for x in prove.subterms(t) if x.op == "ite" and not any(y.op == "ite" for y in prove.subterms(x.args[0]))]
                for x in its:
                    d = s.ctx.decide(x.args[0])
                    if d is not None:
                        t2 = rewrite(t, {x.args[0]: TRUE if d else FALSE})
                        if t2 is not t:
                            t = t2
                            break
                else:
                    return t
            return t
        finally:
            s.ctx.pop()

    def ctx_false(s, c, i, N):
        s.ctx.push(AND(LE(ZERO, i), LT(i, N)))
        try:
            return s.ctx.sat(c) == "unsat"
        finally:
            s.ctx.pop()

    def cellsym(s, v, name, ty, hint=None):
        if isinstance(v, T):
            srt = v.sort
            if ty is not None:
                srt = "R" if ty.k == "fp" else ("B" if ty.n == 1 else "I")
            elif hint is not None and isinstance(hint, T):
                srt = "R" if "R" in (hint.sort, v.sort) else hint.sort
            return fresh("cell:" + name, srt)
        if v is UNDEF:
            srt = "R" if ty is None or ty.k == "fp" else "I"
            if hint is not None and isinstance(hint, T):
                srt = hint.sort
            return fresh("cell:" + name, srt)
        if isinstance(v, Ptr):
            if v.o.kind == "arr":
                return Ptr(v.o, scale(fresh("cell:" + name, "I"), Fraction(v.o.stride)))
            return Ptr(v.o, fresh("cell:" + name, "I"))
        raise Unsupported("loop cell %r" % (v,))

    def trip(s, c, i):
        """number of iterations from the exit condition as a function of the counter"""
        if c.op == "not" and c.args[0].op in ("lt", "le"):
            x = c.args[0].args[0]
            strict = c.args[0].op == "lt"
        elif c.op in ("lt", "le"):
            # exit when x < 0 (<= 0)  <=>  continue when -x <= 0 (< 0)
            x = scale(c.args[0], Fraction(-1))
            strict = c.op == "le"
        elif c.op == "eq":
            x = c.args[0]
            k, r = coef(x, i)
            if k is None or k == 0:
                raise Unsupported("trip count from " + show(c, 100))
            n = scale(r, -1 / k)
            n = intdiv(n)
            s.oblige("loop-terminates", LE(ZERO, n), "exit test by equality")
            return n
        else:
            raise Unsupported("trip count from " + show(c, 100))
        k, r = coef(x, i)
        if k is None or k <= 0:
            raise Unsupported("trip count from " + show(c, 100))
        # continue while k*i + r < 0 (<= 0)
        n = scale(r, -1 / k)
        if strict:
            return n if n.sort == "I" else add(floor(scale(n, Fraction(-1))), ZERO) if False else (n if n.sort == "I" else scale(floor(scale(n, Fraction(-1))), Fraction(-1)))
        return add(floor(n), ONE) if n.sort != "I" else add(n, ONE)

    def unread(s, t, base, pre, merged, i, N, sub_t):
        """reads of an array changed by the loop, at places no earlier iteration has written: the content before the loop"""
        if not any(b is base for b in troots(t)):
            return t
        m = {}
        for x in prove.subterms(t):
            if x.op != "sel" or x.args[0] is not base:
                continue
            j = fresh("j", "I")
            ok = True
            for idx, _, g, bs, mode in merged:
                if mode != "set":
                    ok = False
                    break
                s.ctx.push(AND(LE(ZERO, j), LT(j, i), LT(i, N)))
                for b in bs:
                    s.ctx.assume(AND(LE(subst(b[1], {i: j}), b[0]), LE(b[0], subst(b[2], {i: j}))))
                ok = s.ctx.sat(EQ(subst(sub_t(idx[0]), {i: j}), x.args[1])) == "unsat"
                s.ctx.pop()
                if not ok:
                    break
            if ok:
                m[x] = select(pre, [x.args[1]], s.ctx)
        return rewrite(t, m) if m else t

    def disjoint(s, a, b, i, N, sub_t):
        """two writes of a loop body never meet in different iterations"""
        j = fresh("j", "I")
        ia, ib = sub_t(a[0][0]), subst(sub_t(b[0][0]), {i: j})
        ren = {x[0]: fresh("b", "I") for x in b[3]}
        ib = subst(ib, ren) if ren else ib
        s.ctx.push(AND(LE(ZERO, i), LT(i, N), LE(ZERO, j), LT(j, N)))
        try:
            for x in a[3]:
                s.ctx.assume(AND(LE(sub_t(x[1]), x[0]), LE(x[0], sub_t(x[2]))))
            for x in b[3]:
                y = ren[x[0]]
                s.ctx.assume(AND(LE(subst(subst(sub_t(x[1]), {i: j}), ren), y), LE(y, subst(subst(sub_t(x[2]), {i: j}), ren))))
            sr = stride(ia, i)
            for c, d in ((LT(i, j), sub(j, add(i, ONE))), (LT(j, i), sub(i, add(j, ONE)))):
                s.ctx.push(c)
                try:
                    if sr is not None and not isnum(sr[0]) and s.ctx.decide(LE(ZERO, sr[0])) is True:
                        s.ctx.assume(LE(ZERO, mul(d, sr[0])))       # rows do not overlap
                        s.ctx.assume(EQ(mul(d, sr[0]), add(*[mul(x, scale(sr[0], k)) for x, k in lin(d)[1].items()], scale(sr[0], lin(d)[0]))))
                    if s.ctx.sat(EQ(ia, ib)) != "unsat":
                        return False
                finally:
                    s.ctx.pop()
            return True
        finally:
            s.ctx.pop()

    def lift_writes(s, c, base, prev, i, N, sub_t):
        chain = []
        x = c
        while x is not base:
            if x.kind == "cite":
                # conditional write: c ? write : base
                a, b = x.prev, x.alt
                if a.kind == "write" and a.prev is b and not a.binders:
                    chain.append((a.idx, a.val, AND(a.guard, x.cond), a.binders, a.mode))
                    x = b
                    continue
                if b.kind == "write" and b.prev is a and not b.binders:
                    chain.append((b.idx, b.val, AND(b.guard, NOT(x.cond)), b.binders, b.mode))
                    x = a
                    continue
                if a.kind == "write" and b.kind == "write" and a.prev is b.prev and a.idx == b.idx and not a.binders and not b.binders and a.guard is TRUE and b.guard is TRUE:
                    chain.append((a.idx, ite(x.cond, a.val, b.val), TRUE, (), "set"))
                    x = a.prev
                    continue
                raise Unsupported("array written differently on two branches of a loop")
            if x.kind != "write":
                raise Unsupported("array replaced inside a loop")
            chain.append((x.idx, x.val, x.guard, x.binders, x.mode))
            x = x.prev
        chain.reverse()
        # successive writes to one place: the last wins
        merged = []
        for w in chain:
            if merged and merged[-1][0] == w[0] and w[2] is TRUE and w[4] == "set" and merged[-1][3] == w[3]:
                merged[-1] = w
            else:
                merged.append(w)
        if len(merged) > 1:
            # different writes must be disjoint between different iterations (within one iteration the order is kept)
            for p in range(len(merged)):
                for q in range(p):
                    if not s.disjoint(merged[p], merged[q], i, N, sub_t):
                        raise Unsupported("overlapping writes in a loop")
        pre = prev
        for idx, v, g, bs, mode in merged:
            idx, v, g = [sub_t(t) for t in idx], sub_t(v), sub_t(g)
            idx, v, g = [s.unread(t, base, pre, merged, i, N, sub_t) for t in idx], s.unread(v, base, pre, merged, i, N, sub_t), s.unread(g, base, pre, merged, i, N, sub_t)
            for t in (v, g) + tuple(idx):
                if any(b is base for b in troots(t)):
                    raise Unsupported("loop reads values it has written")
            if i not in free(idx[0]) and mode == "set":
                # same place every iteration: only the last one counts
                v, g = subst(v, {i: sub(N, ONE)}), AND(subst(g, {i: sub(N, ONE)}), LE(ONE, N))
                prev = cwrite(prev, idx, v, mode, bs, g)
                continue
            k, r = coef(idx[0], i)
            if not bs and (k is None or k == 0):
                sr = stride(idx[0], i)
                if sr is None or s.ctx.decide(LT(ZERO, sr[0])) is not True:
                    raise Unsupported("write position %s not injective" % show(idx[0], 60))
            if bs and mode == "set" and not s.disjoint((idx, v, g, bs, mode), (idx, v, g, bs, mode), i, N, lambda t: t):
                raise Unsupported("write position %s not injective" % show(idx[0], 60))
            prev = cwrite(prev, idx, v, mode, ((i, ZERO, sub(N, ONE), ONE),) + tuple(bs), g)
        return prev

    # ---------------- instructions
    def step(s, fr, ins, st):
        o, a, m = ins.op, ins.a, s.m
        E = fr.env
        if o in ("fadd", "fsub", "fmul", "fdiv", "fneg"):
            t = m.res(a[0])
            x = s.val(a[1], t, fr)
            if t.k == "vec":
                raise Unsupported("vector arithmetic")
            if x is UNDEF:
                raise Unsupported("undefined operand")
            if o == "fneg":
                E[ins.res] = scale(x, Fraction(-1))
                return
            y = s.val(a[2], t, fr)
            if y is UNDEF:
                raise Unsupported("undefined operand")
            if o == "fdiv":
                if y is ZERO:
                    raise Unsupported("division by literal zero")
                E[ins.res] = div(x, y)
            else:
                E[ins.res] = add(x, y) if o == "fadd" else sub(x, y) if o == "fsub" else mul(x, y)
            return
        if o in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            t = m.res(a[0])
            x, y = s.val(a[1], t, fr), s.val(a[2], t, fr)
            if isinstance(x, PInt) or isinstance(y, PInt):
                E[ins.res] = s.ptr_arith(o, x, y)
                return
            if x is UNDEF or y is UNDEF:
                raise Unsupported("undefined operand")
            if t.n == 1:
                x, y = asB(x), asB(y)
                if o == "and":
                    E[ins.res] = AND(x, y)
                elif o == "or":
                    E[ins.res] = OR(x, y)
                elif o == "xor":
                    E[ins.res] = OR(AND(x, NOT(y)), AND(NOT(x), y))
                else:
                    raise Unsupported(o + " on i1")
                return
            x, y = asI(x), asI(y)
            if o == "add":
                # unsigned wrap-around used as subtraction
                r = add(x, y) if not (y.op == "num" and y.args[0] >= 2 ** (t.n - 1)) else add(x, num(y.args[0] - 2 ** t.n))
            elif o == "sub":
                r = sub(x, y)
            elif o == "mul":
                r = mul(x, y)
            elif o in ("udiv", "sdiv"):
                r = s.idivt(x, y)
            elif o in ("urem", "srem"):
                r = sub(x, mul(y, s.idivt(x, y)))
            elif o == "shl" and y.op == "num":
                r = scale(x, Fraction(2 ** int(y.args[0])))
            elif o in ("lshr", "ashr") and y.op == "num":
                r = floor(scale(x, Fraction(1, 2 ** int(y.args[0]))))
            elif o == "and" and y.op == "num" and y.args[0] == 1 and x.op == "ite":
                r = x
            elif o == "and" and y.op == "num" and (int(y.args[0]) + 1) & int(y.args[0]) == 0 and y.args[0] > 0:
                q = int(y.args[0]) + 1
                r = sub(x, scale(floor(scale(x, Fraction(1, q))), Fraction(q)))
            else:
                raise Unsupported("%s" % ins)
            E[ins.res] = r
            return
        if o == "icmp":
            c, t, x, y = a
            t = m.res(t)
            x, y = s.val(x, t, fr), s.val(y, t, fr)
            if t.k == "ptr" or isinstance(x, PInt) or isinstance(y, PInt):
                x = x.p if isinstance(x, PInt) else x
                y = y.p if isinstance(y, PInt) else y
                if x is UNDEF or y is UNDEF:
                    raise Unsupported("comparison of an uninitialised pointer")
                if x is ZERO:
                    x = NULL
                if y is ZERO:
                    y = NULL
                e = s.peq(x, y)
                if c == "eq":
                    r = e
                elif c == "ne":
                    r = NOT(e)
                else:
                    x, y = s.pnorm(x), s.pnorm(y)
                    if isinstance(x, Ptr) and isinstance(y, Ptr) and x.o is y.o:
                        r = {"u": {"lt": LT, "le": LE, "gt": GT, "ge": GE}}["u"][c[1:]](x.off, y.off)
                    else:
                        raise Unsupported("pointer order")
                E[ins.res] = r
                return
            if x is UNDEF or y is UNDEF:
                raise Unsupported("undefined operand")
            if t.n == 1 and c in ("eq", "ne"):
                x, y = asB(x), asB(y)
                e = OR(AND(x, y), AND(NOT(x), NOT(y)))
                E[ins.res] = e if c == "eq" else NOT(e)
                return
            x, y = asI(x), asI(y)
            if c[0] == "u" and c not in ("une",):
                x, y = s.uns(x, t.n), s.uns(y, t.n)
            E[ins.res] = {"eq": EQ, "ne": NE, "lt": LT, "le": LE, "gt": GT, "ge": GE}[c if c in ("eq", "ne") else c[1:]](x, y)
            return
        if o == "fcmp":
            c, t, x, y = a
            x, y = s.val(x, t, fr), s.val(y, t, fr)
            if x is UNDEF or y is UNDEF:
                raise Unsupported("undefined operand")
            if c in ("ord", "true"):
                E[ins.res] = TRUE
            elif c in ("uno", "false"):
                E[ins.res] = FALSE
            else:
                E[ins.res] = {"eq": EQ, "ne": NE, "lt": LT, "le": LE, "gt": GT, "ge": GE}[c[1:]](x, y)
            return
        if o == "alloca":
            t, n = a
            sz = m.size(t)
            ob = Obj("%s" % ins.res[1:], "mem", sz)
            E[ins.res] = Ptr(ob, ZERO)
            st.mem[(ob, "alloca")] = (ONE, 0)
            return
        if o == "load":
            E[ins.res] = s.load(st, s.val(a[1], PTR, fr), a[0])
            return
        if o == "store":
            s.store(st, s.val(a[2], PTR, fr), s.val(a[1], m.res(a[0]), fr), a[0])
            return
        if o == "getelementptr":
            (pt, pv), ops = a[1][0], a[1][1:]
            p = s.val(pv, pt, fr)
            if p is UNDEF:
                E[ins.res] = UNDEF
                return
            E[ins.res] = s.gep(a[0], p, [(t, s.val(x, t, fr)) for t, x in ops])
            return
        if o in ("zext", "sext", "trunc", "fptoui", "fptosi", "uitofp", "sitofp", "fpext", "fptrunc", "ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"):
            t = m.res(a[0])
            x = s.val(a[1], t, fr)
            if o == "freeze" or x is UNDEF:
                E[ins.res] = x
                return
            t2 = m.res(a[2])
            if o == "ptrtoint":
                r = PInt(x)
            elif o == "inttoptr":
                r = x.p if isinstance(x, PInt) else x
            elif o == "trunc" and t2.n == 1:
                r = asB(x)
            elif o in ("zext", "uitofp") and t.n == 1:
                r = asI(x)
            elif o == "sext" and t.n == 1:
                r = scale(asI(x), Fraction(-1))
            elif o in ("fptoui", "fptosi"):
                r = self_toint(s, x)
            elif o == "zext" and isinstance(x, T):
                r = x
            elif o == "trunc" and x.op == "num":
                v = int(x.args[0]) % 2 ** t2.n
                r = num(v)
            elif o == "sext" and x.op == "num":
                v = int(x.args[0])
                r = num(v - 2 ** t.n if v >= 2 ** (t.n - 1) else v)
            else:
                r = x
            E[ins.res] = r
            return
        if o == "select":
            c = asB(s.val(a[0], Ty("int", 1), fr))
            d = s.ctx.decide(c)
            x, y = s.val(a[2], m.res(a[1]), fr), s.val(a[3], m.res(a[1]), fr)
            E[ins.res] = x if d is True else y if d is False else vite(c, x, y)
            return
        if o == "extractvalue":
            v = s.val(a[1], m.res(a[0]), fr)
            for k in a[2]:
                v = v[k]
            E[ins.res] = v
            return
        if o == "insertvalue":
            t = m.res(a[0])
            v = s.val(a[1], t, fr)
            if v is UNDEF:
                v = [UNDEF] * (len(t.fields) if t.k == "struct" else t.n)
            v = list(v)
            x = s.val(a[3], m.res(a[2]), fr)
            w = v
            for k in a[4][:-1]:
                w[k] = list(w[k])
                w = w[k]
            w[a[4][-1]] = x
            E[ins.res] = v
            return
        raise Unsupported("instruction " + ins.op)

    def uns(s, x, n):
        if x.op == "num":
            return num(int(x.args[0]) % 2 ** n) if x.args[0] < 0 else x
        if s.ctx.entails(LE(ZERO, x)):
            return x
        return ite(LT(x, ZERO), add(x, num(2 ** n)), x)

    def idivt(s, x, y):
        if y.op == "num" and y.args[0] > 0:
            q = scale(x, 1 / y.args[0])
            if q.sort == "I":
                return q
            if s.ctx.entails(LE(ZERO, x)):
                return floor(q)
        return idiv(x, y)

    def ptr_arith(s, o, x, y):
        if o == "sub" and isinstance(x, PInt) and isinstance(y, PInt):
            a, b = s.pnorm(x.p), s.pnorm(y.p)
            return s.pdiff(a, b)
        if o == "sub" and isinstance(x, PInt) and y is ZERO:
            return x
        raise Unsupported("pointer arithmetic " + o)

    def pdiff(s, a, b):
        if isinstance(a, PIte) or isinstance(b, PIte):
            x = a if isinstance(a, PIte) else b
            r = []
            for h, q in ((x.c, x.a), (NOT(x.c), x.b)):
                s.ctx.push(h)
                try:
                    r.append((s.pdiff(s.pnorm(q), s.pnorm(b)) if x is a else s.pdiff(a, s.pnorm(q))) if s.ctx.feasible() else None)
                finally:
                    s.ctx.pop()
            return r[1] if r[0] is None else r[0] if r[1] is None else ite(x.c, r[0], r[1])
        if a.o is b.o:
            return sub(a.off, b.off)
        raise Unsupported("difference of unrelated pointers")

    # ---------------- calls
    def call(s, fr, ins, st):
        rt, f, args, _ = ins.a
        if f[0] == "%":
            p = fr.env[f]
            p = s.pnorm(p)
            if not (isinstance(p, Ptr) and p.o.fn):
                raise Unsupported("indirect call")
            f = p.o.fn
        if f.startswith("@llvm."):
            return s.intrinsic(fr, ins, f, rt, args, st)
        vs = []
        for t, v, at in args:
            x = s.val(v, s.m.res(t), fr)
            if "byval" in at:
                ty = irparse.P(at["byval"]).type()
                ob = Obj("byval", "mem", s.m.size(ty))
                s.memcpy(st, Ptr(ob, ZERO), x, num(s.m.size(ty)))
                x = Ptr(ob, ZERO)
            vs.append(x)
        nm = f[1:].strip('"')
        d = s.m.dem.get(f, nm)
        r = s.builtin(fr, ins, nm, d, vs, st, args)
        if r is None:
            for pat, g in s.stubs.items():
                if re.search(pat, d):
                    r = g(s, fr, st, vs, d, ins)
                    break
        if r is None:
            if f not in s.m.fns:
                raise Unsupported("external function " + d[:120])
            q = s.call_fn(f, vs, st)
            if q is None:
                return None
            st, v = q
            r = ("val", v, st)
        if r[0] == "dead":
            return None
        if len(r) > 2:
            st = r[2]
        if ins.res:
            fr.env[ins.res] = r[1]
        return st

    def builtin(s, fr, ins, nm, d, a, st, args):
        b = nm[:-1] if nm.endswith("f") and nm[:-1] in MATH1 or nm in ("powf", "fmodf") else nm
        if b in MATH1 and nm not in s.m.fns:
            if b == "floor":
                return ("val", floor(rnorm(a[0])))
            if b == "ceil":
                return ("val", scale(floor(rnorm(scale(a[0], Fraction(-1)))), Fraction(-1)))
            if b == "trunc":
                return ("val", self_toint(s, a[0]))
            return ("val", MATH1[b](a[0]))
        if b == "pow":
            return ("val", tpow(a[0], a[1]))
        if b in ("fmax", "fmin"):
            return ("val", (tmax if b == "fmax" else tmin)(a[0], a[1]))
        if nm in ("_Znam", "_Znwm", "malloc"):
            return ("val", s.alloc(st, a[0], "new" if nm != "malloc" else "malloc"))
        if nm in ("_ZdaPv", "_ZdlPv", "free", "_ZdaPvm", "_ZdlPvm"):
            s.free(st, a[0])
            return ("val", None)
        if nm == "_ZNSo5writeEPKcl":
            s.tape_write(st, a[1], a[2])
            return ("val", a[0])
        if nm == "_ZNSi4readEPcl":
            s.tape_read(st, a[1], a[2])
            return ("val", a[0])
        q = re.match(r"std::basic_(ofstream|ifstream)<char, std::char_traits<char> ?>::(~?\w+)\(", d)
        if q and nm not in s.m.fns and q.group(2) in ("basic_ofstream", "basic_ifstream", "~basic_ofstream", "~basic_ifstream", "open", "close"):
            if q.group(2) == "open" and q.group(1) == "ofstream":
                st.tape = ()
            if q.group(2) in ("open", "basic_ifstream") and q.group(1) == "ifstream":
                st.rpos = 0
            return ("val", None)
        if nm in ("memcpy", "memmove"):
            s.memcpy(st, a[0], a[1], a[2])
            return ("val", a[0])
        if nm in ("__cxa_throw", "_ZSt9terminatev", "abort", "__cxa_rethrow", "__clang_call_terminate") or nm.startswith(("_ZSt17__throw", "_ZSt20__throw", "_ZSt16__throw", "_ZSt24__throw", "_ZSt28__throw", "_ZSt19__throw", "_ZSt21__throw", "_ZSt25__throw")):
            return ("dead",)
        if nm == "__cxa_allocate_exception":
            return ("val", Ptr(Obj("exception", "mem", 1 << 20), ZERO))
        if nm in ("__cxa_free_exception", "__cxa_guard_release", "__cxa_guard_abort"):
            return ("val", None)
        if "logic_error::logic_error" in d or "runtime_error::runtime_error" in d:
            return ("val", None)
        return None

    def intrinsic(s, fr, ins, f, rt, args, st):
        g = f[6:]
        V = lambda k: s.val(args[k][1], s.m.res(args[k][0]), fr)
        if g.startswith(("lifetime", "dbg", "assume", "invariant", "prefetch", "stacksave", "stackrestore", "experimental.noalias", "donothing")):
            return st
        if g.startswith(("memcpy", "memmove")):
            s.memcpy(st, V(0), V(1), V(2))
            return st
        if g.startswith("memset"):
            s.memset(st, V(0), V(1), V(2))
            return st
        if g.startswith("umul.with.overflow"):
            fr.env[ins.res] = [mul(asI(V(0)), asI(V(1))), FALSE]
            return st
        if g.startswith("uadd.with.overflow"):
            fr.env[ins.res] = [add(asI(V(0)), asI(V(1))), FALSE]
            return st
        if g.startswith("fabs"):
            r = tabs(V(0))
        elif g.startswith("fmuladd") or g.startswith("fma"):
            r = add(mul(V(0), V(1)), V(2))
        elif g.startswith("sqrt"):
            r = nsqrt(V(0))
        elif g.startswith("floor"):
            r = floor(rnorm(V(0)))
        elif g.startswith("exp."):
            r = texp(V(0))
        elif g.startswith("log."):
            r = tlog(V(0))
        elif g.startswith("pow."):
            r = tpow(V(0), V(1))
        elif g.startswith(("umax", "smax", "maxnum")):
            r = tmax(V(0), V(1))
        elif g.startswith(("umin", "smin", "minnum")):
            r = tmin(V(0), V(1))
        elif g.startswith("trap"):
            return None
        elif g.startswith("is.constant"):
            r = FALSE
        elif g.startswith("objectsize"):
            r = num(-1)
        else:
            raise Unsupported("intrinsic " + f)
        fr.env[ins.res] = r
        return st


def rewrite(t, m):
    """replace whole subterms"""
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            ch = children(x)
            if not ch or x.op == "sum":
                r = x
            elif x.op == "sel":
                new = [go(y) for y in ch]
                r = x if all(a is b for a, b in zip(new, ch)) else select(x.args[0], new)
            else:
                new = [go(y) for y in ch]
                if all(a is b for a, b in zip(new, ch)):
                    r = x
                elif x.op == "app":
                    r = rebuild_app(x, new)
                else:
                    r = rebuild(x, new)
            memo[x] = r
        return r
    return go(t)


class NoUnroll(Exception):
    pass


def self_ok(s, new):
    return True


def self_old(st, o):
    return o in st.freed or any(k[0] is o for k in st.mem) or o.form is not None or bool(o.init)


def self_toint(s, x):
    if x.sort == "I":
        return x
    if s.ctx.entails(LE(ZERO, x)):
        return floor(rnorm(x))
    return trunc(rnorm(x))


def rdiv(t, g):
    q = scale(t, Fraction(1, g))
    if q.sort != "I":
        raise Unsupported("size %s is not a multiple of %d" % (show(t, 60), g))
    return q


def intdiv(n):
    return n


def rsimp(t):
    return t


def coef(x, i):
    """x = k*i + r with r free of i"""
    c, its = lin(x)
    k = Fraction(0)
    r = {}
    for t, v in its.items():
        if t is i:
            k += v
        elif i in free(t):
            return None, None
        else:
            r[t] = v
    return k, mklin(c, r)


def symsof(v):
    if isinstance(v, T):
        return set(free(v))
    if isinstance(v, Ptr):
        return set(free(v.off))
    if isinstance(v, PIte):
        return set(free(v.c)) | symsof(v.a) | symsof(v.b)
    if isinstance(v, (list,)):
        return set().union(*[symsof(x) for x in v]) if v else set()
    return set()


def rootsyms(c):
    r = set()
    while c is not None and c.kind != "base":
        if c.kind == "cite":
            return r | set(free(c.cond)) | rootsyms(c.prev) | rootsyms(c.alt)
        for t in (c.val, c.guard) + tuple(c.idx):
            r |= set(free(t))
        c = c.prev
    return r


def cellterm(x):
    """the symbol standing for a loop cell"""
    if isinstance(x, T):
        return x
    if isinstance(x, Ptr):
        c, its = lin(x.off)
        if len(its) == 1:
            return next(iter(its))
    return None


def cellval(v, x):
    """value v expressed in the units of the cell x"""
    if isinstance(x, T):
        return v if isinstance(v, T) else None
    if isinstance(v, Ptr) and v.o is x.o:
        c, its = lin(x.off)
        k = next(iter(its.values()))
        return scale(v.off, 1 / k)
    return None


def recell(x, t):
    if isinstance(x, T):
        return t
    c, its = lin(x.off)
    return Ptr(x.o, scale(t, next(iter(its.values()))))
