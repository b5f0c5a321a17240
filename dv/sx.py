"""Symbolic executor for the Fortran AST: state merging, automatic (checked) loop summaries, call inlining."""
from fractions import Fraction
from term import *
import term as TM
from arith import Ctx
import ftn
from ftn import Unsupported, Decl, Unit


import re
INST = re.compile(r"[^#]*#(\d+)\.")


class View:
    """a (sub)array or scalar location.  dims: ('fix',t) | ('rng',lo,hi,start,stride)"""
    __slots__ = ("key", "ty", "dims", "tyname")

    def __init__(s, key, ty, dims=(), tyname=None):
        s.key, s.ty, s.dims, s.tyname = key, ty, tuple(dims), tyname

    def rank(s):
        return sum(1 for d in s.dims if d[0] == "rng")

    def at(s, idx):
        """full underlying index for subscripts idx"""
        out, k = [], 0
        for d in s.dims:
            if d[0] == "fix":
                out.append(d[1])
            else:
                i = idx[k]
                k += 1
                out.append(add(d[3], mul(sub(i, d[1]), d[4])) if d[3] is not d[1] or d[4] is not ONE else i)
        return tuple(out)

    def sub(s, subs):
        """subs: list of term or ('rng',lo,hi,stride) relative to own subscripts -> new View"""
        out, k = [], 0
        for d in s.dims:
            if d[0] == "fix":
                out.append(d)
                continue
            x = subs[k]
            k += 1
            und = lambda i: add(d[3], mul(sub(i, d[1]), d[4])) if d[3] is not d[1] or d[4] is not ONE else i
            if isinstance(x, T):
                out.append(("fix", und(x)))
            else:
                _, lo, hi, st = x
                lo = d[1] if lo is None else lo
                hi = d[2] if hi is None else hi
                if st is ONE:
                    n = None if hi is None else add(sub(hi, lo), ONE)
                else:
                    n = add(idiv(sub(hi, lo), st), ONE)
                out.append(("rng", ONE, n, und(lo), mul(d[4], st)))
        return View(s.key, s.ty, out, s.tyname)

    def full(s):
        return s

    def extents(s):
        return [None if d[2] is None else add(sub(d[2], d[1]), ONE) for d in s.dims if d[0] == "rng"]

    def rebase(s, los, his=None):
        out, k = [], 0
        for d in s.dims:
            if d[0] == "fix":
                out.append(d)
                continue
            lo = los[k]
            if his is not None and his[k] is not None:
                hi = his[k]
            else:
                hi = None if d[2] is None else add(lo, sub(d[2], d[1]))
            k += 1
            out.append(("rng", lo, hi, d[3], d[4]))
        return View(s.key, s.ty, out, s.tyname)


class Arr:
    """array-valued expression; fn(list of 0-based offsets)->term (or CV)"""
    def __init__(s, ty, ext, fn):
        s.ty, s.ext, s.fn = ty, ext, fn


class CV:
    """complex value"""
    def __init__(s, re, im):
        s.re, s.im = re, im


class Str(str):
    pass


def promote(a, b):
    o = {"B": 0, "I": 1, "R": 2, "C": 3}
    return a if o[a] >= o[b] else b


class State:
    __slots__ = ("store", "brk", "ptr", "bounds", "flags")

    def __init__(s):
        s.store, s.brk, s.ptr, s.bounds, s.flags = {}, {}, {}, {}, {}

    def copy(s):
        r = State()
        r.store, r.brk, r.ptr, r.bounds, r.flags = dict(s.store), dict(s.brk), dict(s.ptr), dict(s.bounds), dict(s.flags)
        return r


class Carried(Unsupported):
    """array `key` takes over values of an earlier iteration"""

    def __init__(s, key, *a):
        super().__init__(*a)
        s.key = key


class Pruner:
    """removes branches that the path conditions exclude from terms that mention values of an earlier loop iteration"""

    def __init__(s, ctx, cap=20000):
        s.ctx, s.cap, s.deps, s.havoc = ctx, cap, None, set()

    def under(s, c, t):
        if c is TRUE or not s.deps(t):
            return s.prune(t)
        s.ctx.push(c)
        try:
            return s.prune(t)
        finally:
            s.ctx.pop()

    def prune(s, t, memo=None):
        if memo is None:
            memo = {}
        if not s.deps(t):
            return t
        r = memo.get(t)
        if r is None:
            r = memo[t] = s.prune_(t, memo)
        return r

    def prune_(s, t, memo):
        if t.op == "ite":
            c, a, b = t.args
            s.cap -= 1
            if s.cap < 0:
                return t
            c = s.prune(c, memo)
            d = True if c is TRUE else False if c is FALSE else s.ctx.decide(c)
            if d is True:
                return s.prune(a, memo)
            if d is False:
                return s.prune(b, memo)
            return ite(c, s.under(c, a), s.under(NOT(c), b))
        if t.op == "sel":
            idx = [s.prune(x, memo) for x in t.args[1:]]
            x = select(t.args[0], idx, s.ctx)
            if x.op == "sel" and x.args[0].kind != "base":
                try:
                    x = TM.expand_sel(x, ctx=s.ctx)
                except TM.NotResolved:
                    return x
            return x if x is t else s.prune(x, memo)
        if t.op == "sum":
            return t
        if t.op == "app":
            return TM.rebuild_app(t, [s.prune(x, memo) for x in t.args[1:]])
        ch = TM.children(t)
        return TM.rebuild(t, [s.prune(x, memo) for x in ch]) if ch else t


class Frame:
    def __init__(s, unit, inst, host=None):
        s.unit, s.inst, s.vars, s.host = unit, inst, {}, host


TYMAP = {"integer": "I", "real": "R", "logical": "B", "complex": "C", "character": "S"}

IOIGN = True


class Program:
    """all units/modules of the current tree"""
    def __init__(s, files=None, defs=("FFTW=1",)):
        s.units, s.modules, s.src = {}, {}, {}
        s.defs = defs
        for f in files or ftn.list_sources():
            r = ftn.parse_file(f, defs)
            for n, u in r.units.items():
                if n not in s.units:
                    s.units[n] = u
            for n, m in r.modules.items():
                s.modules[n] = m

    def typefields(s, name):
        for m in s.modules.values():
            if name in m.types:
                return m.types[name]
        for u in s.units.values():
            if name in u.types:
                return u.types[name]
        raise Unsupported("type " + name)


def f32(x):
    """the value of a default-kind (single precision) real constant"""
    import numpy
    return Fraction(float(numpy.float32(float(x))))


def single(e):
    """constant expression built from default-kind literals only: the compiler evaluates it in single precision"""
    if e[0] == "num":
        return e[3] is None
    if e[0] == "par":
        return single(e[1])
    if e[0] == "un":
        return single(e[2])
    if e[0] == "bin":
        return single(e[2]) and single(e[3])
    return False


class Exec:
    def __init__(s, prog, ctx=None, stubs=None, consts=None, opts=None):
        s.p = prog
        s.ctx = ctx or Ctx()
        s.stubs = stubs or {}
        s.consts = consts or {}      # module variable -> term (assumed value)
        s.inst = 0
        s.opts = opts or {}
        s.depth = 0
        s.inlined = set()
        s.notes = []
        s.while_hooks = []
        s.nloops = 0
        s.obl = 0                     # independence obligations discharged
        s.oblog = []

    # ------------------------------------------------------------ names
    def lookup(s, name, fr, st):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                return v
            if name in f.unit.decls:
                s.declare(f.unit.decls[name], f, st)
                return f.vars[name]
            r = s.modlookup(name, f.unit, set())
            if r is not None:
                return s.modvar(r[0], r[1], st)
            f2 = f.host
            if f2 is None and f.unit.parent is not None:
                u = f.unit.parent
                if name in u.decls:
                    return s.modvar(u, u.decls[name], st)
                r = s.modlookup(name, u, set())
                if r is not None:
                    return s.modvar(r[0], r[1], st)
            f = f2
        return None

    def modlookup(s, name, unit, seen):
        for m, only in unit.uses:
            if only is not None:
                ok = None
                for o in only:
                    a = [x.strip() for x in o.split("=>")]
                    if a[0] == name:
                        ok = a[-1]
                if ok is None:
                    continue
                nm = ok
            else:
                nm = name
            mu = s.p.modules.get(m)
            if mu is None or (m, nm) in seen:
                continue
            seen.add((m, nm))
            if nm in mu.decls:
                return mu, mu.decls[nm]
            r = s.modlookup(nm, mu, seen)
            if r is not None:
                return r
        return None

    def modvar(s, mu, d, st):
        key = d.name if mu.kind == "module" else mu.name + "." + d.name
        if isinstance(d.ty, tuple):
            return s.mkview(key, d, Frame(mu, 0), st)
        if d.dims is None:
            if "parameter" in d.attrs and key not in s.consts and d.init is not None:
                fr = Frame(mu, 0)
                ty, v = s.eval(d.init, fr, st)
                st.store.setdefault(key, v)
                return View(key, TYMAP[d.ty])
            if key not in st.store:
                if key in s.consts:
                    st.store[key] = s.consts[key]
                else:
                    s.init_scalar(key, TYMAP[d.ty], st)
            return View(key, TYMAP[d.ty])
        return s.mkview(key, d, Frame(mu, 0), st)

    def init_scalar(s, key, ty, st):
        if ty == "C":
            st.store[key + ".re"] = sym(key + ".re")
            st.store[key + ".im"] = sym(key + ".im")
            st.store[key] = None
        elif ty == "S":
            st.store[key] = Str("")
        else:
            st.store[key] = sym(key, ty)

    def mkview(s, key, d, fr, st, prefix=()):
        """View for a declared variable (array / struct)"""
        tyname = d.ty[1] if isinstance(d.ty, tuple) else None
        ty = "T" if tyname else TYMAP[d.ty]
        if d.dims is None:
            return View(key, ty, prefix, tyname)
        if key in s.consts_bounds():
            bnds = s.consts_bounds()[key]
            if callable(bnds):
                bnds = bnds([p[1] for p in prefix])
            dims = [("rng", lift(lo), None if hi is None else lift(hi), lift(lo), ONE) for lo, hi in bnds]
            return View(key, ty, tuple(prefix) + tuple(dims), tyname)
        if key in st.bounds:
            dims = [("rng", lo, hi, lo, ONE) for lo, hi in st.bounds[key]]
            return View(key, ty, tuple(prefix) + tuple(dims), tyname)
        dims = []
        for n, (lo, hi) in enumerate(d.dims):
            l = ONE if lo is None else s.ev(lo, fr, st)
            if hi == ":":
                if lo is None:
                    if prefix:
                        l = app("lb%d:%s" % (n + 1, key), *[q[1] for q in prefix], sort="I")
                    else:
                        l = sym("lb%d:%s" % (n + 1, key), "I")
                if prefix:
                    h = app("ub%d:%s" % (n + 1, key), *[q[1] for q in prefix], sort="I")
                else:
                    h = sym("ub%d:%s" % (n + 1, key), "I")
            elif hi == "*":
                h = None
            else:
                h = s.ev(hi, fr, st)
            dims.append(("rng", l, h, l, ONE))
        return View(key, ty, tuple(prefix) + tuple(dims), tyname)

    def consts_bounds(s):
        return s.opts.get("bounds", {})

    def declare(s, d, fr, st):
        key = "%s#%d.%s" % (fr.unit.name, fr.inst, d.name) if fr.inst else d.name
        fr.vars[d.name] = None
        if isinstance(d.ty, tuple):
            fr.vars[d.name] = s.mkview(key, d, fr, st)
            return
        ty = TYMAP[d.ty]
        if d.dims is None:
            if "parameter" in d.attrs or d.init is not None:
                t, v = s.eval(d.init, fr, st)
                if ty == "C":
                    st.store[key + ".re"], st.store[key + ".im"] = (v.re, v.im) if isinstance(v, CV) else (v, ZERO)
                    v = None
                st.store[key] = v
            elif key not in st.store:
                s.init_scalar(key, ty, st)
            fr.vars[d.name] = View(key, ty)
            return
        fr.vars[d.name] = s.mkview(key, d, fr, st)
        if d.init is not None:
            s.assign_view(fr.vars[d.name], s.eval_any(d.init, fr, st), st)

    # ------------------------------------------------------------ reads
    def content(s, key, ty, st):
        c = st.store.get(key)
        if c is None:
            c = cbase(key, ty)
            st.store[key] = c
        return c

    def readv(s, v, st, idx=()):
        """value of scalar element"""
        full = v.at(idx) if v.dims else ()
        if v.ty == "C":
            return CV(s.rd(v.key + ".re", "R", full, st), s.rd(v.key + ".im", "R", full, st))
        if v.ty == "T":
            return v
        return s.rd(v.key, v.ty, full, st)

    def rd(s, key, ty, full, st):
        if not full:
            x = st.store.get(key)
            if x is None:
                s.init_scalar(key, ty, st)
                x = st.store[key]
            if isinstance(x, Content):
                raise Unsupported("array read as scalar " + key)
            return x
        c = s.content(key, ty, st)
        if not isinstance(c, Content):
            raise Unsupported("scalar read as array " + key)
        s.check_bounds(key, full, st)
        return select(c, full, s.ctx)

    def check_bounds(s, key, full, st):
        pass

    def write_scalar(s, key, ty, full, val, st):
        if not full:
            st.store[key] = val
            return
        c = s.content(key, ty, st)
        if val.sort == "R" or val.sort == "I":
            r = select(c, full, s.ctx)
            if r.op == "sel":
                d = sub(val, r)
                if not mentions(d, r):
                    # accumulate form
                    if not own(d, c):
                        st.store[key] = cwrite(c, full, d, "add")
                        return
        st.store[key] = cwrite(c, full, val, "set")

    # ------------------------------------------------------------ expressions
    def ev(s, e, fr, st):
        ty, v = s.eval(e, fr, st)
        if not isinstance(v, T):
            raise Unsupported("scalar expected: %s" % (e,))
        return v

    def eval(s, e, fr, st):
        v = s.eval_any(e, fr, st)
        if isinstance(v, tuple):
            return v
        if isinstance(v, Arr):
            return v.ty, v
        if isinstance(v, View):
            return v.ty, v
        raise Unsupported("eval %s" % (e,))

    def lval(s, e, fr, st):
        """designator -> View (scalar or array), or None if not a variable"""
        k = e[0]
        if k == "par":
            return None
        if k == "name":
            v = s.lookup(e[1], fr, st)
            return s.deref(v, st)
        if k == "fld":
            b = s.lval(e[1], fr, st)
            if b is None:
                return None
            return s.deref(s.field(b, e[2], fr, st), st)
        if k == "ref":
            b = s.lval(e[1], fr, st)
            if b is None:
                return None
            if b.rank() == 0:
                return None
            return s.index(b, e[2], fr, st)
        return None

    def deref(s, v, st):
        if v is not None and v.key in st.ptr and not isinstance(v.key, tuple):
            t = st.ptr[v.key]
            if all(d[0] == "rng" for d in v.dims) or not v.dims:
                return t
            # pointer component inside struct array: target view is parameterised by prefix - handled by caller
            return t
        return v

    def field(s, b, f, fr, st):
        if b.tyname is None:
            raise Unsupported("field of non-struct %s%%%s" % (b.key, f))
        fd = s.p.typefields(b.tyname).get(f)
        if fd is None:
            raise Unsupported("no field %s in %s" % (f, b.tyname))
        key = b.key + "%" + f
        if b.rank() and fd.dims is not None:
            raise Unsupported("array%array")
        v = s.mkview(key, fd, Frame(fr.unit, fr.inst, fr.host), st, prefix=b.dims)
        return v

    def index(s, b, args, fr, st):
        subs = []
        if len(args) != b.rank():
            raise Unsupported("rank mismatch on %s: %d vs %d" % (b.key, len(args), b.rank()))
        for a in args:
            if a[0] == "slice":
                lo = s.ev(a[1], fr, st) if a[1] is not None else None
                hi = s.ev(a[2], fr, st) if a[2] is not None else None
                stp = s.ev(a[3], fr, st) if a[3] is not None else ONE
                subs.append(("rng", lo, hi, stp))
            else:
                v = s.eval_any(a, fr, st)
                if isinstance(v, tuple) and isinstance(v[1], T):
                    subs.append(v[1])
                else:
                    raise Unsupported("vector subscript")
        return b.sub(subs)

    def eval_any(s, e, fr, st):
        k = e[0]
        if k == "num":
            if e[2] and e[3] is None:
                return ("R", num(f32(e[1])))
            return ("R" if e[2] else "I", num(e[1]))
        if k == "log":
            return ("B", TRUE if e[1] else FALSE)
        if k == "str":
            return ("S", Str(e[1]))
        if k == "par":
            v = s.eval_any(e[1], fr, st)
            return v if not isinstance(v, View) else s.val_of(v, st)
        if k in ("name", "fld", "ref"):
            v = None
            if not (k == "ref" and e[1][0] == "name" and e[1][1] not in fr.vars and s.is_fn(e[1][1], fr, st)):
                v = s.lval(e, fr, st)
            if v is not None:
                return s.val_of(v, st)
            if k == "ref" and e[1][0] == "name":
                return s.call_fn(e[1][1], e[2], fr, st)
            raise Unsupported("unknown name %s in %s" % (e[1] if k == "name" else e, fr.unit.name))
        if k == "cplx":
            a, b = s.ev(e[1], fr, st), s.ev(e[2], fr, st)
            return ("C", CV(a, b))
        if k == "un":
            return s.map1(lambda ty, v: s.unop(e[1], ty, v), s.eval_any(e[2], fr, st))
        if k == "bin":
            a = s.eval_any(e[2], fr, st)
            if e[1] == ".and." and a == ("B", FALSE):
                return a
            b = s.eval_any(e[3], fr, st)
            r = s.map2(lambda ta, x, tb, y: s.binop(e[1], ta, x, tb, y), a, b)
            if e[1] in ("/", "*", "+", "-") and isinstance(r, tuple) and r[0] == "R" and isnum(r[1]) and single(e):
                return ("R", num(f32(val(r[1]))))
            return r
        if k == "arr":
            vals = []
            for it in e[1]:
                v = s.eval_any(it, fr, st)
                if isinstance(v, Arr):
                    n = v.ext[0]
                    if not isnum(n):
                        raise Unsupported("array ctor with symbolic section")
                    for q in range(int(val(n))):
                        vals.append((v.ty, v.fn([num(q)])))
                else:
                    vals.append(v)
            ty = vals[0][0]
            for t, _ in vals:
                ty = promote(ty, t)

            def fn(off, vals=vals):
                o = off[0]
                if isnum(o):
                    return vals[int(val(o))][1]
                r = vals[-1][1]
                for q in range(len(vals) - 2, -1, -1):
                    r = ite(EQ(o, num(q)), vals[q][1], r)
                return r
            return Arr(ty, [num(len(vals))], fn)
        raise Unsupported("expr %s" % (k,))

    def val_of(s, v, st):
        if v.ty == "T":
            return v
        if v.rank() == 0:
            return (v.ty, s.readv(v, st))
        snap = dict((k, st.store.get(k)) for k in (v.key, v.key + ".re", v.key + ".im"))
        rng = [d for d in v.dims if d[0] == "rng"]

        def fn(off):
            st2 = st
            cur = {k: st.store.get(k) for k in snap}
            changed = any(cur[k] is not snap[k] for k in snap)
            if changed:
                st2 = st.copy()
                for k, x in snap.items():
                    if x is not None:
                        st2.store[k] = x
            return s.readv(v, st2, [add(d[1], o) for d, o in zip(rng, off)])
        # force content creation before snapshot
        if v.ty == "C":
            s.content(v.key + ".re", "R", st)
            s.content(v.key + ".im", "R", st)
        else:
            s.content(v.key, v.ty, st)
        for k in snap:
            snap[k] = st.store.get(k)
        return Arr(v.ty, v.extents(), fn)

    def map1(s, f, a):
        if isinstance(a, Arr):
            ty = f(a.ty, probe(a.ty))[0]
            return Arr(ty, a.ext, lambda o: f(a.ty, a.fn(o))[1])
        return f(a[0], a[1])

    def map2(s, f, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            ta = a.ty if isinstance(a, Arr) else a[0]
            tb = b.ty if isinstance(b, Arr) else b[0]
            ty = f(ta, probe(ta), tb, probe(tb))[0]
            ext = a.ext if isinstance(a, Arr) else b.ext
            if isinstance(a, Arr) and isinstance(b, Arr) and len(a.ext) != len(b.ext):
                raise Unsupported("shape mismatch")
            ga = a.fn if isinstance(a, Arr) else (lambda o: a[1])
            gb = b.fn if isinstance(b, Arr) else (lambda o: b[1])
            return Arr(ty, ext, lambda o: f(ta, ga(o), tb, gb(o))[1])
        return f(a[0], a[1], b[0], b[1])

    def unop(s, op, ty, v):
        if op == "-":
            if ty == "C":
                return ("C", CV(-v.re, -v.im))
            return (ty, -v)
        if op == ".not.":
            return ("B", NOT(v))
        raise Unsupported(op)

    def binop(s, op, ta, a, tb, b):
        if op in ("+", "-", "*", "/", "**") and "C" in (ta, tb):
            return ("C", cplxop(op, tocv(a), tocv(b) if op != "**" else b))
        if op == "+":
            return (promote(ta, tb), add(a, b))
        if op == "-":
            return (promote(ta, tb), sub(a, b))
        if op == "*":
            return (promote(ta, tb), mul(a, b))
        if op == "/":
            if ta == "I" and tb == "I":
                return ("I", idiv(a, b))
            return ("R", div(a, b))
        if op == "**":
            if b.op == "num" and b.args[0].denominator == 1:
                n = int(b.args[0])
                if ta == "I" and n < 0:
                    raise Unsupported("int ** negative")
                return (ta if tb == "I" else "R", power(a, n))
            if b.op == "num" and b.args[0] == Fraction(1, 2):
                return ("R", sqrt(a))
            if b.op == "num" and b.args[0] == Fraction(3, 2):
                return ("R", mul(a, sqrt(a)))
            return (promote(ta, tb), app("pow", a, b, sort="I" if ta == tb == "I" else "R"))
        if op in ("==", "/=", "<", "<=", ">", ">="):
            if ta == "S" or tb == "S":
                r = TRUE if str(a).strip() == str(b).strip() else FALSE
                return ("B", r if op == "==" else NOT(r))
            if "C" in (ta, tb):
                a, b = tocv(a), tocv(b)
                r = AND(EQ(a.re, b.re), EQ(a.im, b.im))
                return ("B", r if op == "==" else NOT(r))
            return ("B", {"==": EQ, "/=": NE, "<": LT, "<=": LE, ">": GT, ">=": GE}[op](a, b))
        if op == ".and.":
            return ("B", AND(a, b))
        if op == ".or.":
            return ("B", OR(a, b))
        if op == ".eqv.":
            return ("B", EQ(a, b))
        if op == ".neqv.":
            return ("B", NOT(EQ(a, b)))
        if op == "//":
            return ("S", Str(str(a) + str(b)))
        raise Unsupported("op " + op)

    # ------------------------------------------------------------ functions
    def is_fn(s, name, fr, st):
        if s.find_unit(name, fr) is not None and s.find_unit(name, fr).kind == "function":
            return True
        return False

    def find_unit(s, name, fr):
        f = fr
        while f is not None:
            if name in f.unit.contains:
                return f.unit.contains[name]
            if f.unit.parent is not None and name in f.unit.parent.contains:
                return f.unit.parent.contains[name]
            f = f.host
        return s.p.units.get(name)

    def call_fn(s, name, args, fr, st):
        if name in s.stubs:
            r = s.stubs[name](s, args, fr, st)
            return r
        from intrin import INTRIN
        u = s.find_unit(name, fr)
        if u is not None and u.kind == "function":
            nf = s.enter(u, args, fr, st)
            v = s.lookup(u.result, nf, st)
            return s.val_of(v, st)
        if name in INTRIN:
            return INTRIN[name](s, args, fr, st)
        raise Unsupported("function %s" % name)

    def enter(s, u, args, fr, st):
        if s.depth > 40:
            raise Unsupported("recursion " + u.name)
        s.inst += 1
        nf = Frame(u, s.inst, host=None)
        if u.parent is not None and u.parent.kind != "module":
            h = fr
            while h is not None and h.unit is not u.parent:
                h = h.host
            nf.host = h
        s.inlined.add(u.name)
        pend = []
        pos = 0
        bound = {}
        for a in args:
            if a[0] == "kw":
                bound[a[1]] = a[2]
            else:
                if pos >= len(u.args):
                    raise Unsupported("too many args to " + u.name)
                bound[u.args[pos]] = a
                pos += 1
        # scalars first (they may define dummy bounds)
        for n in u.args:
            d = u.decls.get(n)
            a = bound.get(n)
            if a is None:
                nf.vars[n] = None
                continue
            if a[0] == "name" and d is None:
                # procedure argument
                nf.vars[n] = None
                s.stubs_proc(nf, n, a[1], fr)
                continue
            isarr = d is not None and d.dims is not None
            v = s.lval(a, fr, st)
            if v is None and a[0] == "name" and s.find_unit(a[1], fr) is not None:
                s.stubs_proc(nf, n, a[1], fr)
                continue
            if v is not None and v.rank() == 0 and not isarr:
                nf.vars[n] = View(v.key, v.ty, v.dims, v.tyname)
            elif v is not None:
                pend.append((n, d, v, a))
            else:
                r = s.eval_any(a, fr, st)
                key = "%s#%d.%s" % (u.name, s.inst, n)
                if isinstance(r, Arr):
                    w = View(key, r.ty, [("rng", ONE, x, ONE, ONE) for x in r.ext])
                    s.assign_view(w, r, st)
                    pend.append((n, d, w, a))
                else:
                    ty = TYMAP[d.ty] if d is not None and not isinstance(d.ty, tuple) else r[0]
                    if ty == "C":
                        c = tocv(r[1])
                        st.store[key + ".re"], st.store[key + ".im"] = c.re, c.im
                        st.store[key] = None
                    else:
                        st.store[key] = r[1]
                    nf.vars[n] = View(key, ty)
        for n, d, v, a in pend:
            if d is None or d.dims is None:
                nf.vars[n] = v
                continue
            if v.rank() == 0 and a[0] == "ref":
                # sequence association from element
                base = s.lval(a[1], fr, st)
                nd = len(d.dims)
                if base.rank() == nd == 1:
                    idx = [s.ev(x, fr, st) for x in a[2]]
                    v = base.sub([("rng", idx[0], None, ONE)])
                else:
                    v = s.seqassoc(base, [s.ev(x, fr, st) for x in a[2]], nd)
            if len(d.dims) != v.rank():
                v = s.reshape_view(v, d, nf, st)
            los, his = [], []
            for q, (lo, hi) in enumerate(d.dims):
                l = ONE if lo is None else s.ev(lo, nf, st)
                if hi == ":" and ("pointer" in d.attrs or "allocatable" in d.attrs):
                    rr = [x for x in v.dims if x[0] == "rng"][q]
                    los.append(rr[1])
                    his.append(rr[2])
                    continue
                los.append(l)
                his.append(None if hi in (":", "*") else s.ev(hi, nf, st))
            nf.vars[n] = v.rebase(los, his)
        s.declare_all(nf, st)
        s.depth += 1
        try:
            s.run_body(u.body, nf, st)
        finally:
            s.depth -= 1
        return nf

    def declare_all(s, fr, st):
        for n, d in fr.unit.decls.items():
            if n not in fr.vars and "external" not in d.attrs:
                if n in fr.unit.args:
                    continue
                s.declare(d, fr, st)

    def start(s, name, args=None):
        """run routine `name` from a symbolic entry state; args: dict dummy -> term"""
        u = s.p.units[name]
        st, fr = State(), Frame(u, 0)
        s.top = fr
        for n, t in (args or {}).items():
            st.store[n] = lift(t)
        for n in u.args:
            d = u.decls.get(n)
            if d is None:
                continue
            if "optional" in d.attrs and n in s.opts.get("absent", ()):
                fr.vars[n] = None
                continue
            s.declare(d, fr, st)
        s.declare_all(fr, st)
        for mu in s.p.modules.values():      # named constants are known from the start (not only once met on some path)
            for d in mu.decls.values():
                if mu.kind == "module" and d.dims is None and "parameter" in d.attrs and d.init is not None and not isinstance(d.ty, tuple) and d.name not in st.store and d.name not in fr.vars and d.name not in u.decls:
                    try:
                        s.modvar(mu, d, st)
                    except Exception:
                        st.store.pop(d.name, None)
        return u, st, fr

    def run(s, name, args=None):
        u, st, fr = s.start(name, args)
        s.run_body(u.body, fr, st)
        return st

    def seqassoc(s, base, idx, nd):
        """element actual passed to array dummy of rank nd: leading nd dims run on, trailing fixed"""
        subs = []
        for k, i in enumerate(idx):
            if k < nd:
                if not (isnum(i) or True):
                    raise Unsupported("seq assoc")
                subs.append(("rng", i, None, ONE))
            else:
                subs.append(i)
        return base.sub(subs)

    def reshape_view(s, v, d, nf, st):
        """actual array of higher rank to dummy of lower rank: sequence association on whole leading dims"""
        raise Unsupported("rank change in argument association of %s" % v.key)

    def stubs_proc(s, nf, n, target, fr):
        nf.vars["proc:" + n] = (target, fr)

    # ------------------------------------------------------------ statements
    def run_body(s, body, fr, st):
        saved = st.brk
        st.brk = {}
        s.block(body, fr, st)
        rest = {k: v for k, v in st.brk.items() if k == "stop"}
        st.brk = dict(saved)
        for k, v in rest.items():
            st.brk[k] = OR(st.brk.get(k, FALSE), v)

    def dead(s, st):
        return OR(*st.brk.values()) if st.brk else FALSE

    def block(s, stmts, fr, st):
        for n, x in enumerate(stmts):
            before = s.dead(st)
            s.stmt(x, fr, st)
            d = s.dead(st)
            if d is not FALSE and d is not before or (d is not FALSE and n == 0):
                if d is TRUE or s.ctx.decide(d) is True:
                    return
                rest = stmts[n + 1:]
                if not rest:
                    return
                old = st.copy()
                s2 = st.copy()
                s2.brk = {}
                s.ctx.push(NOT(d))
                try:
                    s.block(rest, fr, s2)
                finally:
                    s.ctx.pop()
                s.merge(d, old, old, s2, st)
                nb = dict(old.brk)
                for k, v in s2.brk.items():
                    nb[k] = OR(nb.get(k, FALSE), AND(NOT(d), v))
                st.brk = nb
                return

    def merge(s, c, a, old, b, out):
        """out := if c then a else b   (a, b descend from old)"""
        keys = set(a.store) | set(b.store)
        res = {}
        for k in keys:
            x, y = a.store.get(k), b.store.get(k)
            if x is y:
                res[k] = x
                continue
            if x is None or y is None:
                z = x if x is not None else y
                o = old.store.get(k)
                if isinstance(z, T) and o is None:
                    res[k] = z       # declared in one branch only
                    continue
                if isinstance(z, Content):
                    # other branch untouched: its content is the base
                    z0 = o if o is not None else cbase(k, z.sort)
                    x = x if x is not None else z0
                    y = y if y is not None else z0
                else:
                    res[k] = z
                    continue
            if isinstance(x, T) and isinstance(y, T):
                res[k] = ite(c, x, y)
            elif isinstance(x, Content) and isinstance(y, Content):
                o = old.store.get(k)
                if o is None:
                    o = cbase(k, x.sort)
                res[k] = mergec(c, x, y, o)
            elif isinstance(x, Str):
                res[k] = x
            else:
                raise Unsupported("merge of %s" % k)
        out.store = res
        out.ptr = dict(a.ptr)
        for k in set(a.ptr) | set(b.ptr):
            if a.ptr.get(k) is not b.ptr.get(k):
                va, vb = a.ptr.get(k), b.ptr.get(k)
                if va is not None and vb is not None and va.key == vb.key and va.dims == vb.dims:
                    continue
                if va is None or vb is None:
                    out.ptr[k] = va or vb
                    s.notes.append("pointer %s set in one branch only" % k)
                    continue
                raise Unsupported("pointer merge " + k)
        out.bounds = dict(a.bounds)
        for k in set(a.bounds) | set(b.bounds):
            x, y = a.bounds.get(k), b.bounds.get(k)
            if x is None or y is None:
                out.bounds[k] = x or y
            elif x != y:
                out.bounds[k] = [(ite(c, p[0], q[0]), ite(c, p[1], q[1])) for p, q in zip(x, y)]
        out.flags = dict(a.flags)
        out.flags.update(b.flags)

    def branch(s, c, fa, fb, fr, st):
        """if c then fa(st) else fb(st)"""
        d = s.ctx.decide(c)
        if d is True:
            fa(st)
            return
        if d is False:
            fb(st)
            return
        old = st.copy()
        s1, s2 = st.copy(), st.copy()
        s1.brk, s2.brk = {}, {}
        s.ctx.push(c)
        try:
            fa(s1)
        finally:
            s.ctx.pop()
        s.ctx.push(NOT(c))
        try:
            fb(s2)
        finally:
            s.ctx.pop()
        if s.opts.get("stop_dead", True):
            if s1.brk.get("stop") is TRUE and s2.brk.get("stop") is not TRUE:
                pass
        s.merge(c, s1, old, s2, st)
        brk = dict(old.brk)
        for k, v in s1.brk.items():
            brk[k] = OR(brk.get(k, FALSE), AND(c, v))
        for k, v in s2.brk.items():
            brk[k] = OR(brk.get(k, FALSE), AND(NOT(c), v))
        st.brk = brk

    def stmt(s, x, fr, st):
        k = x[0]
        try:
            getattr(s, "s_" + k.replace("else", "els"))(x, fr, st)
        except Unsupported as e:
            if not getattr(e, "loc", None):
                e.loc = "%s:%s" % (fr.unit.name, x[1])
                e.args = ("%s [at %s]" % (e.args[0] if e.args else "", e.loc),)
            raise

    def s_nop(s, x, fr, st):
        pass

    def s_io(s, x, fr, st):
        pass

    def s_stop(s, x, fr, st):
        st.brk["stop"] = TRUE

    def s_return(s, x, fr, st):
        st.brk["return"] = TRUE

    def s_cycle(s, x, fr, st):
        st.brk["cycle" + (":" + x[2] if x[2] else "")] = TRUE

    def s_exit(s, x, fr, st):
        st.brk["exit" + (":" + x[2] if x[2] else "")] = TRUE

    def s_if(s, x, fr, st):
        arms, els = x[2], x[3]

        def go(n, q):
            if n == len(arms):
                s.block(els, fr, q)
                return
            c = s.ev(arms[n][0], fr, q)
            s.branch(c, lambda z: s.block(arms[n][1], fr, z), lambda z: go(n + 1, z), fr, q)
        go(0, st)

    def s_select(s, x, fr, st):
        ty, e = s.eval(x[2], fr, st)
        cases = x[3]

        def cond(sel):
            cs = []
            for it in sel:
                if it[0] == "slice":
                    a = []
                    if it[1] is not None:
                        a.append(GE(e, s.ev(it[1], fr, st)))
                    if it[2] is not None:
                        a.append(LE(e, s.ev(it[2], fr, st)))
                    cs.append(AND(*a))
                else:
                    t2, v = s.eval(it, fr, st)
                    cs.append(s.binop("==", ty, e, t2, v)[1])
            return OR(*cs)
        default = [b for sel, b in cases if sel is None]
        rest = [(sel, b) for sel, b in cases if sel is not None]

        def go(n, q):
            if n == len(rest):
                if default:
                    s.block(default[0], fr, q)
                return
            s.branch(cond(rest[n][0]), lambda z: s.block(rest[n][1], fr, z), lambda z: go(n + 1, z), fr, q)
        go(0, st)

    def s_asg(s, x, fr, st):
        v = s.lval(x[2], fr, st)
        if v is None:
            raise Unsupported("assign target %s" % (x[2],))
        r = s.eval_any(x[3], fr, st)
        s.assign_view(v, r, st)

    def assign_view(s, v, r, st, mask=None):
        if isinstance(r, View):
            if v.ty != "T" or r.ty != "T":
                raise Unsupported("struct assign")
            s.copy_struct(v, r, st)
            return
        if v.rank() == 0:
            if isinstance(r, Arr):
                raise Unsupported("array to scalar")
            ty, t = r
            s.write_conv(v, (), ty, t, st)
            return
        # array target
        rng = [d for d in v.dims if d[0] == "rng"]
        ext = v.extents()
        if any(x is None for x in ext):
            if isinstance(r, Arr):
                ext = [a if a is not None else b for a, b in zip(ext, r.ext)]
        if any(x is None for x in ext):
            raise Unsupported("assumed-size whole-array assign")
        if all(isnum(x) for x in ext) and prod([int(val(x)) for x in ext]) <= 64:
            import itertools
            vals = []
            for o in itertools.product(*[range(int(val(x))) for x in ext]):
                off = [num(q) for q in o]
                t = r.fn(off) if isinstance(r, Arr) else r[1]
                m = mask.fn(off) if mask is not None else TRUE
                vals.append((off, t, m))
            ty = r.ty if isinstance(r, Arr) else r[0]
            for off, t, m in vals:
                full = v.at([add(d[1], o) for d, o in zip(rng, off)])
                s.write_conv(v, full, ty, t, st, guard=m)
            return
        bs = [fresh("b", "I") for _ in rng]
        t = r.fn(bs) if isinstance(r, Arr) else r[1]
        m = mask.fn(bs) if mask is not None else TRUE
        ty = r.ty if isinstance(r, Arr) else r[0]
        full = v.at([add(d[1], o) for d, o in zip(rng, bs)])
        binders = tuple((b, ZERO, sub(x, ONE), ONE) for b, x in zip(bs, ext))
        s.write_conv(v, full, ty, t, st, binders=binders, guard=m)

    def write_conv(s, v, full, ty, t, st, binders=(), guard=TRUE):
        if not full and not binders:
            full = v.at(()) if v.dims else ()
        if v.ty == "C":
            c = tocv(t)
            s.wr(v.key + ".re", "R", full, c.re, st, binders, guard)
            s.wr(v.key + ".im", "R", full, c.im, st, binders, guard)
            if not full:
                st.store[v.key] = None
            return
        if isinstance(t, CV):
            t = t.re
        if v.ty == "I" and ty == "R":
            t = trunc(t)
        if v.ty == "S":
            if not full:
                st.store[v.key] = t
            return
        s.wr(v.key, v.ty, full, t, st, binders, guard)

    def wr(s, key, ty, full, t, st, binders, guard):
        if not binders and guard is TRUE:
            s.write_scalar(key, ty, full, t, st)
            return
        c = s.content(key, ty, st)
        if binders:
            r = select(c, full, s.ctx)
            d = sub(t, r) if t.sort != "B" else None
            if d is not None and r.op == "sel" and not mentions(d, r) and not own(d, c):
                st.store[key] = cwrite(c, full, d, "add", binders, guard)
                return
        st.store[key] = cwrite(c, full, t, "set", binders, guard)

    def copy_struct(s, v, r, st):
        for f, d in s.p.typefields(v.tyname).items():
            raise Unsupported("struct copy")

    def s_where(s, x, fr, st):
        m = s.eval_any(x[2], fr, st)
        els = Arr("B", m.ext, lambda o: NOT(m.fn(o)))
        for msk, b in ((m, x[3]), (els, x[4])):
            for q in b:
                if q[0] != "asg":
                    raise Unsupported("where body")
                s.assign_view(s.lval(q[2], fr, st), s.eval_any(q[3], fr, st), st, mask=msk)

    def s_ptr(s, x, fr, st):
        # target name
        e = x[2]
        lv = s.lookup(e[1], fr, st) if e[0] == "name" else None
        if lv is None:
            if e[0] == "fld":
                b = s.lval(e[1], fr, st)
                lv = s.field(b, e[2], fr, st)
                if any(d[0] == "fix" and not isnum(d[1]) for d in lv.dims):
                    raise Unsupported("pointer component in symbolic struct array")
            else:
                raise Unsupported("ptr assign")
        r = x[3]
        if r[0] == "ref" and r[1] == ("name", "null"):
            st.ptr.pop(lv.key, None)
            return
        t = s.lval(r, fr, st)
        if t is None:
            raise Unsupported("pointer target %s" % (r,))
        st.ptr[lv.key] = t

    def s_nullify(s, x, fr, st):
        pass

    def s_allocate(s, x, fr, st):
        for it in x[2]:
            if it[0] == "kw":
                continue
            if it[0] != "ref":
                continue
            base, args = it[1], it[2]
            if base[0] == "name":
                v = s.lookup(base[1], fr, st)
            else:
                b = s.lval(base[1], fr, st)
                v = s.field(b, base[2], fr, st)
            st.ptr.pop(v.key, None)
            bnds = []
            for a in args:
                if a[0] == "slice":
                    bnds.append((s.ev(a[1], fr, st), s.ev(a[2], fr, st)))
                else:
                    bnds.append((ONE, s.ev(a, fr, st)))
            pre = [d for d in v.dims if d[0] == "fix"]
            if pre:
                raise Unsupported("allocate of component in array of structs")
            st.bounds[v.key] = bnds
            keys = [v.key] if v.ty != "C" else [v.key + ".re", v.key + ".im"]
            if v.ty == "T":
                continue
            for k in keys:
                st.store[k] = fresh_base("uninit:" + k, "R" if v.ty == "C" else v.ty)
            s.refresh(base, fr, v.key)
            st.flags["alloc:" + v.key] = TRUE

    def refresh(s, base, fr, key):
        if base[0] == "name":
            f = fr
            while f is not None:
                w = f.vars.get(base[1])
                if w is not None and w.key == key:
                    del f.vars[base[1]]
                    # dummy argument views must be rebuilt by hand
                    if base[1] in f.unit.args:
                        raise Unsupported("allocate of dummy argument")
                    return
                f = f.host

    def s_deallocate(s, x, fr, st):
        for it in x[2]:
            if it[0] == "kw":
                continue
            v = s.lval(it, fr, st)
            if v is not None:
                st.flags["alloc:" + v.key] = FALSE

    def s_call(s, x, fr, st):
        name = x[2][1] if x[2][0] == "name" else None
        if name is None:
            raise Unsupported("type-bound call")
        f = fr
        while f is not None:
            if "proc:" + name in f.vars:
                name, _ = f.vars["proc:" + name]
                break
            f = f.host
        if name in s.stubs:
            s.stubs[name](s, x[3], fr, st)
            return
        if name.startswith("mpi_abort") or name == "abort":
            st.brk["stop"] = TRUE
            return
        u = s.find_unit(name, fr)
        if u is None:
            raise Unsupported("call to unknown routine " + name)
        s.enter(u, x[3], fr, st)

    # ------------------------------------------------------------ loops
    def s_do(s, x, fr, st):
        _, line, var, lo, hi, stp, body, label = x
        lo, hi = s.ev(lo, fr, st), s.ev(hi, fr, st)
        stp = s.ev(stp, fr, st) if stp is not None else ONE
        lo, hi, stp = s.simp_bound(lo), s.simp_bound(hi), s.simp_bound(stp)
        vv = s.lookup(var, fr, st)
        if isnum(lo) and isnum(hi) and isnum(stp):
            vals = []
            v, h, sp = val(lo), val(hi), val(stp)
            while (v <= h) if sp > 0 else (v >= h):
                vals.append((num(v), TRUE))
                v += sp
                if len(vals) > 400:
                    break
            if len(vals) <= s.opts.get("unroll", 70):
                s.unroll(vals, vv, body, fr, st, label)
                st.store[vv.key] = num(v)
                return
        elif stp is ONE:
            sb = s.small_bounds(lo, hi)
            if sb is not None:
                vals = [(num(v), AND(LE(lo, num(v)), LE(num(v), hi))) for v in range(sb[0], sb[1] + 1)]
                s.unroll(vals, vv, body, fr, st, label)
                st.store[vv.key] = tmax(lo, add(hi, ONE))
                return
            d = s.simp_bound(sub(hi, lo))
            if isnum(d) and -1 <= val(d) < 16:
                vals = [(add(lo, num(q)), TRUE) for q in range(int(val(d)) + 1)]
                s.unroll(vals, vv, body, fr, st, label)
                st.store[vv.key] = add(hi, ONE)
                return
        if not (isnum(stp) and val(stp) == -1):
            if s.ctx.decide(GT(stp, ZERO)) is not True:
                raise Unsupported("loop step not known positive")
            s.summarize(vv, lo, hi, stp, body, fr, st, label, line)
        else:
            s.summarize(vv, hi, lo, ONE, body, fr, st, label, line, rev=True)

    def simp_bound(s, t):
        if t.op in ("num", "sym"):
            return t
        from prove import simp
        return simp(t, s.ctx)

    def small_bounds(s, lo, hi):
        """constant enclosure for loops whose bounds are small case-dependent integers"""
        if not (has_ite(lo) or has_ite(hi)):
            return None
        W = s.opts.get("small", 6)
        l = h = None
        for k in range(-W, W + 1):
            if s.ctx.decide(GE(lo, num(k))) is True:
                l = k
            else:
                break
        if l is None:
            return None
        for k in range(W, -W - 1, -1):
            if s.ctx.decide(LE(hi, num(k))) is True:
                h = k
            else:
                break
        if h is None:
            return None
        return l, h

    def unroll(s, vals, vv, body, fr, st, label):
        for n, (v, g) in enumerate(vals):
            def one(q):
                s.write_scalar(vv.key, "I", vv.at(()) if vv.dims else (), v, q)
                s.block(body, fr, q)
                clear(q, "cycle", label)
            if g is TRUE:
                one(st)
            else:
                s.branch(g, one, lambda q: None, fr, st)
            d = s.dead(st)
            if d is not FALSE:
                if s.ctx.decide(d) is True:
                    clear(st, "exit", label)
                    return
                rest = vals[n + 1:]
                if rest:
                    old = st.copy()
                    s2 = st.copy()
                    s2.brk = {}
                    s.ctx.push(NOT(d))
                    try:
                        s.unroll(rest, vv, body, fr, s2, label)
                    finally:
                        s.ctx.pop()
                    s.merge(d, old, old, s2, st)
                    nb = dict(old.brk)
                    for k, b in s2.brk.items():
                        nb[k] = OR(nb.get(k, FALSE), AND(NOT(d), b))
                    st.brk = nb
                clear(st, "exit", label)
                return
        clear(st, "exit", label)

    def summarize(s, vv, lo, hi, stp, body, fr, st, label, line, rev=False):
        s.nloops += 1
        where = "%s:%s" % (fr.unit.name, line)
        i = fresh("i", "I")
        ctx = s.ctx
        hook = s.opts.get("loop_hook")
        if hook is not None:
            r = hook(s, vv, lo, hi, stp, body, fr, st, label, line)
            if r:
                return
        rng = AND(LE(lo, i), LE(i, hi)) if stp is ONE else AND(LE(lo, i), LE(i, hi), EQ(mod(sub(i, lo), stp), ZERO))
        ctx.push(rng)
        try:
            if not ctx.feasible():
                return
            W = set()
            rnd = 0
            inst0 = s.inst
            while True:
                rnd += 1
                pre = st.copy()
                pre.brk = {}
                lsym, lbase = {}, {}
                for k in W:
                    o = st.store.get(k)
                    if o is None or isinstance(o, Str):
                        continue
                    if isinstance(o, Content):
                        b = fresh_base("loop:" + k, o.sort)
                        lbase[k] = b
                        pre.store[k] = b
                    else:
                        y = fresh("loop:" + k, o.sort if o.sort != "I" or s.isint(k, o) else "R")
                        lsym[k] = y
                        pre.store[k] = y
                start = dict(pre.store)
                ptr0 = dict(pre.ptr)
                pre.store[vv.key] = i
                s.block(body, fr, pre)
                clear(pre, "cycle", label)
                new = set(k for k in set(pre.store) if pre.store[k] is not start.get(k) and k != vv.key)
                new |= set(k for k in W if k != vv.key)
                for k in list(new):
                    if k not in st.store:
                        m = INST.match(k)
                        if m and int(m.group(1)) > inst0:
                            new.discard(k)
                            continue
                        z = pre.store.get(k)
                        if isinstance(z, Content):
                            st.store[k] = cbase(k, z.sort)
                        elif isinstance(z, T):
                            st.store[k] = sym(k, z.sort)
                        if k not in W and st.store.get(k) is z:
                            new.discard(k)          # only read: first touched inside the loop
                if new <= W and rnd > 1:
                    break
                if new == W:
                    break
                W |= new
                if rnd > 6:
                    raise Unsupported("loop write set did not stabilise at " + where)
            if any(v is not FALSE for v in pre.brk.values()):
                raise Unsupported("loop with exit/return at " + where)
            for k in ptr0:
                if k in st.ptr and pre.ptr.get(k) is not ptr0[k]:
                    pass
            keep, nn = st.copy(), len(s.notes)
            try:
                s.finish_loop(W, lsym, lbase, pre, st, i, lo, hi, stp, where, rev)
            except Unsupported:
                # values of an earlier iteration may occur in branches that are never taken: prune along the path conditions and retry
                st.store, st.brk, st.ptr, st.bounds, st.flags = (dict(x) for x in (keep.store, keep.brk, keep.ptr, keep.bounds, keep.flags))
                pr = Pruner(ctx)
                while True:
                    del s.notes[nn:]
                    try:
                        s.finish_loop(W, lsym, lbase, pre, st, i, lo, hi, stp, where, rev, pr)
                        break
                    except Carried as e:
                        if e.key in pr.havoc:
                            raise
                        pr.havoc.add(e.key)         # its content after the loop is left unknown
                        st.store, st.brk, st.ptr, st.bounds, st.flags = (dict(x) for x in (keep.store, keep.brk, keep.ptr, keep.bounds, keep.flags))
        finally:
            ctx.pop()
        st.store[vv.key] = (tmax(lo, add(hi, ONE)) if stp is ONE else app("loopend", lo, hi, stp, sort="I")) if not rev else tmin(hi, sub(lo, ONE))

    def isint(s, k, o):
        return s.opts.get("intkeys") is None or True

    def finish_loop(s, W, lsym, lbase, pre, st, i, lo, hi, stp, where, rev=False, pruner=None):
        ctx = s.ctx
        allsym = set(lsym.values())
        allbase = set(lbase.values())

        def deps(t):
            return (free(t) & allsym) | (troots(t) & allbase)

        scal = {}      # key -> post term
        arrs = {}      # key -> list of writes
        newkeys = {}
        for k in W:
            v = pre.store.get(k)
            if k in lsym:
                if v is not lsym[k]:
                    scal[k] = v
            elif k in lbase:
                ws = []
                c = v
                while c.kind == "write":
                    ws.append(c)
                    c = c.prev
                if c is not lbase[k]:
                    # reallocated / replaced wholesale inside the loop: private
                    if c.kind == "base":
                        arrs[k] = None
                        continue
                    if c.kind == "cite":
                        arrs[k] = None
                        s.notes.append("array %s havoced at %s" % (k, where))
                        continue
                ws.reverse()
                if ws:
                    arrs[k] = ws
            else:
                newkeys[k] = v
        PV = {}
        if pruner is not None:
            pruner.deps = deps
            for k in list(scal):
                scal[k] = pruner.prune(scal[k])
            for k in pruner.havoc & set(arrs):
                arrs[k] = None
                s.notes.append("array %s havoced at %s" % (k, where))
            for k, ws in arrs.items():
                for w in ws or ():
                    g = pruner.prune(w.guard)
                    PV[w] = g, pruner.under(AND(g, *[AND(LE(l, b), LE(b, h)) for b, l, h, q in w.binders]), w.val)
        # ---- scalars: closed forms at the start of iteration i
        closed = {}     # loop symbol -> term of value at iteration start
        final = {}
        todo = dict(scal)
        live = set()
        # which loop symbols are actually read?
        used = set()
        for v in scal.values():
            used |= deps(v)
        for ws in arrs.values():
            for w in ws or ():
                for t in (PV[w] if w in PV else (w.guard, w.val)) + w.idx:
                    used |= deps(t)
        # unchanged scalars that ended up in W spuriously
        cmap, bmap = {}, {}
        for k, y in lsym.items():
            if k not in scal:
                cmap[y] = st.store[k]
        for k, b in lbase.items():
            if k not in arrs:
                bmap[b] = st.store[k]
        last = hi if stp is ONE else add(lo, mul(stp, idiv(sub(hi, lo), stp)))
        if rev:
            first, last_, prev = hi, lo, add(i, ONE)
        else:
            first, last_, prev = lo, last, sub(i, stp)
        nonempty = LE(lo, hi)
        pending = list(scal)
        progress = True

        def norm(t):
            return subst(t, cmap, bmap) if (cmap or bmap) else t
        while pending and progress:
            progress = False
            for k in list(pending):
                y = lsym[k]
                f = norm(scal[k])
                d = deps(f)
                s0 = st.store[k]
                if not d:
                    # last-value / private
                    if y in used:
                        cmap[y] = ite(EQ(i, first), s0, subst(f, {i: prev}))
                    final[k] = ite(nonempty, subst(f, {i: last_}), s0)
                    pending.remove(k)
                    progress = True
                    continue
                if d <= {y}:
                    r = s.recur(k, y, f, s0, i, lo, hi, stp, deps, rev, first, last_, nonempty)
                    if r is None:
                        continue
                    cf, fin = r
                    cmap[y] = cf
                    final[k] = fin
                    pending.remove(k)
                    progress = True
        # arrays
        ARR = {}
        for k, ws in arrs.items():
            if ws is None:
                ARR[k] = None
                continue
            out = []
            for w in ws:
                out.append([tuple((b, norm(l), norm(h), norm(q)) for b, l, h, q in w.binders), norm(PV[w][0] if w in PV else w.guard), [norm(x) for x in w.idx], PV[w][1] if w in PV else w.val, w.mode, w])
            ARR[k] = out
        # resolve reads of loop-modified arrays
        readers = []
        for k, ws in ARR.items():
            for w in ws or ():
                w[3] = norm(w[3])
        # iterate: arrays whose base is provably only read where not written by other iterations
        done = set(k for k in ARR)
        def livescal():
            """loop symbols on which the written arrays depend, transitively through the scalars"""
            out = set()
            for t in arrterms():
                out |= free(norm(t)) & allsym
            while True:
                n = len(out)
                for k, y in lsym.items():
                    if y in out and k in scal:
                        out |= free(norm(scal[k])) & allsym
                if len(out) == n:
                    return out

        def arrterms():
            for k, ws in ARR.items():
                for w in ws or ():
                    yield w[3]
                    yield w[1]
                    for x in w[2]:
                        yield x
                    for b in w[0]:
                        yield b[1]
                        yield b[2]

        def allterms():
            yield from arrterms()
            for k in final:
                yield final[k]
            for k in pending:
                yield norm(scal[k])
        needed = set()
        for t in allterms():
            needed |= troots(t) & allbase
        acc = {}
        for k, ws in ARR.items():
            b = lbase[k]
            if ws is None:
                continue
            acc[k] = all(w[4] == "add" for w in ws)
        for k, b in lbase.items():
            if b not in needed or b in bmap:
                continue
            ws = ARR.get(k)
            if ws is None:
                raise Unsupported("loop-carried read of replaced array %s at %s" % (k, where))
            i2 = fresh("i", "I")
            r2 = AND(LE(lo, i2), LE(i2, hi)) if stp is ONE else AND(LE(lo, i2), LE(i2, hi), EQ(mod(sub(i2, lo), stp), ZERO))
            earlier = LE(add(i2, stp), i) if not rev else LT(i, i2)

            def clash(rd, binds):
                for w in ws:
                    m = {i: i2}
                    hy = [r2, earlier]
                    for bb, l, h, q in w[0]:
                        nb = fresh("b", "I")
                        m[bb] = nb
                        l2, h2 = subst(l, m), subst(h, m)
                        hy += [LE(l2, nb), LE(nb, h2)]
                    ctx.push(AND(*hy))
                    for bb, l, h, q in binds:
                        ctx.assume(AND(LE(l, bb), LE(bb, h)))
                    try:
                        coll = AND(subst(w[1], m), *[EQ(x, subst(c, m)) for x, c in zip(rd, w[2])])
                        ok = coll is FALSE or ctx.entails(NOT(coll)) or radix_disjoint(coll, ctx)
                    finally:
                        ctx.pop()
                    s.obl += 1
                    if not ok:
                        return w
                return None
            idxs, seen = {}, set()
            for k2, ws2 in ARR.items():
                found = set()
                for w in ws2 or ():
                    outer = tuple((bb, l, h) + tuple(x) for bb, l, h, *x in w[0])
                    seen = set()
                    for n, x in enumerate(w[0]):
                        for t in x[1:3]:
                            collect_reads(t, b, found, seen, outer[:n])
                    seen = set()
                    for t in [w[3], w[1]] + list(w[2]):
                        collect_reads(t, b, found, seen, outer)
                for x in found:
                    idxs.setdefault(x, k2)
            for (rd, binds), k2 in idxs.items():
                w = clash(rd, binds)
                if w is not None:
                    raise Carried(k2, "loop-carried dependence on array %s at %s (read %s, write %s)" % (k, where, rd, w[2]))
            for src in (final, scal):
                for q in list(src):
                    if src is scal and q not in pending:
                        continue
                    rds = set()
                    t = norm(src[q])
                    if b not in troots(t):
                        continue
                    collect_reads(t, b, rds, set())
                    if any((rd, bn) not in idxs and clash(rd, bn) is not None for rd, bn in rds):
                        if lsym[q] in livescal():
                            raise Unsupported("loop-carried dependence on array %s through scalar %s at %s" % (k, q, where))
                        final[q] = fresh("havoc:" + q, lsym[q].sort)
                        if q in pending:
                            pending.remove(q)
                        s.notes.append("scalar %s havoced after loop at %s" % (q, where))
            bmap[b] = st.store[k]
        # now substitute bases
        for k, ws in ARR.items():
            for w in ws or ():
                w[0] = tuple((b, norm(l), norm(h), norm(q)) for b, l, h, q in w[0])
                w[1], w[2], w[3] = norm(w[1]), [norm(x) for x in w[2]], norm(w[3])
        # scalars that waited for arrays
        progress = True
        for k in list(pending):
            scal[k] = norm(scal[k])
        while pending and progress:
            progress = False
            for k in list(pending):
                y = lsym[k]
                f = norm(scal[k])
                d = deps(f)
                s0 = st.store[k]
                if not d:
                    cmap[y] = ite(EQ(i, first), s0, subst(f, {i: prev}))
                    final[k] = ite(nonempty, subst(f, {i: last_}), s0)
                elif d <= {y}:
                    r = s.recur(k, y, f, s0, i, lo, hi, stp, deps, rev, first, last_, nonempty)
                    if r is None:
                        continue
                    cmap[y], final[k] = r
                else:
                    continue
                pending.remove(k)
                progress = True
        if pending:
            usedleft = set()
            for ws in ARR.values():
                for w in ws or ():
                    for t in [w[3], w[1]] + list(w[2]):
                        usedleft |= deps(norm(t))
            for k in pending:
                if lsym[k] in usedleft:
                    raise Unsupported("unsummarised loop-carried scalar %s at %s" % (k, where))
                final[k] = fresh("havoc:" + k, lsym[k].sort)
                s.notes.append("scalar %s havoced after loop at %s" % (k, where))
            for k in list(final):
                if deps(norm(final[k])):
                    final[k] = fresh("havoc:" + k, lsym[k].sort)
        for k, ws in ARR.items():
            for w in ws or ():
                w[0] = tuple((b, norm(l), norm(h), norm(q)) for b, l, h, q in w[0])
                w[1], w[2], w[3] = norm(w[1]), [norm(x) for x in w[2]], norm(w[3])
                for t in [w[3], w[1]] + list(w[2]):
                    if deps(t):
                        raise Unsupported("unresolved loop dependence at %s" % where)
        # ---- final values
        for k, v in final.items():
            v = norm(v)
            st.store[k] = v
        for k, v in newkeys.items():
            if isinstance(v, T):
                st.store[k] = fresh("after:" + k, v.sort)
            elif isinstance(v, Content):
                st.store[k] = fresh_base("after:" + k, v.sort)
            else:
                st.store[k] = v
        for k, ws in ARR.items():
            old = st.store[k]
            if ws is None:
                st.store[k] = fresh_base("after:" + k, old.sort)
                continue
            # loop-invariant written locations: only last iteration matters for 'set'
            if acc.get(k):
                c = old
                for w in ws:
                    c = s.addw(c, i, lo, hi, stp, w, "add")
                st.store[k] = c
                continue
            # set-type: order obligations between iterations
            if not s.orderable(ws, i, lo, hi, stp, rev, first, last_):
                st.store[k] = fresh_base("after:" + k, old.sort)
                s.notes.append("array %s not summarisable at %s (havoced)" % (k, where))
                continue
            c = old
            for n, w in enumerate(ws):
                if w[4] == "add":
                    # needs read of the current content: convert
                    # value = content-before + delta ; content before in the same iteration
                    fulld = i in idxfree(w)
                    if all(x[4] == "add" for x in ws):
                        c = s.addw(c, i, lo, hi, stp, w, "add")
                    else:
                        c = s.addw(c, i, lo, hi, stp, w, "add")
                else:
                    c = s.addw(c, i, lo, hi, stp, w, "set", last_, nonempty)
            st.store[k] = c

    def addw(s, c, i, lo, hi, stp, w, mode, last_=None, nonempty=None):
        binders, guard, idx, v, _, _ = w
        dep_idx = i in idxfree(w)
        if mode == "set" and not dep_idx:
            m = {i: last_}
            return cwrite(c, [subst(x, m) for x in idx], subst(v, m), "set", tuple((b, subst(l, m), subst(h, m), q) for b, l, h, q in binders), AND(nonempty, subst(guard, m)))
        bs = ((i, lo, hi, stp),) + tuple(binders)
        # binder symbols must be globally unique per write: rename
        m = {}
        nb = []
        for b, l, h, q in bs:
            y = fresh("b", "I")
            nb.append((y, subst(l, m), subst(h, m), subst(q, m)))
            m[b] = y
        idx2, v2, g2 = [subst(x, m) for x in idx], subst(v, m), subst(guard, m)
        nb, idx2, v2, g2 = fuse_binders(nb, idx2, v2, g2)
        return cwrite(c, idx2, v2, mode, tuple(nb), g2)

    def orderable(s, ws, i, lo, hi, stp, rev, first, last_):
        """writes of different iterations never hit the same element in the wrong order"""
        ctx = s.ctx
        i2 = fresh("i", "I")
        r2 = AND(LE(lo, i2), LE(i2, hi)) if stp is ONE else AND(LE(lo, i2), LE(i2, hi), EQ(mod(sub(i2, lo), stp), ZERO))
        for a in range(len(ws)):
            for b in range(a, len(ws)):
                # earlier iteration i executes write b, later iteration i2 executes write a (a<=b): chain order puts a before b
                wa, wb = ws[a], ws[b]
                da, db = i in idxfree(wa), i in idxfree(wb)
                if not da and not db and a == b and i not in free(wa[1]):
                    continue
                if wa[4] == "add" and wb[4] == "add":
                    continue
                m = {i: i2}
                hy = [r2, LE(add(i, stp), i2) if not rev else LT(i2, i)]
                for bb, l, h, q in wa[0]:
                    nb = fresh("b", "I")
                    m[bb] = nb
                    hy += [LE(subst(l, m), nb), LE(nb, subst(h, m))]
                for bb, l, h, q in wb[0]:
                    hy += [LE(l, bb), LE(bb, h)]
                ctx.push(AND(*hy))
                try:
                    coll = AND(subst(wa[1], m), wb[1], *[EQ(subst(x, m), y) for x, y in zip(wa[2], wb[2])])
                    ok = coll is FALSE or ctx.entails(NOT(coll)) or radix_disjoint(coll, ctx)
                finally:
                    ctx.pop()
                s.obl += 1
                if not ok:
                    return False
        return True

    def recur(s, k, y, f, s0, i, lo, hi, stp, deps, rev, first, last_, nonempty):
        """closed form for y' = f(y, i)"""
        if f.sort == "B":
            # flag := flag or c(i)   /  flag and c(i)
            f1, f0 = subst(f, {y: TRUE}), subst(f, {y: FALSE})
            return None
        # split ite
        d = lin_in(f, y)
        if d is None:
            return None
        if y in free(d) or deps(d):
            return None
        if stp is not ONE:
            if i not in free(d):
                n = idiv(sub(i, lo), stp)
                cf = add(s0, mul(d, n))
                cnt = add(idiv(sub(hi, lo), stp), ONE)
                return cf, ite(nonempty, add(s0, mul(d, cnt)), s0)
            j = fresh("s", "I")
            dj = subst(d, {i: j})
            tot = sum_delta(j, lo, hi, stp, dj)
            return app("partial", y), add(s0, tot)
        if i not in free(d):
            n = sub(i, lo) if not rev else sub(hi, i)
            return add(s0, mul(d, n)), add(s0, mul(d, tmax(ZERO, add(hi, -lo, ONE))))
        j = fresh("s", "I")
        dj = subst(d, {i: j})
        part = sum_delta(j, lo, sub(i, ONE), ONE, dj) if not rev else sum_delta(j, add(i, ONE), hi, ONE, dj)
        return add(s0, part), add(s0, sum_delta(j, lo, hi, ONE, dj))

    def s_while(s, x, fr, st):
        h = s.opts.get("while_hook")
        if h is not None:
            if h(s, x, fr, st):
                return
        raise Unsupported("DO WHILE without a loop contract")


def idxfree(w):
    r = frozenset()
    for x in w[2]:
        r |= free(x)
    # binders whose ranges depend on i do not make idx depend on i by themselves
    bs = {b[0]: b for b in w[0]}
    for b in w[0]:
        if b[0] in r:
            r |= free(b[1]) | free(b[2])
    return r


def fuse_binders(bs, idx, v, g):
    """(i step L),(n 1..min(L,hi-i+1)) used only as i+n  ->  single binder"""
    for a in range(len(bs)):
        i, lo, hi, st = bs[a]
        if st is ONE:
            continue
        for b in range(a + 1, len(bs)):
            n, nlo, nhi, nst = bs[b]
            r = TM.fuse_cond(i, lo, hi, st, n, nlo, nhi, nst)
            if r is None:
                continue
            p = fresh("p", "I")
            m = {n: sub(p, i)}
            others = [x for q, x in enumerate(bs) if q not in (a, b)]
            idx2, v2, g2 = [subst(x, m) for x in idx], subst(v, m), subst(g, m)
            ts = list(idx2) + [v2, g2] + [t for o in others for t in o[1:]]
            if any(i in free(t) for t in ts):
                continue
            return fuse_binders(others[:a] + [(p, r[0], r[1], ONE)] + others[a:], idx2, v2, g2)
    return bs, idx, v, g


def lin_in(f, y):
    """f == y + d ?  returns d"""
    if y not in free(f):
        return None
    if f is y:
        return ZERO
    if f.op == "ite":
        c, a, b = f.args
        if y in free(c):
            return None
        da, db = lin_in(a, y), lin_in(b, y)
        if da is None or db is None:
            return None
        return ite(c, da, db)
    c, d = lin(f)
    tot = Fraction(0)
    parts = [num(c)]
    for t, k in d.items():
        if t is y:
            tot += k
        elif y in free(t):
            if t.op == "ite":
                e = lin_in(t, y)
                if e is None:
                    return None
                tot += k
                parts.append(scale(e, k))
            else:
                return None
        else:
            parts.append(scale(t, k))
    if tot != 1:
        return None
    return add(*parts)


def collect_reads(t, base, out, seen, binds=()):
    """index tuples at which content chains rooted at `base` are read inside t"""
    if base not in troots(t):
        return
    if (t, binds) in seen:
        return
    seen.add((t, binds))
    if t.op == "sum":
        b, lo, hi, st, body = t.args
        for x in (lo, hi, st):
            collect_reads(x, base, out, seen, binds)
        nb = fresh("s", "I")
        collect_reads(subst(body, {b: nb}), base, out, seen, binds + ((nb, lo, hi, st),))
        return
    if t.op == "sel":
        c = t.args[0]
        own_ = False
        rdx = tuple(t.args[1:])
        x = c
        stack = [c]
        while stack:
            x = stack.pop()
            while x.kind == "write":
                if base in (troots(x.val) | troots(x.guard)):
                    bb = binds + tuple(x.binders)
                    collect_reads(x.val, base, out, seen, bb)
                    collect_reads(x.guard, base, out, seen, bb)
                for q in x.idx:
                    if base in troots(q):
                        collect_reads(q, base, out, seen, binds + tuple(x.binders))
                if x.mode != "add" and not x.binders and x.guard is TRUE and tuple(x.idx) == rdx:
                    break                           # the read never reaches below this write
                x = x.prev
            if x.kind == "cite":
                stack += [x.prev, x.alt]
            elif x is base:
                own_ = True
        if own_:
            out.add((tuple(t.args[1:]), binds))
    for x in children(t):
        collect_reads(x, base, out, seen, binds)


def mentions(t, r, seen=None):
    seen = set() if seen is None else seen
    if t is r:
        return True
    if t in seen:
        return False
    seen.add(t)
    return any(mentions(x, r, seen) for x in children(t))


def own(d, c):
    """does d read the array whose chain is c?"""
    b = c.base()
    if b is None:
        return True
    return b in troots(d)


def mergec(c, x, y, o):
    def chain(z):
        ws = []
        while z is not o and z.kind == "write":
            ws.append(z)
            z = z.prev
        return (list(reversed(ws)), z is o)
    wx, okx = chain(x)
    wy, oky = chain(y)
    if not okx or not oky:
        return ccite(c, x, y)
    # common prefix
    r = o
    n = 0
    while n < len(wx) and n < len(wy) and wx[n] is wy[n]:
        r = wx[n]
        n += 1
    wx, wy = wx[n:], wy[n:]
    # same location in both with mode set / add : merge values
    if len(wx) == len(wy) and all(a.mode == b.mode and a.idx == b.idx and a.guard is TRUE and b.guard is TRUE and a.binders == b.binders for a, b in zip(wx, wy)):
        for a, b in zip(wx, wy):
            r = cwrite(r, a.idx, ite(c, a.val, b.val), a.mode, a.binders)
        return r
    for a in wx:
        r = cwrite(r, a.idx, a.val, a.mode, a.binders, AND(c, a.guard))
    for b in wy:
        r = cwrite(r, b.idx, b.val, b.mode, b.binders, AND(NOT(c), b.guard))
    return r


def clear(st, kind, label):
    st.brk.pop(kind, None)
    if label:
        st.brk.pop(kind + ":" + label, None)


def has_ite(t):
    if t.op == "ite":
        return True
    return any(has_ite(x) for x in children(t))


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def probe(ty):
    if ty == "C":
        return CV(fresh("pr"), fresh("pr"))
    if ty == "B":
        return fresh("pr", "B")
    if ty == "S":
        return Str("")
    return fresh("pr", ty)


def tocv(x):
    return x if isinstance(x, CV) else CV(x, ZERO)


def cplxop(op, a, b):
    if op == "+":
        return CV(add(a.re, b.re), add(a.im, b.im))
    if op == "-":
        return CV(sub(a.re, b.re), sub(a.im, b.im))
    if op == "*":
        return CV(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)))
    if op == "/":
        if b.im is ZERO:
            return CV(div(a.re, b.re), div(a.im, b.re))
        d = add(mul(b.re, b.re), mul(b.im, b.im))
        return CV(div(add(mul(a.re, b.re), mul(a.im, b.im)), d), div(sub(mul(a.im, b.re), mul(a.re, b.im)), d))
    if op == "**":
        if isinstance(b, T) and isnum(b):
            n = int(val(b))
            r = CV(ONE, ZERO)
            for _ in range(abs(n)):
                r = cplxop("*", r, a)
            return r if n >= 0 else cplxop("/", CV(ONE, ZERO), r)
    raise Unsupported("complex " + op)


def radix_disjoint(coll, ctx):
    from prove import radix_split
    c2 = radix_split(coll, ctx)
    if c2 is coll:
        return False
    return c2 is FALSE or ctx.entails(NOT(c2))
