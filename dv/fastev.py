"""terms compiled to Python source over machine floats: evaluates contracts quickly on concrete states (same semantics as prove.Env)"""
import math
from term import *


class NoFast(Exception):
    pass


def _idiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def _nint(v):
    return int(math.floor(v + .5)) if v >= 0 else -int(math.floor(.5 - v))


def _trunc(v):
    return int(math.floor(v)) if v >= 0 else -int(math.floor(-v))


FUN = dict(exp=math.exp, log=math.log, sin=math.sin, cos=math.cos, tan=math.tan, asin=math.asin, acos=math.acos, atan=math.atan,
           tanh=math.tanh, sinh=math.sinh, cosh=math.cosh, gamma=math.gamma, log10=math.log10, atan2=math.atan2, pow=math.pow)


class Gen:
    def __init__(s, env):
        s.env = env
        s.lines = []
        s.n = 0
        s.syms = {}
        s.ns = dict(_f=FUN, _sqrt=math.sqrt, _floor=math.floor, _nint=_nint, _trunc=_trunc, _idiv=_idiv)
        s.rd = {}
        s.bound = {}

    def new(s):
        s.n += 1
        if s.n > 200000:
            raise NoFast("too large")
        return "v%d" % s.n

    def out(s, ind, x):
        s.lines.append("  " * ind + x)

    def const(s, v):
        return repr(int(v)) if v.denominator == 1 else repr(v.numerator / v.denominator)

    def reader(s, name):
        if name not in s.rd:
            s.rd[name] = "_r%d" % len(s.rd)
        return s.rd[name]

    def emit(s, t, done, ind):
        r = done.get(t)
        if r is not None:
            return r
        r = s.emit1(t, done, ind)
        done[t] = r
        return r

    def emit1(s, t, done, ind):
        o = t.op
        if o == "num":
            return s.const(t.args[0])
        if o == "true":
            return "True"
        if o == "false":
            return "False"
        if o == "sym":
            n = t.args[0]
            if n in s.bound:
                return s.bound[n]
            if n not in s.syms:
                s.syms[n] = ("_s%d" % len(s.syms), t)
            return s.syms[n][0]
        E = lambda x: s.emit(x, done, ind)
        v = s.new()
        P = lambda x: s.out(ind, "%s = %s" % (v, x))
        if o == "add":
            c, its = t.args
            ps = [s.const(c)] if c != 0 or not its else []
            for x, k in its:
                y = E(x)
                ps.append(y if k == 1 else "(%s*%s)" % (s.const(k), y))
            P(" + ".join(ps))
        elif o == "mul":
            up, dn = [], []
            for x, e in t.args:
                y = E(x)
                (up if e > 0 else dn).extend([y] * abs(int(e)) if abs(e) <= 4 else ["%s**%d" % (y, abs(e))])
            P("*".join(up or ["1.0"]) + ("" if not dn else "/(%s)" % "*".join(dn)))
        elif o == "ite":
            c = E(t.args[0])
            s.out(ind, "if %s:" % c)
            a = s.emit(t.args[1], dict(done), ind + 1)
            s.out(ind + 1, "%s = %s" % (v, a))
            s.out(ind, "else:")
            a = s.emit(t.args[2], dict(done), ind + 1)
            s.out(ind + 1, "%s = %s" % (v, a))
        elif o in ("le", "lt", "eq"):
            P("%s %s 0" % (E(t.args[0]), {"le": "<=", "lt": "<", "eq": "=="}[o]))
        elif o == "not":
            P("not %s" % E(t.args[0]))
        elif o == "and":
            i = ind
            d = done
            s.out(ind, "%s = False" % v)
            for q, x in enumerate(t.args):
                y = s.emit(x, d, i)
                s.out(i, "if %s:" % y)
                i += 1
                d = dict(d)
            s.out(i, "%s = True" % v)
            if i > 80:
                raise NoFast("deep")
        elif o in ("sqrt", "floor", "nint", "trunc"):
            P("_%s(%s)" % (o, E(t.args[0])))
        elif o == "idiv":
            P("_idiv(%s, %s)" % (E(t.args[0]), E(t.args[1])))
        elif o == "app":
            n = t.args[0]
            a = [E(x) for x in t.args[1:]]
            if n in s.env.apps:
                k = "_a_" + n
                s.ns[k] = s.env.apps[n]
                P("%s(%s)" % (k, ", ".join(a)))
            elif n in FUN:
                P("_f[%r](%s)" % (n, ", ".join(a)))
            else:
                raise NoFast("app " + n)
        elif o == "sum":
            b, lo, hi, st, body = t.args
            l, h, q = E(lo), E(hi), E(st)
            i = s.new()
            s.out(ind, "%s = 0" % v)
            s.out(ind, "for %s in range(%s, %s + 1, %s):" % (i, l, h, q))
            old = s.bound.get(b.args[0])
            s.bound[b.args[0]] = i
            y = s.emit(body, {k: w for k, w in done.items() if k is not b}, ind + 1)
            if old is None:
                del s.bound[b.args[0]]
            else:
                s.bound[b.args[0]] = old
            s.out(ind + 1, "%s += %s" % (v, y))
        elif o == "sel":
            a = t.args[0]
            if a.kind != "base":
                raise NoFast("sel " + str(a.kind))
            idx = [E(x) for x in t.args[1:]]
            P("%s(%s)" % (s.reader(a.name), ", ".join(idx)))
        else:
            raise NoFast("op " + o)
        return v


def compile_ens(e, env):
    """binder giving function(*J) -> None when the hypotheses do not hold, else (lhs, rhs); raises NoFast"""
    g = Gen(env)
    js = []
    for q, (J, lo, hi) in enumerate(e.forall):
        g.bound[J.args[0]] = "J%d" % q
        js.append("J%d" % q)
    done = {}
    for h in e.hyps:
        y = g.emit(h, done, 1)
        g.out(1, "if not %s: return None" % y)
    l = g.emit(e.lhs, done, 1)
    r = g.emit(e.rhs, done, 1) if e.kind == "eq" else "None"
    g.out(1, "return %s, %s" % (l, r))
    src = "def f(%s):\n" % ", ".join(js) + "\n".join(g.lines)
    if len(src) > 4000000:
        raise NoFast("too large")
    code = compile(src, "<ens>", "exec")

    def bind(env):
        ns = dict(g.ns)
        for n, (k, t) in g.syms.items():
            if n not in env.vals:
                env.sym(t)
            v = env.vals[n]
            ns[k] = v if isinstance(v, (int, bool)) else float(v)
        for n, k in g.rd.items():
            if n not in env.arrays:
                raise NoFast("array " + n)
            f = env.arrays[n]
            ns[k] = getattr(f, "fast", f)
        for n, f in env.apps.items():
            if "_a_" + n in ns:
                ns["_a_" + n] = f
        exec(code, ns)
        return ns["f"]
    return bind
