"""Arithmetic decision context: a stack of hypotheses with z3 as back end (linear by default, opaque nonlinear terms)."""
import z3, time
from term import *

STATS = {"z3_calls": 0, "z3_time": 0.0, "unknown": 0}


class Ctx:
    def __init__(s, nonlinear=False, timeout=3000):
        s.solver = z3.Solver()
        s.solver.set("timeout", timeout)
        s.nl = nonlinear
        s.memo = {}
        s.axioms = []
        s.nax = 0
        s.hyps = []
        s.frames = []
        s.cache = [{}]
        s.axdone = set()
        s.models = []
        s.scales = ()       # positive terms: a comparison that contains one also holds divided by it
        s.scaler = None
        s.prods = None      # integer products seen, by factor (when a dict: ordering lemmas are added)

    # ---- translation
    def tr(s, t):
        r = s.memo.get(t)
        if r is None:
            r = s.memo[t] = s._tr(t)
        return r

    def real(s, t):
        x = s.tr(t)
        return z3.ToReal(x) if z3.is_int(x) else x

    def _tr(s, t):
        o = t.op
        if o == "num":
            v = t.args[0]
            return z3.IntVal(int(v)) if v.denominator == 1 else z3.RealVal(str(v))
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o == "sym":
            n = "s_%s" % t.args[0]
            return z3.Int(n) if t.sort == "I" else z3.Bool(n) if t.sort == "B" else z3.Real(n)
        if o == "add":
            c, its = t.args
            if t.sort == "I":
                return z3.Sum([z3.IntVal(int(c))] + [(s.tr(x) if k == 1 else z3.IntVal(int(k)) * s.tr(x)) for x, k in its])
            return z3.Sum([z3.RealVal(str(c))] + [(s.real(x) if k == 1 else z3.RealVal(str(k)) * s.real(x)) for x, k in its])
        if o == "mul" and s.nl:
            r = None
            for x, e in t.args:
                for _ in range(abs(e)):
                    y = s.tr(x) if t.sort == "I" else s.real(x)
                    r = (y if e > 0 else 1 / y) if r is None else (r * y if e > 0 else r / y)
            return r
        if o == "ite":
            a, b = t.args[1], t.args[2]
            if t.sort == "I":
                return z3.If(s.tr(t.args[0]), s.tr(a), s.tr(b))
            if t.sort == "B":
                return z3.If(s.tr(t.args[0]), s.tr(a), s.tr(b))
            return z3.If(s.tr(t.args[0]), s.real(a), s.real(b))
        if o in ("le", "lt", "eq"):
            x = t.args[0]
            y = s.tr(x)
            z = z3.IntVal(0) if z3.is_int(y) else z3.RealVal(0)
            if s.scales and x.sort == "R":
                for p in s.scales:
                    if p in free(x) or len(free(x)) < 8:
                        w = s.scaler(div(x, p))
                        if size(w) < 200 and w is not x and not any(y.op in ("lt", "le", "eq") for y in (w,)):
                            sc, s.scales = s.scales, ()
                            wz, pz = s.real(w), s.real(p)
                            s.scales = sc
                            zero = z3.RealVal(0)
                            yr = s.real(x)
                            s.axioms.append(z3.Implies(pz > 0, z3.And((yr <= 0) == (wz <= 0), (yr < 0) == (wz < 0))))
            return y <= z if o == "le" else y < z if o == "lt" else y == z
        if o == "and":
            return z3.And([s.tr(x) for x in t.args])
        if o == "not":
            return z3.Not(s.tr(t.args[0]))
        n = "%s_%d" % (o, t.id)
        v = z3.Int(n) if t.sort == "I" else z3.Bool(n) if t.sort == "B" else z3.Real(n)
        s.memo[t] = v
        if o == "floor":
            x = s.real(t.args[0])
            s.axioms.append(z3.And(z3.ToReal(v) <= x, x < z3.ToReal(v) + 1))
        elif o == "nint":
            x = s.real(t.args[0])
            s.axioms.append(z3.And(z3.ToReal(v) - z3.Q(1, 2) <= x, x <= z3.ToReal(v) + z3.Q(1, 2)))
        elif o == "trunc":
            x = s.real(t.args[0])
            s.axioms.append(z3.If(x >= 0, z3.And(z3.ToReal(v) <= x, x < z3.ToReal(v) + 1), z3.And(z3.ToReal(v) >= x, x > z3.ToReal(v) - 1)))
        elif o == "idiv" and (t.args[1].op == "num" or s.nl):
            a, b = s.tr(t.args[0]), s.tr(t.args[1])
            ab = z3.If(b >= 0, b, -b)
            aa = z3.If(a >= 0, a, -a)
            q = z3.Int(n + "q")
            s.axioms.append(z3.And(q * ab <= aa, aa < q * ab + ab, q >= 0, v == z3.If((a >= 0) == (b > 0), q, -q)))
        elif o == "idiv":
            a, b = s.tr(t.args[0]), s.tr(t.args[1])
            # weak axioms: nonneg / positive
            s.axioms.append(z3.Implies(z3.And(a >= 0, b >= 1), z3.And(v >= 0, v <= a)))
            m = mul(t.args[1], t)
            mm = s.tr(m)
            s.axioms.append(z3.Implies(z3.And(a >= 0, b >= 1), z3.And(mm <= a, a <= mm + b - 1)))
        elif o == "sqrt":
            s.axioms.append(v >= 0)
            if s.nl:
                x = s.real(t.args[0])
                s.axioms.append(z3.Implies(x >= 0, v * v == x))
                s.axioms.append(z3.Implies(x > 0, v > 0))
        elif o == "app" and t.args[0] == "exp":
            s.axioms.append(v > 0)
        elif o == "mul":
            # opaque product; a square is nonnegative
            if all(e % 2 == 0 or x.op == "sqrt" or (x.op == "app" and x.args[0] == "exp") for x, e in t.args):
                s.axioms.append(v >= 0)
            if t.sort == "I" and len(t.args) == 2 and all(e == 1 for _, e in t.args):
                a, b = [s.tr(x) for x, _ in t.args]
                s.axioms.append(z3.Implies(z3.And(a >= 0, b >= 0), v >= 0))
                s.axioms.append(z3.Implies(z3.And(a >= 1, b >= 1), z3.And(v >= a, v >= b)))
                # products sharing a factor are ordered as their other factors
                if s.prods is not None:
                    for f, g in ((0, 1), (1, 0)):
                        fa, ot = t.args[f][0], t.args[g][0]
                        L = s.prods.setdefault(fa, [])
                        z, y = s.tr(fa), s.tr(ot)
                        for y2, v2 in L[-10:]:
                            s.axioms.append(z3.Implies(z3.And(z >= 0, y + 1 <= y2), v + z <= v2))
                            s.axioms.append(z3.Implies(z3.And(z >= 0, y2 + 1 <= y), v2 + z <= v))
                            s.axioms.append(z3.Implies(y == y2, v == v2))
                        L.append((y, v))
        return v

    # ---- stack
    def push(s, h=None):
        s.solver.push()
        s.frames.append((s.nax, len(s.hyps), s.models))
        s.cache.append({})
        if h is not None:
            s.assume(h)

    def pop(s):
        s.solver.pop()
        s.nax, n, s.models = s.frames.pop()
        del s.hyps[n:]
        s.cache.pop()

    def assume(s, h):
        for x in (h.args if h.op == "and" else (h,)):
            if x is TRUE:
                continue
            s.hyps.append(x)
            s.solver.add(s.tr(x))
        s.cache[-1] = {}
        s.models = []

    def _flush(s):
        for a in s.axioms[s.nax:]:
            s.solver.add(a)
        s.nax = len(s.axioms)

    def sat(s, extra=None):
        """'sat'/'unsat'/'unknown' of hyps (+extra)"""
        t0 = time.time()
        STATS["z3_calls"] += 1
        e = s.tr(extra) if extra is not None else None
        s._flush()
        if e is not None:
            s.solver.push()
            s.solver.add(e)
            r = str(s.solver.check())
            s.solver.pop()
        else:
            r = str(s.solver.check())
        STATS["z3_time"] += time.time() - t0
        if r == "unknown":
            STATS["unknown"] += 1
        return r

    def decide(s, c):
        """True/False when entailed by hypotheses, else None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        r = s.cache[-1].get(c, 0)
        if r != 0:
            return r
        # inherited decided facts
        for m in s.cache[:-1]:
            q = m.get(c)
            if q is not None:
                return q
        r = None
        if s.sat(NOT(c)) == "unsat":
            r = True
        elif s.sat(c) == "unsat":
            r = False
        s.cache[-1][c] = r
        return r

    def entails(s, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return s.sat() == "unsat"
        if c.op == "and":
            return all(s.entails(x) for x in c.args)
        r = s.cache[-1].get(c, 0)
        if r != 0 and r is not None:
            return r is True
        if any(m.get(c) for m in s.cache):
            return True
        k = ("e", c)
        if k in s.cache[-1]:
            return s.cache[-1][k]
        ok = s.sat(NOT(c)) == "unsat"
        s.cache[-1][k] = ok
        return ok

    def feasible(s):
        return s.sat() != "unsat"

    def entails_fresh(s, c):
        """as entails, with a fresh non-incremental solver (used where the incremental one may have given up)"""
        if s.entails(c):
            return True
        n = Ctx(timeout=6000)
        for h in s.hyps:
            n.assume(h)
        return n.sat(NOT(c)) == "unsat"
