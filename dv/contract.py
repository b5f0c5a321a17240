"""Contracts on the real routines: requires / ensures, VC generation, proof, replay of counterexamples on the compiled code."""
import time, random, os, json, ctypes, multiprocessing, traceback, signal
from fractions import Fraction
import numpy as np
import mpmath
import fastev
from term import *
import term as TM
import sx, prove, realcode, ftn, arith
from sx import Exec, Program, State, Frame, View, Unsupported
from prove import prove_zero, Failed, Unknown, Budget, Env, simp
from arith import Ctx

_progs = {}


def program(defs=("FFTW=1",)):
    if defs not in _progs:
        _progs[defs] = Program(defs=defs)
    return _progs[defs]


class Ens:
    def __init__(s, name, kind, lhs, rhs, forall, hyps, atol):
        s.name, s.kind, s.lhs, s.rhs, s.forall, s.hyps, s.atol = name, kind, lhs, rhs, forall, hyps, atol


class Kernel:
    """contract of one routine"""
    def __init__(s, routine, defs=("FFTW=1",), module=None, label=None, budget=150, opts=None, stubs=None, args=None, absent=()):
        s.routine, s.defs, s.module, s.label = routine, defs, module, label or routine
        s.req, s.ens, s.dom, s.arrdom, s.univ, s.modvars = [], [], {}, {}, [], {}
        s.budget, s.opts, s.stubs, s.args, s.absent = budget, opts or {}, stubs or {}, args or {}, absent
        s.consts = {}
        s.bounded_only = None
        s.setup = None
        s.extract = False
        s.samples = 25
        s.arrshape = {}
        s.lemma = None
        s.minreq = True
        s.rtol = 1e-10
        s.skip_replay = None
        s.derive = []
        s.choices = {}
        s.late = set()

    # -- specification language
    def int(s, n, lo=0, hi=8):
        s.dom[n] = ("I", lo, hi)
        return sym(n, "I")

    def real(s, n, lo=-2.0, hi=2.0, choices=None):
        s.dom[n] = ("R", lo, hi)
        if choices:
            s.choices[n] = choices
        return sym(n)

    def bool(s, n):
        s.dom[n] = ("B", 0, 1)
        return sym(n, "B")

    def arr(s, n, lo=-1.0, hi=1.0, gen=None):
        s.arrdom[n] = (lo, hi, gen)
        return lambda *i: rawsel(cbase(n, "R"), [lift(x) for x in i])

    def iarr(s, n, lo=0, hi=5, gen=None):
        s.arrdom[n] = (lo, hi, gen)
        return lambda *i: rawsel(cbase(n, "I"), [lift(x) for x in i])

    def pre(s, n, *i, sort="R"):
        return rawsel(cbase(n, sort), [lift(x) for x in i])

    def post(s, n, *i, sort="R"):
        if not i:
            return sym("post:" + n, sort)
        return rawsel(cbase("post:" + n, sort), [lift(x) for x in i])

    def requires(s, *c):
        s.req += c

    def forall(s, f):
        """universally quantified precondition: f(i)->bool term, instantiated at every index the proof introduces"""
        s.univ.append(f)

    def J(s, n, lo, hi):
        t = sym("J" + n, "I")
        return (t, lift(lo), lift(hi))

    def ensures(s, name, lhs, rhs, forall=(), hyps=(), atol=None):
        s.ens.append(Ens(name, "eq", lift(lhs), lift(rhs), tuple(forall), tuple(hyps), atol))

    def ensures_true(s, name, c, forall=(), hyps=()):
        s.ens.append(Ens(name, "true", c, None, tuple(forall), tuple(hyps), None))


class Outcome:
    def __init__(s, k):
        s.kernel, s.status, s.obl, s.fail, s.info, s.time = k, None, [], None, {}, 0.0
        s.hints = []


def install_univ(ctx, k):
    if not k.univ:
        return
    orig = ctx.assume

    def inst(h):
        # every bounded integer symbol introduced gets the universal facts
        for v in free(h):
            if v.sort == "I" and v.op == "sym" and v not in seen and (v.args[0][0] in "sbip@J") and "!" in v.args[0]:
                seen.add(v)
                for f in k.univ:
                    orig(f(v))
    seen = set()

    def assume(h):
        orig(h)
        n = len(seen)
        inst(h)
    ctx.assume = assume
    pop, push = ctx.pop, ctx.push
    saved = []

    def push2(*a):
        saved.append(set(seen))
        return push(*a)

    def pop2():
        pop()
        seen.clear()
        seen.update(saved.pop())
    ctx.pop, ctx.push = pop2, push2


def indexed_by(e, J):
    """arrays whose entry values the clause reads at index J"""
    r = set()
    for t in (e.lhs, e.rhs) + e.hyps:
        if t is not None:
            for x in prove.subterms(t):
                if x.op == "sel" and x.args[0].kind == "base" and any(a is J for a in x.args[1:]):
                    r.add(x.args[0].name)
                    r.add(x.args[0].name.replace("post:", ""))
    if any(n.startswith("post:") for n in r):
        r |= {b.name for t in (e.lhs, e.rhs) if t is not None for b in troots(t)}
    return r


def verify(k, prog=None):
    """generate and discharge the obligations of one kernel; returns Outcome"""
    t0 = time.time()
    o = Outcome(k)
    z0 = arith.STATS["z3_time"], arith.STATS["z3_calls"]
    prove.PST.update(splits=0, leaves=0, polys=0)
    try:
        if k.bounded_only:
            raise Unsupported(k.bounded_only)
        prog = prog or program(k.defs)
        if k.routine not in prog.units:
            raise Unsupported("routine %s not found" % k.routine)
        opts = dict(k.opts)
        opts["absent"] = k.absent
        ex = Exec(prog, stubs=k.stubs, consts=k.consts, opts=opts)
        ctx = ex.ctx
        install_univ(ctx, k)
        for r in k.req:
            ctx.assume(r)
        if ctx.sat() == "unsat":
            o.status = "vacuous"
            o.info["why"] = "requires unsatisfiable"
            return o
        st = ex.run(k.routine, k.args)
        o.info["loops"] = ex.nloops
        o.info["inlined"] = sorted(ex.inlined)
        o.info["loop_obligations"] = ex.obl
        o.info["notes"] = ex.notes[:20]
        m, cm = {}, {}
        names = set()
        for e in k.ens:
            for t in (e.lhs, e.rhs) + e.hyps:
                if t is None:
                    continue
                for b in troots(t):
                    if b.name.startswith("post:"):
                        names.add(b.name[5:])
                for f in free(t):
                    if f.args[0].startswith("post:"):
                        names.add(f.args[0][5:])
        for n in names:
            v = st.store.get(n)
            w = ex.top.vars.get(n)
            if isinstance(v, Content) or (v is None and w is not None and w.dims):
                for srt in ("R", "I", "B"):
                    if ("post:" + n, srt) in TM._bases:
                        cm[cbase("post:" + n, srt)] = v if v is not None else cbase(n, srt)
            elif isinstance(v, T):
                for srt in ("R", "I", "B"):
                    m[sym("post:" + n, srt)] = v
            else:
                raise Unsupported("post state of %s unknown" % n)
        dead = st.brk.get("stop", FALSE)
        for e in k.ens:
            ctx.push()
            t1 = time.time()
            try:
                for J, lo, hi in e.forall:
                    ctx.assume(AND(LE(lo, J), LE(J, hi)))
                    for f in k.univ:
                        h = f(J)
                        if indexed_by(e, J) & {b.name for b in troots(h)}:
                            ctx.assume(h)
                for h in e.hyps:
                    ctx.assume(subst(h, m, cm))
                if dead is not FALSE:
                    ctx.assume(NOT(dead))
                if ctx.sat() == "unsat":
                    o.status = "vacuous"
                    o.info["why"] = "hypotheses of %s unsatisfiable" % e.name
                    return o
                B = Budget(k.budget)
                if e.kind == "eq":
                    n = prove_zero(sub(subst(e.lhs, m, cm), subst(e.rhs, m, cm)), ctx, B)
                else:
                    n = prove_true(subst(e.lhs, m, cm), ctx, B)
                o.obl.append(dict(name="%s/%s" % (k.label, e.name), status="discharged", cases=n, seconds=round(time.time() - t1, 3)))
            except Failed as f:
                o.obl.append(dict(name="%s/%s" % (k.label, e.name), status="failed", seconds=round(time.time() - t1, 3),
                                  residual=show(f.term, 600) if f.term is not None else str(f), numeric=resid_numeric(f)))
                o.hints += make_hints(k, f)
            except Unknown as u:
                o.obl.append(dict(name="%s/%s" % (k.label, e.name), status="unknown", why=str(u), seconds=round(time.time() - t1, 3)))
            finally:
                ctx.pop()
        o.status = "proved" if o.obl and all(x["status"] == "discharged" for x in o.obl) else ("failed" if any(x["status"] == "failed" for x in o.obl) else "unknown")
    except (Unsupported, NotResolved) as e:
        o.status = "unsupported"
        o.info["why"] = str(e)
    except RecursionError:
        o.status = "unsupported"
        o.info["why"] = "recursion limit"
    except Unknown as e:
        o.status = "unknown"
        o.info["why"] = str(e)
    except Exception as e:
        o.status = "unsupported"
        o.info["why"] = "internal: " + "".join(traceback.format_exception_only(type(e), e)).strip() + traceback.format_exc()[-700:]
    finally:
        o.time = time.time() - t0
        o.info["z3_time"] = round(arith.STATS["z3_time"] - z0[0], 3)
        o.info["z3_calls"] = arith.STATS["z3_calls"] - z0[1]
        o.info["splits"] = prove.PST["splits"]
        o.info["leaves"] = prove.PST["leaves"]
        o.info["polys"] = prove.PST["polys"]
    return o


OPAQUE = ("after:", "havoc", "uninit", "partial", "loopend", "loop:", "call:", "?")


def opaque(t, seen=None):
    """does the term mention state the executor abstracted (so that a non-zero residual proves nothing)?"""
    for f in free(t):
        if any(f.args[0].startswith(x) or ("!" + x) in f.args[0] for x in OPAQUE):
            return True
    for b in troots(t):
        if any(b.name.startswith(x) for x in OPAQUE):
            return True
    return False


def make_hints(k, f, n=6):
    """entry values taken from the solver's model of the failing path"""
    import z3
    out = []
    try:
        c = Ctx(nonlinear=True, timeout=2000)
        for h in f.hyps or ():
            c.assume(h)
        rngs = []
        for nm, (ty, lo, hi) in k.dom.items():
            if ty in "IR":
                v = sym(nm, ty)
                rngs.append(AND(LE(lift(lo), v), LE(v, lift(hi))))
        c._flush()
        sv = c.solver
        goal = None
        if f.term is not None:
            try:
                x = c.tr(f.term)
                c._flush()
                goal = x != 0
            except Exception:
                pass
        sv.set("timeout", 2000)
        t0 = time.time()
        for r in rngs:
            if time.time() - t0 > 6:
                break
            sv.push()
            sv.add(c.tr(r))
            c._flush()
            if sv.check() == z3.unsat:
                sv.pop()
        sels = {}

        def walk(t, seen):
            if t in seen:
                return
            seen.add(t)
            if t.op == "sel" and t.args[0].kind == "base":
                sels[t] = 1
            for y in children(t):
                walk(y, seen)
        seen = set()
        for h in f.hyps or ():
            walk(h, seen)
        rnd = random.Random(7)
        t0 = time.time()
        for q in range(n):
            if time.time() - t0 > 12:
                break
            sv.push()
            if goal is not None and q % 2 == 0:
                sv.add(goal)
            if q >= 2:
                for nm, (ty, lo, hi) in k.dom.items():
                    if ty == "I" and rnd.random() < .4:
                        sv.push()
                        sv.add(z3.Int("s_" + nm) == rnd.randint(lo, hi))
                        if sv.check() != z3.sat:
                            sv.pop()
            if sv.check() == z3.sat:
                md = sv.model()

                def val(t):
                    x = md.eval(c.tr(t), model_completion=False)
                    if z3.is_int_value(x):
                        return x.as_long()
                    if z3.is_rational_value(x):
                        return float(x.as_fraction())
                    if z3.is_algebraic_value(x):
                        return float(x.approx(20).as_fraction())
                    if z3.is_true(x):
                        return True
                    if z3.is_false(x):
                        return False
                    return None
                hv, ha = {}, {}
                for nm, (ty, lo, hi) in k.dom.items():
                    v = val(sym(nm, ty))
                    if v is not None:
                        hv[nm] = v
                for t in sels:
                    v = val(t)
                    idx = tuple(val(i) for i in t.args[1:])
                    if v is not None and all(isinstance(i, int) for i in idx):
                        ha.setdefault(t.args[0].name, []).append((idx, v))
                out.append((hv, ha))
            while sv.num_scopes() > 0 and False:
                pass
            sv.pop()
    except Exception:
        pass
    return out


def resid_numeric(f):
    """is the failing residual numerically non-zero somewhere its hypotheses hold? True/False/None"""
    if f.term is None or not getattr(f, "definite", True):
        return None
    if opaque(f.term) or any(opaque(h) for h in f.hyps or ()):
        return None
    try:
        ok = 0
        t0 = time.time()
        with mpmath.workdps(60):
            for sd in range(400):
                if time.time() - t0 > 10:
                    break
                e = Env(seed=sd, scale=[1, 1, 1000, .01, 1e8][sd % 5])
                try:
                    if all(e.ev(h) for h in f.hyps or ()):
                        ok += 1
                        v = e.ev(f.term)
                        if abs(v) > mpmath.mpf(10) ** -35:
                            return True
                        if ok > 20:
                            return False
                except (ZeroDivisionError, ValueError, TypeError, OverflowError):
                    continue
    except Exception:
        pass
    return None


def prove_true(c, ctx, budget, depth=0):
    budget.check()
    c = simp(c, ctx)
    if c is TRUE:
        return 1
    if c.op == "and":
        return sum(prove_true(x, ctx, budget, depth) for x in c.args)
    if c is FALSE:
        if not ctx.feasible():
            return 1
        raise Failed("false", None, hyps=list(ctx.hyps))
    if c.op == "eq" and not c.args[0].sort == "B":
        try:
            return prove_zero(c.args[0], ctx, budget)
        except Failed as f:
            pass
    if ctx.entails(c):
        return 1
    atoms, order = {}, []
    prove.atoms_of(c, atoms, set(), order)
    bools = []
    if c.op == "not" and c.args[0].op == "and":
        bools = [a for a in c.args[0].args if a.op in ("not", "eq", "le", "lt", "sym", "and")]
    if not order and c.op == "not" and c.args[0].op == "and":
        xs = c.args[0].args
        # or of negations: assume all but one
        nested = [x for x in xs if x.op == "not" and x.args[0].op == "and"]
        goals = [x for x in xs if x not in nested]
        if goals and len(xs) > 1:
            last = goals[-1]
            ctx.push(AND(*[x for x in xs if x is not last]))
            try:
                if not ctx.feasible():
                    return 1
                return prove_true(NOT(last), ctx, budget, depth + 1)
            except Failed:
                pass
            finally:
                ctx.pop()
    if order and depth < 60:
        a = order[0]
        n = 0
        for h in (a, NOT(a)):
            ctx.push(h)
            try:
                if ctx.feasible():
                    n += prove_true(c, ctx, budget, depth + 1)
            finally:
                ctx.pop()
        return n
    if nl_entails(ctx, c):
        return 1
    raise Failed("not entailed: " + show(c, 300), None, hyps=list(ctx.hyps) + [NOT(c)])


def nl_entails(ctx, c, timeout=20000):
    import z3
    n = Ctx(nonlinear=True, timeout=timeout)
    for h in ctx.hyps:
        n.assume(h)
    r = n.sat(NOT(c))
    return r == "unsat"


# ------------------------------------------------------------------ replay on the compiled code
class Replayer:
    def __init__(s, k, prog=None):
        s.k = k
        s.prog = prog or program(k.defs)
        s.u = s.prog.units.get(k.routine)
        if s.u is None:
            raise Unsupported("routine %s not found" % k.routine)
        x = realcode.extract(s.prog, k.routine) if k.extract and s.u.parent is None else None
        if x is not None:
            s.files = x[0]
            s.so = realcode.build(defs=k.defs, files=s.files, extra=(x[1],))
        else:
            s.files = realcode.closure(s.prog, [k.routine])
            s.so = realcode.build(defs=k.defs, files=s.files)
        s.lib = realcode.load(s.so)
        mod = s.u.parent.name if s.u.parent is not None else None
        s.fn = realcode.fsym(s.lib, k.routine, mod)

    def scalar_mod(s, name, ty):
        for m in s.prog.modules.values():
            if name in m.decls:
                ct = {"I": ctypes.c_int64, "R": ctypes.c_double, "B": ctypes.c_int64}[ty]
                d = m.decls[name]
                if ty == "I" and (d.kind in ("isp",) or d.kind is None):
                    ct = ctypes.c_int32
                return ct.in_dll(s.lib, "__%s_MOD_%s" % (m.name, name))
        raise Unsupported("module variable " + name)

    def sample(s, seed, hint=None):
        """concrete entry state satisfying requires, or None"""
        k = s.k
        rnd = random.Random(seed)
        for _ in range(200 if hint is None else 20):
            vals = {}
            for n, (ty, lo, hi) in k.dom.items():
                if ty == "I":
                    vals[n] = rnd.randint(lo, hi)
                elif ty == "B":
                    vals[n] = rnd.random() < .5
                elif n in k.choices:
                    vals[n] = rnd.choice(k.choices[n])
                else:
                    vals[n] = rnd.choice([rnd.uniform(lo, hi), round(rnd.uniform(lo, hi), 1)])
            for n, f in k.derive:
                vals[n] = f(vals, rnd)
            if hint is not None:
                for n, v in hint[0].items():
                    ty = k.dom[n][0]
                    vals[n] = int(v) if ty == "I" else bool(v) if ty == "B" else float(v)
            e = Env(seed=seed, vals=dict(vals))
            try:
                if all(e.ev(r) for r in k.req if not troots(r)):
                    return vals, rnd
            except Exception:
                continue
        return None

    def run(s, seed, hint=None):
        k = s.k
        sm = s.sample(seed, hint)
        if sm is None:
            return None
        vals, rnd = sm
        arrays, keep, args = {}, [], []
        env = Env(seed=seed, vals=dict(vals), arrays={})
        ex = Exec(s.prog, consts=k.consts, opts=dict(k.opts, absent=k.absent))
        u, st, fr = ex.start(k.routine, {n: v for n, v in k.args.items()})
        for n, t in k.args.items():
            vals[n] = env.ev(lift(t))
            env.vals[n] = vals[n]
        def reader(a, lbs):
            def f(*idx):
                q = tuple(int(i) - l for i, l in zip(idx, lbs))
                if any(x < 0 or x >= n for x, n in zip(q, a.shape)):
                    raise IndexError
                v = a[q]
                return mpmath.mpf(float(v)) if a.dtype == np.float64 else int(v)

            def fast(*idx):
                q = tuple([i - l for i, l in zip(idx, lbs)])
                for x, n in zip(q, a.shape):
                    if x < 0 or x >= n:
                        raise IndexError
                return a.item(*q)
            f.fast = fast
            return f

        def later(n):
            v = fr.vars.get(n)
            return bool(v is not None and v.dims and any(troots(x) for dd in v.dims for x in dd[1:3] if isinstance(x, T)))
        slot = {}
        for n in sorted(s.u.args, key=later):
            args = slot.setdefault(n, [])
            d = s.u.decls[n]
            if n in k.absent:
                args.append(None)
                continue
            if d.dims is None:
                if n not in vals:
                    vals[n] = env.ev(sym(n, sx.TYMAP[d.ty]))
                ty = d.ty
                small = d.kind in ("isp", "sp", "4") or (ty in ("integer", "logical") and d.kind is None)
                ct = {"integer": ctypes.c_int64, "real": ctypes.c_double, "logical": ctypes.c_int64}[ty]
                if small and ty != "real":
                    ct = ctypes.c_int32
                c = ct(int(vals[n]) if ty != "real" else float(vals[n]))
                keep.append((n, c))
                args.append(ctypes.byref(c))
            else:
                v = fr.vars[n]
                lbs, shp = [], []
                over = k.arrshape.get(n)
                for q, dd in enumerate(v.dims):
                    if over is not None:
                        lb, ub = int(env.ev(lift(over[q][0]))), int(env.ev(lift(over[q][1])))
                    else:
                        lb, ub = int(env.ev(dd[1])), int(env.ev(dd[2]))
                    lbs.append(lb)
                    shp.append(max(ub - lb + 1, 0))
                dt = {"real": np.float64, "integer": np.int64, "logical": np.int64}[d.ty]
                if d.ty == "integer" and (d.kind in ("isp", "4") or d.kind is None):
                    dt = np.int32
                a = np.zeros(shp, dtype=dt, order="F")
                lo, hi, gen = k.arrdom.get(n, (-1.0, 1.0, None))
                it = np.nditer(a, flags=["multi_index"], op_flags=["writeonly"]) if a.size else []
                if gen is not None:
                    for idx in np.ndindex(*shp):
                        a[idx] = gen(vals, rnd, tuple(i + l for i, l in zip(idx, lbs)))
                elif a.size:
                    rs = np.random.RandomState(rnd.randint(0, 2 ** 31 - 1))
                    if dt == np.float64 and not (seed % 3):
                        f = rnd.choice([1, .05, 1e-3])
                        lo, hi = (lo * f, hi * f) if lo <= 0 <= hi else (lo, hi)
                    a[...] = (rs.uniform(lo, hi, size=shp) if dt == np.float64 else rs.randint(int(lo), int(hi) + 1, size=shp))
                if hint is not None:
                    for idx, v in hint[1].get(n, ()):
                        q = tuple(i - l for i, l in zip(idx, lbs))
                        if len(q) == a.ndim and all(0 <= x < y for x, y in zip(q, a.shape)):
                            a[q] = v
                arrays[n] = (a, lbs, a.copy(order="F"))
                env.arrays[n] = reader(arrays[n][2], lbs)
                env.memo = {}
                if any(x[1] == ":" for x in d.dims):
                    de = realcode.descriptor(a, lbs)
                    keep.append(de)
                    args.append(ctypes.byref(de))
                else:
                    args.append(ctypes.c_void_p(a.ctypes.data if a.size else np.zeros(1).ctypes.data))
        for n, mv in k.modvars.items():
            ty = k.dom[n][0]
            s.scalar_mod(mv, ty).value = vals[n]
        args = [slot[n][0] for n in s.u.args]
        env.vals.update(vals)
        for r in k.req:
            if troots(r):
                env.memo = {}
                if not env.ev(r):
                    return None
        for n, v in list(env.vals.items()):
            if isinstance(v, float):
                env.vals[n] = mpmath.mpf(v)
        for n, (a, lbs, old) in arrays.items():
            env.arrays[n] = reader(old, lbs)
            env.arrays["post:" + n] = reader(a, lbs)
        s.fn(*args)
        for n, c in [x for x in keep if isinstance(x, tuple)]:
            env.vals["post:" + n] = mpmath.mpf(c.value) if isinstance(c, ctypes.c_double) else c.value
        for n, mv in k.modvars.items():
            env.vals["post:" + n] = s.scalar_mod(mv, k.dom[n][0]).value
        bad = check_ens(k, env)
        return bad, vals, {n: (old.tolist(), lbs) for n, (a, lbs, old) in arrays.items()}


def fast_of(e, env):
    """compiled evaluator of an ensures clause for this state; None when it has to be interpreted"""
    if getattr(e, "slow", False):
        return None
    try:
        if not hasattr(e, "fast"):
            e.fast = fastev.compile_ens(e, env)
        return e.fast(env)
    except (fastev.NoFast, RecursionError, MemoryError, SyntaxError, IndentationError):
        e.slow = True
        return None


def magnitude(env, t, memo=None):
    """size of the terms a value is made of (rounding errors are relative to it, not to a value cancellation made small)"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    go = lambda x: magnitude(env, x, memo)
    v = env.ev(t)
    if isinstance(v, bool):
        r = mpmath.mpf(1)
    elif t.op == "add":
        r = abs(mpmath.mpf(t.args[0].numerator) / t.args[0].denominator) + sum(abs(mpmath.mpf(k.numerator) / k.denominator) * go(x) for x, k in t.args[1])
    elif t.op == "mul":
        r = mpmath.mpf(1)
        for x, e in t.args:
            m = go(x)
            if e > 0:
                r *= m ** e
            else:
                a = abs(mpmath.mpf(env.ev(x)))
                r *= (m / a ** 2 if a else mpmath.inf) ** -e
    elif t.op == "ite":
        r = go(t.args[1] if env.ev(t.args[0]) else t.args[2])
    elif t.op == "sqrt":
        r = mpmath.sqrt(go(t.args[0]))
    elif t.op == "app" and t.sort == "R":
        rel = []
        for x in t.args[1:]:
            a = abs(mpmath.mpf(env.ev(x))) if isinstance(x, T) and x.sort == "R" else 0
            rel.append(go(x) / a if a else mpmath.mpf(1))
        q = 1 + sum(rel)
        if t.args[0] == "exp":
            q *= 1 + abs(env.ev(t.args[1]))
        elif t.args[0] == "pow":
            y, b = abs(mpmath.mpf(env.ev(t.args[2]))), abs(mpmath.mpf(env.ev(t.args[1])))
            q *= 1 + y + (abs(y * mpmath.log(b)) if b else 0)
        r = max(abs(mpmath.mpf(v)), 1 if t.args[0] == "log" else 0) * q
    else:
        r = abs(mpmath.mpf(v))
    memo[t] = r
    return r


def check_ens(k, env):
    import itertools
    bad = []
    s_done = [0]
    for e in k.ens:
        rngs = []
        for J, lo, hi in e.forall:
            rngs.append(range(int(env.ev(lo)), int(env.ev(hi)) + 1))
        rows, scale = [], 0
        saved = dict(env.vals)
        fast = fast_of(e, env)
        for pt in itertools.product(*rngs):
            env.memo = {}
            for (J, lo, hi), v in zip(e.forall, pt):
                env.vals[J.args[0]] = v
            try:
                if fast is not None:
                    v = fast(*pt)
                    if v is None:
                        continue
                    l, r = v
                elif not all(env.ev(h) for h in e.hyps):
                    continue
                elif e.kind == "eq":
                    l, r = env.ev(e.lhs), env.ev(e.rhs)
                else:
                    l = env.ev(e.lhs)
                if e.kind == "eq":
                    rows.append((pt, l, r))
                    s_done[0] += 1
                    if l == l and r == r:
                        scale = max(scale, abs(l), abs(r))
                else:
                    s_done[0] += 1
                    if not l:
                        bad.append((e.name, pt, "false"))
            except (IndexError, ZeroDivisionError, ValueError, OverflowError):
                continue
        env.vals = saved
        env.memo = {}
        rel = getattr(k, "relative", False)
        tol = max(scale * k.rtol, e.atol if e.atol is not None else 0 if rel else mpmath.mpf(10) ** -12)
        for pt, l, r in rows:
            if not (abs(l - r) <= tol):
                if rel and l == l and r == r and abs(l) + abs(r) < mpmath.inf:
                    for (J, lo, hi), v in zip(e.forall, pt):
                        env.vals[J.args[0]] = v
                    env.memo = {}
                    m = magnitude(env, e.lhs) + magnitude(env, e.rhs)
                    env.vals, env.memo = dict(saved), {}
                    if abs(l - r) <= k.rtol * m + mpmath.mpf(10) ** -280:
                        continue
                bad.append((e.name, pt, "got %s, contract says %s" % (mpmath.nstr(l, 17), mpmath.nstr(r, 17))))
    k.evaluated = getattr(k, "evaluated", 0) + s_done[0]
    return bad


def _child(k, seeds, q, tmax, hints=()):
    t0 = time.time()
    n = 0
    try:
        R = Replayer(k)
        plan = [(7 * a + b, h) for a, h in enumerate(hints) for b in range(3)] + [(sd, None) for sd in seeds]
        for sd, h in plan:
            if time.time() - t0 > tmax:
                break
            try:
                r = R.run(sd, h)
            except MemoryError:
                r = None
            if r is None and h is not None:
                continue
            if r is None:
                continue
            n += 1
            bad, vals, arrs = r
            if bad:
                q.put(("bad", n, [(a, list(map(int, b)), str(c)) for a, b, c in bad[:5]], {a: (float(b) if not isinstance(b, (int, bool)) else b) for a, b in vals.items()}, arrs, sd))
                return
        q.put(("ok", n if getattr(k, "evaluated", 0) >= n else 0))
    except Unsupported as e:
        q.put(("err", n, str(e)))
    except Exception as e:
        q.put(("err", n, traceback.format_exc()[-1500:]))


def replay(k, seeds, tmax=60, hints=()):
    """run the compiled code on sampled inputs against the contract, in a child process (a crash is contained)"""
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    p = ctx.Process(target=_child, args=(k, seeds, q, tmax, hints))
    p.start()
    r = None
    t0 = time.time()
    while time.time() - t0 < tmax + 120:
        try:
            r = q.get(timeout=0.2)
            break
        except Exception:
            if not p.is_alive():
                try:
                    r = q.get(timeout=0.5)
                except Exception:
                    pass
                break
    if r is None:
        code = p.exitcode
        p.kill()
        p.join()
        if code is not None and code != 0:
            return ("crash", 0, "process ended with code %s" % code)
        return ("err", 0, "replay timed out")
    p.join(5)
    if p.is_alive():
        p.kill()
    return r
