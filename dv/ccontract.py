"""Contracts on the C++ library through its harness entry points: obligations from the LLVM IR of the library's own templates,
discharged for all inputs; the same contracts are replayed on the compiled library."""
import functools, time, random, os, ctypes, multiprocessing, traceback, subprocess, tempfile, hashlib, mmap, sys
import mpmath
import numpy as np
from term import *
import term as TM
import prove, arith, contract, llvm
from contract import Ens, Outcome, prove_true, check_ens, make_hints, opaque
from prove import prove_zero, Failed, Unknown, Budget, Env
from sx import Unsupported
from llvm import Obj, Ptr, State, PI

CNAMES = ["k_c", "k_m", "k_schw", "k_pair", "k_qs", "k_spair", "k_ea", "k_eb"]
KC = {n: sym(n) for n in CNAMES}
_libs = {}


def lib(src, flags=()):
    """the library as compiled code (same harness, real constants)"""
    k = (src, tuple(flags))
    if k not in _libs:
        key = hashlib.sha1((llvm.repo_key() + repr(k)).encode()).hexdigest()[:12]
        so = os.path.join(llvm.tmpdir(), "%s-%s.so" % (os.path.splitext(src)[0], key))
        if not os.path.exists(so):
            t = so + ".%d" % os.getpid()
            r = subprocess.run(["g++", "-std=c++11", "-O1", "-fPIC", "-shared", "-w", "-ffp-contract=off", "-Wl,-Bsymbolic"] + llvm.INC + list(flags) + [os.path.join(llvm.HARN, src), "-o", t], capture_output=True, text=True)
            if r.returncode:
                raise Unsupported("harness does not compile: " + r.stderr[-800:])
            os.rename(t, so)
        L = ctypes.CDLL(so)
        L.q_const.restype = ctypes.c_double
        L.q_live.restype = ctypes.c_long
        _libs[k] = L
    return _libs[k]


def constants(src, flags):
    L = lib(src, flags)
    d = {n: mpmath.mpf(L.q_const(i)) for i, n in enumerate(CNAMES)}
    with mpmath.workdps(60):
        d["PI"] = +mpmath.pi
    d["INF"] = mpmath.mpf("inf")
    return d


def apps_of(k, vals):
    """numeric meaning of the contract's function symbols: f(inputs, *arguments)"""
    return {n: functools.partial(f, vals) for n, f in k.apps.items()}


class Par:
    def __init__(s, kind, sort, length=None, form=None, gen=None, lo=0, hi=1, out=False):
        s.kind, s.sort, s.length, s.form, s.gen, s.lo, s.hi, s.out = kind, sort, length, form, gen, lo, hi, out


class CKernel:
    """contract of one entry point"""
    memory = True
    relative = True      # replay tolerance relative to the terms of the clause

    def __init__(s, fn, src="q_math.cpp", flags=(), label=None, budget=60, invs=(), stubs=None, opts=None, samples=40, rtol=1e-9):
        s.fn, s.src, s.flags, s.label, s.budget = fn, src, tuple(flags), label or fn, budget
        s.routine = fn
        s.invs, s.stubs, s.opts, s.samples, s.rtol = list(invs), stubs or {}, opts or {}, samples, rtol
        s.req, s.ens, s.dom, s.par, s.choices, s.logs = [], [], {}, {}, {}, {}
        s.pairf, s.unif, s.derive = {}, {}, []
        s.assumes = []
        s.apps = {}
        s.ghosts = []        # (name, value): scalars that are not parameters, determined by them
        s.fixed, s.wide = {}, {}
        s.scales = []
        s.arrdom, s.consts = {}, {}
        s.rejects = None     # condition under which the call must end in an exception / assertion

    # -- specification language
    def int(s, n, lo=0, hi=8):
        s.dom[n] = ("I", lo, hi)
        return sym(n, "I")

    def real(s, n, lo=-2.0, hi=2.0, choices=None, log=False, wide=None):
        """wide: (low, high) decades that replay also draws magnitudes from"""
        s.dom[n] = ("R", lo, hi)
        if wide:
            s.wide[n] = wide
        if choices:
            s.choices[n] = choices
        if log:
            s.logs[n] = True
        return sym(n)

    def fix(s, n, v):
        """a parameter with one value (a number, or a term of the other parameters: replay evaluates it)"""
        if isinstance(v, T):
            s.dom[n] = (v.sort, 0, 0)
            s.fixed[n] = v
            return v
        s.dom[n] = ("I" if isinstance(v, int) else "R", v, v)
        s.fixed[n] = lift(int(v) if float(v).is_integer() else v)
        return s.fixed[n]

    def array(s, n, length, form=None, sort="R", gen=None, lo=-2.0, hi=2.0):
        s.par[n] = Par("arr", sort, lift(length), form, gen, lo, hi)
        return lambda i: rawsel(cbase(n, sort), [lift(i)]) if form is None else form(lift(i))

    def out(s, n, length, sort="R"):
        s.par[n] = Par("arr", sort, lift(length), None, None, -1, 1, True)
        return lambda i: rawsel(cbase("post:" + n, sort), [lift(i)])

    def pre(s, n, i, sort="R"):
        return rawsel(cbase(n, sort), [lift(i)])

    def ret(s, sort="R"):
        return sym("post:ret", sort)

    thrown = sym("post:thrown", "B")

    def requires(s, *c):
        s.req += c

    def sorted(s, n, strict=True):
        """the array is increasing"""
        L = s.par[n].length
        f = s.pre
        s.pairf.setdefault(n, []).append(lambda i, j: OR(NOT(AND(LE(ZERO, i), LT(i, j), LT(j, L))), (LT if strict else LE)(f(n, i), f(n, j))))

    def each(s, n, g):
        """g(i, value) for every element of the array"""
        L = s.par[n].length
        s.unif.setdefault(n, []).append(lambda i: OR(NOT(AND(LE(ZERO, i), LT(i, L))), g(i, s.pre(n, i, s.par[n].sort))))

    def J(s, n, lo, hi):
        t = sym("J" + n, "I")
        return (t, lift(lo), lift(hi))

    def ensures(s, name, lhs, rhs, forall=(), hyps=(), atol=None):
        s.ens.append(Ens(name, "eq", lift(lhs), lift(rhs), tuple(forall), tuple(hyps), atol))

    def ensures_true(s, name, c, forall=(), hyps=()):
        s.ens.append(Ens(name, "true", c, None, tuple(forall), tuple(hyps), None))

    # -- checking
    def prepare(s):
        for f in (llvm.module, lib):
            try:
                f(s.src, s.flags)
            except Unsupported:
                pass

    def run_check(s, tier, seed):
        import runner
        if tier != "quick":
            s.budget *= 4
        def go():
            o = cverify(s)
            return dict(status=o.status, obl=o.obl, info=o.info, time=o.time, hints=o.hints)
        x = runner.contained(go, s.budget + 60)
        if x is None:
            o = dict(status="unknown", obl=[], info=dict(why="proof time limit"), time=s.budget + 60, hints=[])
        elif x[0] == "err":
            o = dict(status="unsupported", obl=[], info=dict(why="internal: " + x[1]), time=0, hints=[])
        else:
            o = x[1]
        if not o["obl"]:
            o["obl"] = [dict(name="%s/%s" % (s.label, e.name), status="unknown") for e in s.ens]
        res = dict(label=s.label, routine=s.fn, status=o["status"], obligations=o["obl"], info=o["info"], seconds=round(o["time"], 2), assumes=list(s.assumes))
        n = s.samples if o["status"] == "proved" else s.samples * 8
        if tier == "thorough":
            n *= 20
        r = creplay(s, [seed * 100003 + j for j in range(n)], 15 if tier == "quick" else 150, o["hints"])
        res["replay"] = dict(kind=r[0], n=r[1])
        if r[0] == "bad":
            res["replay"].update(violations=r[2], inputs=r[3], arrays=r[4], seed=r[5])
        elif r[0] in ("crash", "err"):
            res["replay"].update(why=r[2])
            if r[0] == "crash" and len(r) > 3:
                res["replay"].update(inputs=r[3], arrays=r[4], violations=[["memory-safety", [], r[2]]])
        return res


def execute(k):
    m = llvm.module(k.src, k.flags)
    name = "@" + k.fn
    f = m.fn(name)
    if f is None:
        raise Unsupported("entry %s not found" % k.fn)
    ex = llvm.Exec(m, opts=k.opts, stubs=k.stubs, invs=k.invs)
    ex.ctx.prods = {}
    ex.ctx.scales, ex.ctx.scaler = tuple(k.scales), llvm.rnorm
    for c in CNAMES:
        ex.assume(GT(KC[c], ZERO))
    ex.assume(AND(LT(num(3), PI), LT(PI, num(4))))
    for r in k.req:
        ex.assume(r)
    if ex.ctx.sat() == "unsat":
        return None
    ex.pairfacts = dict(k.pairf)
    ex.unifacts = dict(k.unif)
    args, objs = [], {}
    st = State()
    for (ty, r, at) in f.params:
        n = (r or "%")[1:].replace(".addr", "")
        ty = m.res(ty)
        if ty.k == "ptr":
            p = k.par.get(n)
            if p is None:
                raise Unsupported("no declaration for array argument " + n)
            b = cbase(n, p.sort)
            if p.form is not None:
                q = fresh("b", "I")
                b = cwrite(b, [q], p.form(q), binders=((q, ZERO, sub(p.length, ONE), ONE),))
            o = Obj(n, "arr", scale(p.length, 8), stride=8, length=p.length, form={0: b})
            objs[n] = o
            args.append(Ptr(o, ZERO))
        else:
            srt = {"fp": "R"}.get(ty.k, "B" if ty.n == 1 else "I")
            if n not in k.dom:
                raise Unsupported("no declaration for argument " + n)
            args.append(k.fixed.get(n) or sym(n, srt))
    for r in k.req:
        for x in prove.subterms(r):
            if x.op == "sel" and x.args[0].kind == "base" and (x.args[0].name in k.pairf or x.args[0].name in k.unif):
                for ob in objs.values():
                    if ob.name == x.args[0].name:
                        ex.noteread(ob, 0, x.args[1])
    r = ex.call_fn(name, args, st)
    return ex, objs, r


def cverify(k):
    t0 = time.time()
    o = Outcome(k)
    z0 = arith.STATS["z3_time"], arith.STATS["z3_calls"]
    prove.PST.update(splits=0, leaves=0, polys=0)
    try:
        x = execute(k)
        if x is None:
            o.status = "vacuous"
            o.info["why"] = "requires unsatisfiable"
            return o
        ex, objs, r = x
        ctx = ex.ctx
        o.info.update(loops=ex.nloops, inlined=sorted(ex.inlined), loop_obligations=len(ex.obl), notes=ex.notes[:20])
        st, ret = r if r is not None else (None, None)
        th = OR(*ex.thrown) if ex.thrown else FALSE
        m, cm = {}, {}
        for srt in "RIB":
            if isinstance(ret, T):
                m[sym("post:ret", srt)] = llvm.asB(ret) if srt == "B" else llvm.asI(ret)
        m[sym("post:thrown", "B")] = th if r is not None else TRUE
        for n, ob in objs.items():
            if (("post:" + n), k.par[n].sort) in TM._bases and st is not None:
                cm[cbase("post:" + n, k.par[n].sort)] = ex.content(st, ob, 0, k.par[n].sort)
        # obligations met on the way: memory safety, loop invariants, termination
        agg = {}
        for nm, ok, note in ex.obl:
            a = agg.setdefault(nm, [True, ""])
            if not ok:
                a[0] = False
                a[1] = a[1] or note
        if st is not None:
            leak = [ob for ob in st.live if st.freed.get(ob) is not TRUE and not ctx.entails(st.freed.get(ob, FALSE))]
            if st.live:
                agg["no-leak"] = [not leak, ", ".join(map(repr, leak[:4]))]
        for nm, (ok, note) in agg.items():
            o.obl.append(dict(name="%s/%s" % (k.label, nm), status="discharged" if ok else "unknown", why=note, count=sum(1 for x in ex.obl if x[0] == nm)))
        for e in k.ens:
            ctx.push()
            t1 = time.time()
            try:
                usesth = any(sym("post:thrown", "B") in free(t) for t in (e.lhs, e.rhs) if t is not None)
                for J, lo, hi in e.forall:
                    ctx.assume(AND(LE(subst(lo, m, cm), J), LE(J, subst(hi, m, cm))))
                hy = [subst(h, m, cm) for h in e.hyps]
                lhs = subst(e.lhs, m, cm)
                rhs = subst(e.rhs, m, cm) if e.rhs is not None else None
                hy, lhs, rhs = [uncite(h) for h in hy], uncite(lhs), uncite(rhs) if rhs is not None else None
                if st is None and not usesth:
                    raise Failed("the call never returns normally", None, hyps=list(ctx.hyps))
                Js = [J for J, _, _ in e.forall]
                inst = []
                for i, N, h, bs in ex.loopfacts:
                    if bs:
                        continue
                    for J, lo, hi in e.forall:
                        if set(free(hi)) & set(free(N)) or not free(hi) or not free(N):
                            inst.append(subst(h, {i: J}))
                            ctx.assume(OR(NOT(AND(LE(ZERO, J), LT(J, N))), inst[-1]))
                lhs, rhs = align(ctx, Js, [lhs, rhs]) if not hy else (lhs, rhs)
                if Js:
                    lhs, rhs = uncite(lhs, 64, ctx), uncite(rhs, 64, ctx) if rhs is not None else None
                for a in range(len(hy)):
                    ctx.assume(hy[a])
                    hy[a + 1:], (lhs, rhs) = (lambda z: (z[2:], z[:2]))(align(ctx, Js, [lhs, rhs] + hy[a + 1:]))
                facts(k, ex, [lhs, rhs] + hy, inst)
                if ctx.sat() == "unsat":
                    o.status = "vacuous"
                    o.info["why"] = "hypotheses of %s unsatisfiable" % e.name
                    return o
                lhs, rhs = align(ctx, Js, [lhs, rhs])
                B = Budget(k.budget)
                if e.kind == "eq":
                    n = eqprove(lhs, rhs, ctx, B, k)
                else:
                    n = prove_true(lhs, ctx, B)
                o.obl.append(dict(name="%s/%s" % (k.label, e.name), status="discharged", cases=n, seconds=round(time.time() - t1, 3)))
            except Failed as f:
                nz, hs = search(k, f)
                o.obl.append(dict(name="%s/%s" % (k.label, e.name), status="failed", seconds=round(time.time() - t1, 3),
                                  residual=show(f.term, 600) if f.term is not None else str(f), numeric=nz))
                o.hints += hs or make_hints(k, f, 4)
            except Unknown as u:
                o.obl.append(dict(name="%s/%s" % (k.label, e.name), status="unknown", why=str(u), seconds=round(time.time() - t1, 3)))
            finally:
                ctx.pop()
        if not any(sym("post:thrown", "B") in free(t) for e in k.ens for t in (e.lhs,)):
            ok = th is FALSE or not ctx_sat(ex, k, th)
            o.obl.append(dict(name="%s/returns-normally" % k.label, status="discharged" if ok else "unknown", why="" if ok else show(th, 300)))
        ss = {x["status"] for x in o.obl}
        o.status = "proved" if o.obl and ss == {"discharged"} else ("failed" if "failed" in ss else "unknown")
    except (Unsupported, NotResolved) as e:
        o.status = "unsupported"
        o.info["why"] = str(e)
    except RecursionError:
        o.status = "unsupported"
        o.info["why"] = "recursion limit"
    except Unknown as e:
        o.status = "unknown"
        o.info["why"] = str(e)
    except Exception as e:
        o.status = "unsupported"
        o.info["why"] = "internal: " + "".join(traceback.format_exception_only(type(e), e)).strip() + traceback.format_exc()[-900:]
    finally:
        o.time = time.time() - t0
        o.info["z3_time"] = round(arith.STATS["z3_time"] - z0[0], 3)
        o.info["z3_calls"] = arith.STATS["z3_calls"] - z0[1]
        for a in ("splits", "leaves", "polys"):
            o.info[a] = prove.PST[a]
    return o


def uncite(t, room=64, ctx=None):
    """reads of an array whose state depends on the path become conditional values; with a context, reads it decides are resolved"""
    left = [room]
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == "sel" and x.args[0].kind == "cite" and left[0] > 0:
                left[0] -= 1
                r = go(expand_sel(x))
            elif x.op == "sum" or not children(x):
                r = x
            else:
                ch = children(x)
                new = [go(y) for y in ch]
                if x.op == "sel" and ctx is not None and x.args[0].kind != "base":
                    r = select(x.args[0], new, ctx)
                    if r is not x and r.op != "sel":
                        r = go(r)
                elif all(a is b for a, b in zip(ch, new)):
                    r = x
                elif x.op == "sel":
                    r = select(x.args[0], new)
                else:
                    r = (rebuild_app if x.op == "app" else rebuild)(x, new)
            memo[x] = r
        return r
    return go(t)


def align(ctx, Js, ts):
    """integer-valued roundings that the context pins to a quantified index are replaced by it"""
    fl = []
    for t in ts:
        if t is not None:
            fl += [x for x in prove.subterms(t) if (x.op == "floor" or x.sort == "I" and (x.op == "sym" and str(x.args[0]).startswith("loop:") or x.op == "sel" and x.args[0].kind == "base" and x.args[0].name.startswith("loop:"))) and x not in fl]
    m = {}
    for x in fl:
        for J in Js + [y for y in (free(x) if x.op == "floor" else ()) if y.sort == "I"]:
            for c in (0, -1, 1, -2):
                if x not in m and ctx.entails(EQ(x, add(J, num(c)))):
                    m[x] = add(J, num(c))
    return [llvm.rewrite(t, m) if m and t is not None else t for t in ts]


def ctx_sat(ex, k, th):
    """can an abnormal end happen under the contract's requires?  (fresh context: facts learned past it must not be used)"""
    c = arith.Ctx(nonlinear=True, timeout=5000)
    for n in CNAMES:
        c.assume(GT(KC[n], ZERO))
    for r in k.req:
        c.assume(r)
    return c.sat(th) != "unsat"


def facts(k, ex, ts, inst=()):
    """instantiate the contract's quantified preconditions at every element the clause (or a fact about its loop iteration) mentions"""
    idx = {}
    for t in list(ts) + list(inst):
        if t is None:
            continue
        for x in prove.subterms(t):
            if x.op == "sel" and x.args[0].kind == "base":
                n = x.args[0].name
                if n in k.pairf or n in k.unif:
                    L = idx.setdefault(n, [])
                    if x.args[1] not in L:
                        L.append(x.args[1])
    for n, L in idx.items():
        more = [i for i in ex.reads.get(n, ()) if i not in L]
        L = L + ([i for i in more if all(str(x.args[0]) in k.dom for x in free(i))] if len(L) > 6 and inst else more)[:12]
        for i in L:
            for g in k.unif.get(n, ()):
                ex.ctx.assume(g(i))
            for j in L:
                if i is not j:
                    for g in k.pairf.get(n, ()):
                        ex.ctx.assume(g(i, j))
                    if i.id < j.id if hasattr(i, "id") else True:
                        ex.ctx.assume(OR(NE(i, j), EQ(k.pre(n, i, k.par[n].sort), k.pre(n, j, k.par[n].sort))))


def eqprove(l, r, ctx, B, k):
    return prove_zero(sub(l, r), ctx, B)


def arrays_of(k, vals, rnd, env):
    """array contents for one sampled input (None: outside the domain)"""
    out = {}
    for n, p in k.par.items():
        ln = int(env.ev(p.length))
        if ln < 0 or ln > 200000:
            return None
        if p.form is not None:
            a = [float(env.ev(p.form(num(i)))) if p.sort == "R" else int(env.ev(p.form(num(i)))) for i in range(ln)]
        elif p.gen is not None:
            a = list(p.gen(vals, rnd, ln))
        elif p.out:
            a = [7.25e300 if p.sort == "R" else 77777] * ln
        else:
            a = [rnd.uniform(p.lo, p.hi) if p.sort == "R" else rnd.randint(int(p.lo), int(p.hi)) for i in range(ln)]
        out[n] = a
    return out


def search(k, f, tmax=12, want=3):
    """inputs of the contract's domain that satisfy the failing path's hypotheses and leave a non-zero residual: hill climbing on the number of
    hypotheses that hold.  Returns (True: found / False: hypotheses met, residual zero / None, hints for replay)"""
    if f.term is None and not str(f).startswith("not entailed"):
        return None, []
    hyps = [h for h in f.hyps or ()]
    if (f.term is not None and opaque(f.term)) or not getattr(f, "definite", True):
        return None, []
    sure = not any(opaque(h) for h in hyps)
    hyps = [h for h in hyps if not opaque(h)]
    out, met, t0 = [], 0, time.time()
    try:
        cs = constants(k.src, k.flags)
        kinds = {n: ty for n, (ty, lo, hi) in k.dom.items() if n not in k.fixed}
        extra = sorted({x.args[0] for h in hyps + ([f.term] if f.term is not None else []) for x in free(h) if x.sort == "I"} - set(k.dom) - {g[0] for g in k.ghosts})
        kinds.update({n: "I" for n in extra})
        names = sorted(kinds)
        edges = []           # integer parts and comparisons inside the terms: the places where behaviour changes
        for t in hyps + ([f.term] if f.term is not None else []):
            for x in prove.subterms(t):
                if x.op in ("floor", "le", "lt", "eq") and x not in edges:
                    edges.append(x)
        reqs = [r for r in k.req if not troots(r)]
        jumps = set()
        for h in hyps:
            for x in prove.subterms(h):
                if x.op == "add" and x.args[0] != 0 and abs(x.args[0]) < 10 ** 9:
                    jumps.add(int(abs(x.args[0])))
        jumps = sorted(jumps)[:40]

        def score(vals, sd, sig=False):
            rnd = random.Random(sd)
            vals = dict(vals)
            for n, t in k.fixed.items():
                if t.op != "num":
                    vals[n] = float(Env(seed=sd, vals=dict(cs, **vals), apps=apps_of(k, vals)).ev(t))
            for n, g in k.ghosts:
                vals[n] = g(vals, rnd)
            e = Env(seed=sd, vals=dict(cs, **{a: (mpmath.mpf(b) if isinstance(b, float) else b) for a, b in vals.items()}), apps=apps_of(k, vals))
            if not all(e.ev(r) for r in reqs):
                return None
            arr = arrays_of(k, vals, rnd, e)
            if arr is None:
                return None
            for n, a in arr.items():
                def rd(i, a=a):
                    if not 0 <= i < len(a):
                        raise IndexError
                    return mpmath.mpf(a[int(i)]) if isinstance(a[int(i)], float) else a[int(i)]
                e.arrays[n] = rd
            if sig:
                o = []
                for x in edges:
                    try:
                        o.append(e.ev(x))
                    except (ZeroDivisionError, ValueError, TypeError, OverflowError, IndexError):
                        o.append(None)
                return o
            g = 0
            for h in hyps:
                try:
                    if e.ev(h):
                        g += 1
                except (ZeroDivisionError, ValueError, TypeError, OverflowError, IndexError):
                    pass
            nz = False
            if g == len(hyps):
                try:
                    if f.term is None:
                        nz = True
                    else:
                        v = e.ev(f.term)
                        sc = max([abs(e.ev(x)) for x, _ in lin(f.term)[1].items()] + [mpmath.mpf(0)])
                        nz = abs(v) > sc * mpmath.mpf(10) ** -14 and abs(v) > 0
                except (ZeroDivisionError, ValueError, TypeError, OverflowError, IndexError):
                    g -= 1
            return g, nz, vals, arr

        def near_edge(cur, sd, rnd):
            """bisect between this input and another one to where behaviour changes, and try points close to it on both sides"""
            grp = [n for n in names if kinds[n] == "R"]
            if not grp:
                return None
            n = rnd.choice(grp)
            try:
                q = sample(k, sd * 977 + 5)
                a, b = cur[n], q[0][n]
                f0, f1 = score(cur, sd, True), score(dict(cur, **{n: b}), sd, True)
                if f0 is None or f1 is None:
                    return None
                d = [i for i in range(len(edges)) if f0[i] != f1[i]]
                if not d:
                    return None
                i = rnd.choice(d)
                for _ in range(45):
                    c = a + (b - a) / 2
                    fc = score(dict(cur, **{n: c}), sd, True)
                    if fc is None:
                        return None
                    if fc[i] == f0[i]:
                        a = c
                    else:
                        b = c
                sz = abs(q[0][n] - cur[n]) + abs(a)
                for e in (1e-13, 1e-10, 1e-7, 1e-5, 1e-4, 1e-3, 1e-2):
                    for v in (a - e * sz, a + e * sz, b):
                        alts = [{}] + [{x: cur[x] + dd} for x in extra for dd in (-1, 1)]
                        for alt in alts:
                            if time.time() - t0 > tmax:
                                return None
                            x = score(dict(cur, **{n: v}, **alt), sd)
                            if x is not None and x[0] == len(hyps) and x[1]:
                                return x
            except Exception:
                pass
            return None

        with mpmath.workdps(40):
            for sd in range(100000):
                if time.time() - t0 > tmax or len(out) >= want or met > 40:
                    break
                sm = sample(k, sd)
                if sm is None:
                    continue
                rnd = random.Random(sd * 7 + 1)
                cur = {n: sm[0][n] for n in sm[0]}
                for n in extra:
                    cur[n] = rnd.randint(0, 6)
                best = None
                try:
                    best = score(cur, sd)
                except Exception:
                    pass
                for step in range(60):
                    if best is not None and best[0] == len(hyps):
                        break
                    if time.time() - t0 > tmax:
                        break
                    nxt = dict(cur)
                    mv = rnd.random()
                    grp = [n for n in names if kinds[n] == "R"]
                    if mv < .35 and grp:
                        q = 10 ** rnd.uniform(-16, 16) if rnd.random() < .6 else 10 ** rnd.uniform(-2, 2)
                        pick = [rnd.choice(grp)] if rnd.random() < .6 else [n for n in grp if rnd.random() < .6]
                        for n in pick:
                            nxt[n] = float(nxt[n] * q) if abs(nxt[n] * q) < 1e60 else nxt[n]
                    elif mv < .5 and grp:
                        n = rnd.choice(grp)
                        nxt[n] = rnd.choice([0.0, -nxt[n], nxt[rnd.choice(grp)], 1.0] + [float(j) for j in jumps[:8]])
                    elif names:
                        n = rnd.choice(names)
                        if kinds[n] == "I":
                            nxt[n] = rnd.choice([nxt[n] + 1, nxt[n] - 1, nxt[n] * 2, nxt[n] // 2] + [j + d for j in jumps for d in (-1, 0, 1)])
                        elif kinds[n] == "B":
                            nxt[n] = not nxt[n]
                        else:
                            q = sample(k, sd * 1000 + step)
                            if q is not None:
                                nxt = dict(nxt, **q[0]) if rnd.random() < .3 else dict(nxt, **{n: q[0][n]})
                    try:
                        x = score(nxt, sd)
                    except Exception:
                        x = None
                    if x is not None and (best is None or x[0] >= best[0]):
                        best, cur = x, nxt
                if best is not None and best[0] == len(hyps):
                    met += 1
                    if not best[1]:
                        best = near_edge(cur, sd, rnd) or best
                    if best[1]:
                        vals, arr = best[2], best[3]
                        out.append(({n: vals[n] for n in kinds if n not in extra}, {n: [((i,), v) for i, v in enumerate(a)] for n, a in arr.items() if k.par[n].form is None and not k.par[n].out}))
    except Exception:
        pass
    if out:
        return (True if sure else None), out
    return (False if met and sure else None), []


# ------------------------------------------------------------------ replay
def sample(k, seed, hint=None):
    rnd = random.Random(seed)
    cs = constants(k.src, k.flags)
    for _ in range(60 if hint is None else 10):
        vals = {}
        far = rnd.random() < .4
        com = rnd.random() < .5 and rnd.random()
        for n, (ty, lo, hi) in k.dom.items():
            if far and n in k.wide and rnd.random() < .9:
                a, b = k.wide[n]
                if com is not False:
                    c = a + (b - a) * com
                    a, b = max(a, c - 2), min(b, c + 2)
                vals[n] = 10 ** rnd.uniform(a, b) * (rnd.choice([1, -1]) if lo < 0 else 1)
            elif ty == "I" and n not in k.fixed:
                vals[n] = rnd.randint(lo, hi)
            elif ty == "B":
                vals[n] = rnd.random() < .5
            elif n in k.fixed:
                vals[n] = int(lo) if ty == "I" else float(lo)
            elif n in k.choices and rnd.random() < .5:
                vals[n] = float(rnd.choice(k.choices[n]))
            elif n in k.logs:
                vals[n] = float(np.exp(rnd.uniform(np.log(lo), np.log(hi))))
            else:
                vals[n] = rnd.choice([rnd.uniform(lo, hi), round(rnd.uniform(lo, hi), 1)])
        for n, t in k.fixed.items():
            if t.op != "num":
                vals[n] = float(Env(seed=seed, vals=dict(cs, **vals), apps=apps_of(k, vals)).ev(t)) if t.sort == "R" else int(Env(seed=seed, vals=dict(cs, **vals), apps=apps_of(k, vals)).ev(t))
        for n, f in k.derive:
            v = f(vals, rnd)
            if v is not None:
                vals[n] = v
        if hint is not None:
            for n, v in hint[0].items():
                ty = k.dom[n][0]
                vals[n] = int(v) if ty == "I" else bool(v) if ty == "B" else float(v)
            for n, f in k.ghosts:
                vals[n] = f(vals, rnd)
        e = Env(seed=seed, vals=dict(cs, **vals), apps=apps_of(k, vals))
        try:
            if all(e.ev(r) for r in k.req if not troots(r)):
                return vals, rnd
        except Exception:
            continue
    return None


class Guarded:
    """memory for n 8-byte elements ending at an inaccessible page (and starting after one when it fits a page exactly)"""
    libc = ctypes.CDLL(None, use_errno=True)

    def __init__(s, n):
        pg = mmap.PAGESIZE
        L = ((n * 8 + pg - 1) // pg) * pg
        s.L = L + 2 * pg
        s.libc.mmap.restype = ctypes.c_void_p
        s.libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        s.libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
        s.libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
        s.b = s.libc.mmap(None, s.L, 3, 0x22, -1, 0)
        s.libc.mprotect(s.b, pg, 0)
        s.libc.mprotect(s.b + pg + L, pg, 0)
        s.p = s.b + pg + L - n * 8
        s.n = n

    def view(s, dt):
        return np.ctypeslib.as_array((ctypes.c_double if dt == np.float64 else ctypes.c_long).from_address(s.p).__class__.from_address(s.p) if False else ((ctypes.c_double if dt == np.float64 else ctypes.c_long) * s.n).from_address(s.p))

    def free(s):
        s.libc.munmap(s.b, s.L)


def one(k, L, f, seed, hint=None, announce=None):
    sm = sample(k, seed, hint)
    if sm is None:
        return None
    vals, rnd = sm
    cs = constants(k.src, k.flags)
    m = llvm.module(k.src, k.flags) if False else None
    bufs, arrays, env_arr = {}, {}, {}
    env = Env(seed=seed, vals=dict(cs, **vals), apps=apps_of(k, vals))
    try:
        for n, p in k.par.items():
            ln = int(env.ev(p.length))
            if ln < 0 or ln > 200000:
                return None
            g = Guarded(ln)
            bufs[n] = g
            dt = np.float64 if p.sort == "R" else np.int64
            a = g.view(dt)
            if p.form is not None:
                for i in range(ln):
                    a[i] = float(env.ev(p.form(num(i))))
            elif p.gen is not None:
                for i, v in enumerate(p.gen(vals, rnd, ln)):
                    a[i] = v
            elif p.out:
                a[:] = 7.25e300 if p.sort == "R" else 77777
            else:
                for i in range(ln):
                    a[i] = rnd.uniform(p.lo, p.hi) if p.sort == "R" else rnd.randint(int(p.lo), int(p.hi))
            if hint is not None and p.form is None:
                for idx, v in hint[1].get(n, ()):
                    if len(idx) == 1 and 0 <= idx[0] < ln:
                        a[idx[0]] = v
            old = a.copy()
            arrays[n] = (a, old)

            def reader(a):
                def rd(i):
                    if not 0 <= i < len(a):
                        raise IndexError
                    v = a[int(i)]
                    return mpmath.mpf(float(v)) if a.dtype == np.float64 else int(v)
                rd.fast = lambda i: a.item(i) if 0 <= i < len(a) else (_ for _ in ()).throw(IndexError())
                return rd
            env.arrays[n] = reader(old)
            env.arrays["post:" + n] = reader(a)
        env.memo = {}
        env.vals.update({n: mpmath.mpf(v) if isinstance(v, float) else v for n, v in vals.items()})
        for r in k.req:
            if troots(r) and not env.ev(r):
                return None
        for n, gs in k.unif.items():
            for i in range(len(arrays[n][1])):
                for g in gs:
                    if not env.ev(g(num(i))):
                        return None
        for n, gs in k.pairf.items():
            for i in range(len(arrays[n][1]) - 1):
                for g in gs:
                    if not env.ev(g(num(i), num(i + 1))):
                        return None
        args = []
        for n, ty in f.order:
            if n in k.par:
                args.append(ctypes.c_void_p(bufs[n].p))
            elif ty == "R":
                args.append(ctypes.c_double(vals[n]))
            else:
                args.append(ctypes.c_long(int(vals[n])))
        if announce is not None:
            announce(vals, {n: o.tolist() for n, (a, o) in arrays.items()})
        L.q_reset()
        r = f(*args)
        live = L.q_live()
        L.q_reset()
        th = hasattr(L, "q_thrown") and bool(L.q_thrown())
        env.vals["post:thrown"] = th
        env.vals["post:ret"] = bool(r) if f.rsort == "B" else mpmath.mpf(r) if isinstance(r, float) else r
        for n, v in list(env.vals.items()):
            if isinstance(v, float):
                env.vals[n] = mpmath.mpf(v)
        bad = check_ens(k, env)
        if live and k.memory:
            bad.append(("no-leak", (), "%d blocks not released" % live))
        if th and not any(sym("post:thrown", "B") in free(t) for e in k.ens for t in (e.lhs,)):
            bad.append(("returns-normally", (), "threw"))
        return bad, vals, {n: o.tolist() for n, (a, o) in arrays.items()}
    finally:
        for g in bufs.values():
            g.free()


def bind(k, L):
    m = llvm.module(k.src, k.flags)
    fn = m.fn("@" + k.fn)
    if fn is None:
        raise Unsupported("entry %s not found" % k.fn)
    f = getattr(L, k.fn)
    f.order = []
    for (ty, r, at) in fn.params:
        ty = m.res(ty)
        f.order.append(((r or "%")[1:].replace(".addr", ""), "R" if ty.k == "fp" else "P" if ty.k == "ptr" else "I"))
    rt = m.res(fn.ret)
    f.rsort = "R" if rt.k == "fp" else "B" if rt.k == "int" and rt.n == 1 else "I"
    f.restype = ctypes.c_double if rt.k == "fp" else (ctypes.c_bool if f.rsort == "B" else ctypes.c_long) if rt.k == "int" else None
    return f


def _child(k, seeds, w, tmax, hints):
    t0, n = time.time(), 0
    try:
        L = lib(k.src, k.flags)
        f = bind(k, L)
        plan = [(7 * a + b, h) for a, h in enumerate(hints) for b in range(3)] + [(sd, None) for sd in seeds]
        for sd, h in plan:
            if time.time() - t0 > tmax:
                break
            r = one(k, L, f, sd, h, lambda v, a: w.send(("at", n, v, a)))
            if r is None:
                continue
            n += 1
            bad, vals, arrs = r
            if bad:
                w.send(("bad", n, [(a, list(map(int, b)), str(c)) for a, b, c in bad[:5]], vals, arrs, sd))
                return
        w.send(("ok", n if getattr(k, "evaluated", 0) * 2 >= n else 0))
    except Unsupported as e:
        w.send(("err", n, str(e)))
    except Exception:
        w.send(("err", n, traceback.format_exc()[-1500:]))
    finally:
        w.close()
        os._exit(0)


def creplay(k, seeds, tmax=20, hints=()):
    ctx = multiprocessing.get_context("fork")
    r, w = ctx.Pipe(False)
    p = ctx.Process(target=_child, args=(k, seeds, w, tmax, hints))
    p.start()
    w.close()
    at, out = None, None
    t0 = time.time()
    try:
        while time.time() - t0 < tmax + 60:
            if not r.poll(1):
                continue
            x = r.recv()
            if x[0] == "at":
                at = x
                continue
            out = x
            break
    except EOFError:
        pass
    hung = p.is_alive() and out is None
    if hung:
        p.kill()
    p.join()
    if out is not None:
        return out
    if at is None:
        return ("err", 0, "replay gave no answer (exit code %s)" % p.exitcode)
    if hung:
        return ("crash", at[1], "the call did not return within %d s" % (tmax + 60), at[2], at[3])
    return ("crash", at[1], "the process died (code %s): memory error or abort inside the call" % p.exitcode, at[2], at[3])
