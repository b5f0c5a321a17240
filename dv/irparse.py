"""Parser of the textual LLVM IR produced from the harness translation units."""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''\s*(?:(;[^\n]*)|([%@]"(?:[^"\\]|\\.)*"|[%@][-\w.$]+)|(c?"(?:[^"\\]|\\.)*")|(0x[KLMH]?[0-9A-Fa-f]+)|(-?\d+\.\d*(?:[eE][-+]?\d+)?)|(-?\d+)|([#!][-\w.$]*)|(\.\.\.)|([A-Za-z_][\w.]*:?)|(<\{|\}>|[()\[\]{}<>,=*|]))''')

ATTR = set('''noundef nonnull noalias nocapture readonly writeonly readnone signext zeroext inreg nest returned immarg swiftself allocalign allocptr noreturn nounwind
dead_on_unwind writable fastcc ccc coldcc tail musttail notail dso_local local_unnamed_addr unnamed_addr inbounds nuw nsw exact volatile nnan ninf nsz arcp contract afn reassoc fast
disjoint nneg inalloca preallocated noext captures initializes range'''.split())
PATTR = {"dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "align", "elementtype", "memory", "nofpclass", "range", "captures", "initializes"}


def toks(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise SyntaxError("IR token: " + s[i:i + 40])
        i = m.end()
        if m.group(1):
            continue
        out.append(m.group(0).strip())
    return out


class Ty:
    """k: int(n) fp(n bits) ptr void arr(n,el) vec(n,el) struct(fields,packed) named(name) func label metadata"""
    __slots__ = ("k", "n", "el", "fields", "packed", "name")

    def __init__(s, k, n=0, el=None, fields=(), packed=False, name=None):
        s.k, s.n, s.el, s.fields, s.packed, s.name = k, n, el, fields, packed, name

    def __repr__(s):
        return "%s%s" % (s.k, s.n or s.name or "")


VOID, PTR = Ty("void"), Ty("ptr")


class P:
    def __init__(s, tk):
        s.t, s.i = tk, 0

    def peek(s, o=0):
        return s.t[s.i + o] if s.i + o < len(s.t) else None

    def next(s):
        x = s.t[s.i]
        s.i += 1
        return x

    def eat(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False

    def need(s, x):
        if not s.eat(x):
            raise SyntaxError("expected %s at %r" % (x, s.t[s.i:s.i + 6]))

    def attrs(s):
        got = {}
        while True:
            x = s.peek()
            if x is None:
                break
            if x in PATTR:
                s.i += 1
                if s.peek() == "(":
                    got[x] = s.paren()
                elif x == "align":
                    s.next()
            elif x in ATTR or x.startswith("#"):
                s.i += 1
            else:
                break
        return got

    def paren(s):
        s.need("(")
        d, o = 1, s.i
        while d:
            x = s.next()
            d += (x == "(") - (x == ")")
        return s.t[o:s.i - 1]

    def type(s):
        x = s.next()
        if re.fullmatch(r"i\d+", x):
            t = Ty("int", int(x[1:]))
        elif x == "double":
            t = Ty("fp", 64)
        elif x == "float":
            t = Ty("fp", 32)
        elif x in ("x86_fp80", "fp128"):
            t = Ty("fp", 80)
        elif x == "half":
            t = Ty("fp", 16)
        elif x == "ptr":
            t = PTR
        elif x == "void":
            t = VOID
        elif x in ("label", "metadata", "token", "opaque"):
            t = Ty(x)
        elif x in ("[", "<"):
            n = int(s.next())
            s.need("x")
            el = s.type()
            s.need("]" if x == "[" else ">")
            t = Ty("arr" if x == "[" else "vec", n, el)
        elif x in ("{", "<{"):
            fs = []
            c = "}" if x == "{" else "}>"
            while not s.eat(c):
                fs.append(s.type())
                s.eat(",")
            t = Ty("struct", fields=fs, packed=(x == "<{"))
        elif x[0] == "%":
            t = Ty("named", name=x)
        else:
            raise SyntaxError("type %r" % s.t[s.i - 1:s.i + 5])
        if s.peek() == "(" and t.k != "label":
            # function type
            s.paren()
            t = Ty("func", el=t)
        return t

    def value(s, ty):
        """constant or register operand"""
        x = s.next()
        if x[0] == "%":
            return ("reg", x)
        if x[0] == "@":
            return ("glob", x)
        if x == "true":
            return ("int", 1)
        if x == "false":
            return ("int", 0)
        if x in ("null", "undef", "poison", "zeroinitializer", "none"):
            return (x,)
        if re.fullmatch(r"-?\d+", x):
            return ("int", int(x)) if ty.k != "fp" else ("fp", Fraction(int(x)))
        if x.startswith("0x"):
            if x[2] in "KLMH":
                return ("fpraw", x)
            v = struct.unpack(">d", bytes.fromhex(x[2:].rjust(16, "0")))[0]
            return ("fp", v)
        if re.fullmatch(r"-?\d+\.\d*([eE][-+]?\d+)?", x):
            return ("fp", float(x))
        if x in ("getelementptr",):
            s.attrs()
            s.need("(")
            bt = s.type()
            s.need(",")
            ops = []
            while True:
                s.attrs()
                if s.eat(")"):
                    break
                s.eat(",")
                if s.eat(")"):
                    break
                s.attrs()
                t = s.type()
                ops.append((t, s.value(t)))
            return ("gep", bt, ops)
        if x in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast"):
            s.need("(")
            t = s.type()
            v = s.value(t)
            s.need("to")
            s.type()
            s.need(")")
            return v
        if x in ("[", "{", "<", "<{"):
            c = {"[": "]", "{": "}", "<": ">", "<{": "}>"}[x]
            vs = []
            while not s.eat(c):
                s.attrs()
                t = s.type()
                vs.append((t, s.value(t)))
                s.eat(",")
            return ("agg", vs)
        if x[0] == "c" or x[0] == '"':
            return ("str", x)
        if x == "splat":
            s.need("(")
            t = s.type()
            v = s.value(t)
            s.need(")")
            return ("splat", t, v)
        raise SyntaxError("value %r" % s.t[s.i - 1:s.i + 5])


class Ins:
    __slots__ = ("op", "res", "a", "line", "idx")

    def __init__(s, op, res, a, line):
        s.op, s.res, s.a, s.line = op, res, a, line

    def __repr__(s):
        return s.line.strip()


class Fn:
    def __init__(s, name, ret, params):
        s.name, s.ret, s.params = name, ret, params
        s.blocks, s.order = {}, []
        s.sret = None


class Module:
    def __init__(s, text):
        s.types, s.globals, s.fns, s.decls = {}, {}, {}, set()
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("%"):
                nm, _, rhs = l.partition(" = type ")
                s.types[nm.strip()] = rhs
            elif l.startswith("@") or l.startswith('@"'):
                s.glob(l)
            elif l.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                s.define(l, lines[i + 1:j])
                i = j
            elif l.startswith("declare"):
                m = re.search(r'@("(?:[^"])*"|[-\w.$]+)\(', l)
                if m:
                    s.decls.add("@" + m.group(1))
            i += 1
        s._ty = {}
        s.parsed = {}

    def glob(s, l):
        nm, _, rhs = l.partition(" = ")
        s.globals[nm.strip()] = rhs

    def define(s, head, body):
        m = re.search(r'@("(?:[^"])*"|[-\w.$]+)\(', head)
        s.fns["@" + m.group(1)] = (head, body)

    def named(s, n):
        if n not in s._ty:
            r = s.types.get(n)
            if r is None or r.strip() == "opaque":
                s._ty[n] = Ty("opaque")
            else:
                s._ty[n] = P(toks(r)).type()
        return s._ty[n]

    def res(s, t):
        while t.k == "named":
            t = s.named(t.name)
        return t

    # ---- layout
    def align(s, t):
        t = s.res(t)
        if t.k == "int":
            return max(1, min(16, 1 << max(0, ((t.n + 7) // 8 - 1).bit_length())))
        if t.k == "fp":
            return {16: 2, 32: 4, 64: 8, 80: 16}[t.n]
        if t.k == "ptr":
            return 8
        if t.k == "arr":
            return s.align(t.el)
        if t.k == "vec":
            return s.size(t)
        if t.k == "struct":
            return 1 if t.packed else max([s.align(f) for f in t.fields] or [1])
        return 1

    def size(s, t):
        t = s.res(t)
        if t.k == "int":
            a = s.align(t)
            return ((t.n + 7) // 8 + a - 1) // a * a
        if t.k == "fp":
            return {16: 2, 32: 4, 64: 8, 80: 16}[t.n]
        if t.k == "ptr":
            return 8
        if t.k in ("arr", "vec"):
            return t.n * s.size(t.el)
        if t.k == "struct":
            o, _ = s.offsets(t)
            return o
        if t.k in ("opaque", "func"):
            return 1
        raise SyntaxError("size of %r" % t)

    def offsets(s, t):
        t = s.res(t)
        o, offs = 0, []
        for f in t.fields:
            a = 1 if t.packed else s.align(f)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += s.size(f)
        a = s.align(t)
        return (o + a - 1) // a * a, offs

    # ---- functions
    def fn(s, name):
        f = s.parsed.get(name)
        if f is None and name in s.fns:
            f = s.parsed[name] = s.parse_fn(name)
        return f

    def parse_fn(s, name):
        head, body = s.fns[name]
        p = P(toks(head))
        while p.peek() != "define":
            p.next()
        p.next()
        # skip linkage etc. until a type parses
        while True:
            x = p.peek()
            if x in ATTR or x in PATTR or x in ("linkonce_odr", "internal", "weak_odr", "private", "hidden", "available_externally", "external", "weak", "linkonce", "comdat"):
                p.attrs() if (x in ATTR or x in PATTR) else p.next()
            else:
                break
        ret = p.type()
        nm = p.next()
        p.need("(")
        params = []
        while not p.eat(")"):
            if p.eat("..."):
                continue
            t = p.type()
            at = p.attrs()
            r = p.next() if p.peek() and p.peek()[0] == "%" else None
            params.append((t, r, at))
            p.eat(",")
        f = Fn(name, ret, params)
        cur = None
        # join multi-line instructions (switch, landingpad, invoke)
        acc = []
        for l in body:
            if not l.strip() or l.strip().startswith(";"):
                continue
            if not l.startswith(" "):
                acc.append(l)
            elif l.startswith("  ") and not l.startswith("   ") and l.strip() != "]":
                acc.append(l)
            else:
                acc[-1] += " " + l.strip()
        for l in acc:
            if not l.startswith(" "):
                m = re.match(r'("(?:[^"])*"|[-\w.$]+):', l)
                cur = "%" + m.group(1)
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = "%0"
                f.blocks[cur] = []
                f.order.append(cur)
            f.blocks[cur].append(s.ins(l))
        return f

    def ins(s, l):
        l2 = re.sub(r', !\w[\w.]* !\d+', '', l)
        l2 = re.sub(r', !range !\{[^}]*\}', '', l2)
        p = P(toks(l2))
        res = None
        if p.peek(1) == "=" and p.peek()[0] == "%":
            res = p.next()
            p.next()
        op = p.next()
        while op in ("tail", "musttail", "notail"):
            op = p.next()
        a = None
        V = p.value
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"):
            p.attrs()
            t = p.type()
            x = V(t)
            p.need(",")
            a = (t, x, V(t))
        elif op in ("fneg", "freeze"):
            p.attrs()
            t = p.type()
            a = (t, V(t))
        elif op in ("icmp", "fcmp"):
            p.attrs()
            c = p.next()
            p.attrs()
            t = p.type()
            x = V(t)
            p.need(",")
            a = (c, t, x, V(t))
        elif op == "alloca":
            p.attrs()
            t = p.type()
            n = None
            if p.eat(","):
                if p.peek() != "align":
                    nt = p.type()
                    n = V(nt)
            a = (t, n)
        elif op == "load":
            p.attrs()
            t = p.type()
            p.need(",")
            p.type()
            a = (t, V(PTR))
        elif op == "store":
            p.attrs()
            t = p.type()
            x = V(t)
            p.need(",")
            p.type()
            a = (t, x, V(PTR))
        elif op == "getelementptr":
            p.attrs()
            bt = p.type()
            ops = []
            while p.eat(","):
                p.attrs()
                t = p.type()
                ops.append((t, V(t)))
            a = (bt, ops)
        elif op in ("zext", "sext", "trunc", "fptoui", "fptosi", "uitofp", "sitofp", "fpext", "fptrunc", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
            p.attrs()
            t = p.type()
            x = V(t)
            p.need("to")
            a = (t, x, p.type())
        elif op == "select":
            p.attrs()
            t = p.type()
            c = V(t)
            p.need(",")
            t1 = p.type()
            x = V(t1)
            p.need(",")
            p.type()
            a = (c, t1, x, V(t1))
        elif op == "phi":
            p.attrs()
            t = p.type()
            inc = []
            while True:
                p.need("[")
                v = V(t)
                p.need(",")
                inc.append((v, p.next()))
                p.need("]")
                if not p.eat(","):
                    break
            a = (t, inc)
        elif op == "br":
            if p.peek() == "label":
                p.next()
                a = (None, p.next(), None)
            else:
                t = p.type()
                c = V(t)
                p.need(",")
                p.next()
                x = p.next()
                p.need(",")
                p.next()
                a = (c, x, p.next())
        elif op == "switch":
            t = p.type()
            v = V(t)
            p.need(",")
            p.next()
            d = p.next()
            p.need("[")
            cs = []
            while not p.eat("]"):
                t2 = p.type()
                cv = V(t2)
                p.need(",")
                p.next()
                cs.append((cv, p.next()))
            a = (v, d, cs)
        elif op == "ret":
            t = p.type()
            a = (t, V(t) if t.k != "void" else None)
        elif op in ("call", "invoke"):
            p.attrs()
            t = p.type()
            p.attrs()
            f = p.next()
            p.need("(")
            args = []
            while not p.eat(")"):
                at = p.type()
                if at.k == "metadata":
                    d = 0
                    while not (d == 0 and p.peek() in (",", ")")):
                        x = p.next()
                        d += (x == "(") - (x == ")")
                    p.eat(",")
                    args.append((at, ("undef",), {}))
                    continue
                ats = p.attrs()
                args.append((at, V(at), ats))
                p.eat(",")
            n = None
            if op == "invoke":
                p.attrs()
                while p.peek() != "to":
                    p.next()
                p.next()
                p.next()
                n = p.next()
            a = (t.el if t.k == "func" else t, f, args, n)
        elif op == "extractvalue":
            t = p.type()
            v = V(t)
            ix = []
            while p.eat(","):
                ix.append(int(p.next()))
            a = (t, v, ix)
        elif op == "insertvalue":
            t = p.type()
            v = V(t)
            p.need(",")
            t2 = p.type()
            x = V(t2)
            ix = []
            while p.eat(","):
                ix.append(int(p.next()))
            a = (t, v, t2, x, ix)
        elif op == "extractelement":
            t = p.type()
            v = V(t)
            p.need(",")
            t2 = p.type()
            a = (t, v, V(t2))
        elif op == "insertelement":
            t = p.type()
            v = V(t)
            p.need(",")
            t2 = p.type()
            x = V(t2)
            p.need(",")
            t3 = p.type()
            a = (t, v, x, V(t3))
        elif op in ("unreachable", "landingpad", "resume"):
            a = ()
        else:
            a = ("?",)
        return Ins(op, res, a, l)


def successors(ins):
    if ins.op == "br":
        return [ins.a[1]] + ([ins.a[2]] if ins.a[2] else [])
    if ins.op == "switch":
        return [ins.a[1]] + [b for _, b in ins.a[2]]
    if ins.op == "invoke":
        return [ins.a[3]]
    return []


class CFG:
    """dominators, loops, post-dominators of one function (exceptional edges left out)"""
    def __init__(s, f):
        s.f = f
        s.entry = f.order[0]
        s.succ = {b: list(dict.fromkeys(successors(f.blocks[b][-1]))) for b in f.order}
        seen, st = set(), [s.entry]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            st += s.succ[b]
        s.nodes = [b for b in f.order if b in seen]
        # nodes that can return
        rets = {b for b in s.nodes if f.blocks[b][-1].op == "ret"}
        pred = {b: [] for b in s.nodes}
        for b in s.nodes:
            for c in s.succ[b]:
                pred[c].append(b)
        live, st = set(), list(rets)
        while st:
            b = st.pop()
            if b in live:
                continue
            live.add(b)
            st += pred[b]
        s.live, s.pred = live, pred
        s.dom = s.dominators()
        s.loops = {}
        for b in s.nodes:
            for c in s.succ[b]:
                if c in s.dom[b]:
                    body = s.loops.setdefault(c, {c})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st += pred[x]

    def dominators(s):
        dom = {b: set(s.nodes) for b in s.nodes}
        dom[s.entry] = {s.entry}
        ch = True
        while ch:
            ch = False
            for b in s.nodes:
                if b == s.entry:
                    continue
                ps = [dom[p] for p in s.pred[b]]
                n = (set.intersection(*ps) if ps else set()) | {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        return dom

    def ipdom(s, nodes, sink, header=None):
        """immediate post-dominators within `nodes`; edges to header (back edges) and returns lead to `sink`, edges leaving the set are ignored"""
        nodes = [b for b in nodes if b in s.live]
        ns = set(nodes)

        def su(b):
            r = []
            if s.f.blocks[b][-1].op == "ret":
                return [sink]
            for c in s.succ[b]:
                if header is not None and c == header:
                    r.append(sink)
                elif c in ns:
                    r.append(c)
            return r
        # keep nodes reaching sink
        ok = {sink}
        ch = True
        while ch:
            ch = False
            for b in nodes:
                if b not in ok and any(c in ok for c in su(b)):
                    ok.add(b)
                    ch = True
        nodes = [b for b in nodes if b in ok]
        pd = {b: set(nodes) | {sink} for b in nodes}
        pd[sink] = {sink}
        ch = True
        while ch:
            ch = False
            for b in reversed(nodes):
                ss = [pd[c] for c in su(b) if c in ok]
                n = set.intersection(*ss) | {b}
                if n != pd[b]:
                    pd[b] = n
                    ch = True
        ip = {}
        for b in nodes:
            c = pd[b] - {b}
            for x in c:
                if all(y in pd[x] for y in c):
                    ip[b] = x
        return ip, ok
