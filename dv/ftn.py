"""Fortran front end: mechanical extraction of routines from /repo's current source.

The file is preprocessed by the project's own preprocessor call (gfortran -cpp -E -P with the project's -D flags),
continuation lines are joined, comments and !$OMP / !DIR$ lines are dropped (the project's MODE=prod build has no
-fopenmp, so they are comments to the compiler too), and the text is parsed into an AST.  Nothing else is dropped;
WRITE/PRINT statements are kept as no-op statements.  Anything outside the accepted subset raises Unsupported."""
import os, re, subprocess
from fractions import Fraction
from functools import lru_cache

REPO = os.environ.get("PICSAR_REPO", "/repo")


class Unsupported(Exception):
    pass


def preprocess(path, defs=("FFTW=1",)):
    cmd = ["gfortran", "-cpp", "-E", "-P"] + ["-D" + d for d in defs] + [os.path.join(REPO, path)]
    r = subprocess.run(cmd, capture_output=True)
    if r.returncode != 0:
        raise Unsupported("preprocess failed: " + r.stderr.decode()[:300])
    return r.stdout.decode("utf-8", "replace")


def logical_lines(text):
    """[(lineno, text)] comments stripped, continuations joined, ';' split."""
    out, cur, curno = [], "", None
    for no, raw in enumerate(text.split("\n"), 1):
        line, q = "", None
        for i, c in enumerate(raw):
            if q:
                if c == q:
                    q = None
                line += c
            elif c in "'\"":
                q = c
                line += c
            elif c == "!":
                break
            else:
                line += c
        s = line.strip()
        if not s or s.startswith("#"):
            continue
        if cur:
            if s.startswith("&"):
                s = s[1:]
            cur += s
        else:
            cur, curno = s, no
        if cur.endswith("&"):
            cur = cur[:-1].rstrip() + " "
            continue
        out.append((curno, cur))
        cur = ""
    if cur:
        out.append((curno, cur))
    res = []
    for no, s in out:
        if ";" in s and "'" not in s and '"' not in s:
            res += [(no, p.strip()) for p in s.split(";") if p.strip()]
        else:
            res.append((no, s))
    return res


TOK = re.compile(r"""\s*(?:
 (?P<num>(?:\d+\.\d*(?![a-zA-Z]+\.)|\.\d+|\d+)(?:[eEdD][+-]?\d+)?(?:_\w+)?)
|(?P<dotop>\.(?:and|or|not|eqv|neqv|eq|ne|lt|le|gt|ge|true|false)\.(?:_\w+)?)
|(?P<name>[A-Za-z_]\w*)
|(?P<str>'(?:[^']|'')*'|"(?:[^"]|"")*")
|(?P<op>\*\*|//|==|/=|<=|>=|=>|::|\(/|/\)|[-+*/<>=(),:%\[\]])
)""", re.X | re.I)


def tokenize(s):
    toks, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise Unsupported("token: " + s[i:i + 30])
        k = m.lastgroup
        v = m.group(k)
        if k == "name":
            v = v.lower()
        elif k == "dotop":
            v = v.lower().split("_")[0] if not v.endswith(".") else v.lower()
        toks.append((k, v))
        i = m.end()
    return toks


PREC = [(".eqv.", ".neqv."), (".or.",), (".and.",)]
REL = {".eq.": "==", ".ne.": "/=", ".lt.": "<", ".le.": "<=", ".gt.": ">", ".ge.": ">=",
       "==": "==", "/=": "/=", "<": "<", "<=": "<=", ">": ">", ">=": ">="}


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def pk(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def nx(self):
        r = self.pk()
        self.i += 1
        return r

    def acc(self, v):
        if self.pk()[1] == v and self.pk()[0] != "str":
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise Unsupported("expected %s got %s in %s" % (v, self.pk(), " ".join(t[1] for t in self.t)[:200]))

    def end(self):
        return self.i >= len(self.t)

    def expr(self, lvl=0):
        if lvl < 3:
            a = self.expr(lvl + 1)
            while self.pk()[1] in PREC[lvl] and self.pk()[0] == "dotop":
                op = self.nx()[1]
                a = ("bin", op, a, self.expr(lvl + 1))
            return a
        if self.pk()[1] == ".not.":
            self.nx()
            return ("un", ".not.", self.expr(3))
        a = self.add()
        if self.pk()[1] in REL and self.pk()[0] in ("op", "dotop"):
            op = REL[self.nx()[1]]
            a = ("bin", op, a, self.add())
        return a

    def add(self):
        if self.pk()[1] in ("-", "+") and self.pk()[0] == "op":
            op = self.nx()[1]
            a = self.mul()
            if op == "-":
                a = ("un", "-", a)
        else:
            a = self.mul()
        while self.pk() in (("op", "+"), ("op", "-"), ("op", "//")):
            op = self.nx()[1]
            a = ("bin", op, a, self.mul())
        return a

    def mul(self):
        a = self.pw()
        while self.pk() in (("op", "*"), ("op", "/")):
            op = self.nx()[1]
            a = ("bin", op, a, self.pw())
        return a

    def pw(self):
        if self.pk() in (("op", "-"), ("op", "+")):
            op = self.nx()[1]
            a = self.pw()
            return ("un", "-", a) if op == "-" else a
        a = self.prim()
        if self.pk() == ("op", "**"):
            self.nx()
            return ("bin", "**", a, self.pw())
        return a

    def prim(self):
        k, v = self.nx()
        if k == "num":
            base = v.split("_")[0].lower().replace("d", "e")
            kind = v.split("_")[1] if "_" in v else None
            isr = any(c in base for c in ".e")
            if isr and kind is None and "d" in v.lower():
                kind = "num"
            return ("num", Fraction(base) if not base.endswith(".") else Fraction(base[:-1]), isr, kind)
        if k == "str":
            return ("str", v[1:-1])
        if k == "dotop" and v in (".true.", ".false."):
            return ("log", v == ".true.")
        if v == "(" and k == "op":
            a = self.expr()
            if self.acc(","):
                b = self.expr()
                self.exp(")")
                return ("cplx", a, b)
            self.exp(")")
            return self.post(("par", a))
        if v in ("(/", "["):
            cl = "/)" if v == "(/" else "]"
            items = []
            while not self.acc(cl):
                items.append(self.arg())
                self.acc(",")
            return ("arr", items)
        if k == "name":
            return self.post(("name", v))
        raise Unsupported("primary %s in %s" % ((k, v), " ".join(t[1] for t in self.t)[:200]))

    def post(self, a):
        while True:
            if self.pk() == ("op", "("):
                self.nx()
                args = []
                while not self.acc(")"):
                    args.append(self.arg())
                    self.acc(",")
                a = ("ref", a, args)
            elif self.pk() == ("op", "(/") and a[0] in ("name", "fld"):
                # a( / ... unlikely
                raise Unsupported("(/ after name")
            elif self.pk() == ("op", "%"):
                self.nx()
                a = ("fld", a, self.nx()[1])
            else:
                return a

    def arg(self):
        if self.pk()[0] == "name" and self.pk(1) == ("op", "="):
            n = self.nx()[1]
            self.nx()
            return ("kw", n, self.expr())
        lo = None
        if self.pk() == ("op", "::"):
            self.nx()
            return ("slice", None, None, self.expr())
        if self.pk() != ("op", ":"):
            lo = self.expr()
        if self.pk() in (("op", ":"), ("op", "::")):
            dbl = self.nx()[1] == "::"
            hi = st = None
            if dbl:
                st = self.expr()
            else:
                if self.pk()[1] not in (",", ")", ":"):
                    hi = self.expr()
                if self.acc(":"):
                    st = self.expr()
            return ("slice", lo, hi, st)
        return lo


def parse_expr(s):
    p = P(tokenize(s))
    e = p.expr()
    if not p.end():
        raise Unsupported("trailing in expr " + s)
    return e


class Unit:
    def __init__(s, kind, name, args, result=None):
        s.kind, s.name, s.args, s.result = kind, name, args, result
        s.decls, s.body, s.uses, s.contains, s.types, s.ifaces = {}, [], [], {}, {}, {}
        s.file = None
        s.line = 0
        s.parent = None

    def __repr__(s):
        return "<%s %s>" % (s.kind, s.name)


class Decl:
    """type: integer/real/logical/complex/character/('type',name); dims: None or list of (lo,hi) asts
    (hi '*' or ':' strings for assumed), attrs set, init ast"""
    def __init__(s, name, ty, dims, attrs, init, kind=None):
        s.name, s.ty, s.dims, s.attrs, s.init, s.kind = name, ty, dims, attrs, init, kind

    def __repr__(s):
        return "Decl(%s %s %s)" % (s.ty, s.name, s.dims)


TYPES = ("integer", "real", "logical", "complex", "character", "double")


def split_top(toks):
    """split token list on top-level commas"""
    out, cur, d = [], [], 0
    for t in toks:
        if t[0] == "op" and t[1] in "([":
            d += 1
        if t[0] == "op" and t[1] in ")]":
            d -= 1
        if t == ("op", ",") and d == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def parse_dims(p):
    """after '(' consumed"""
    dims = []
    while not p.acc(")"):
        if p.acc("*"):
            dims.append((None, "*"))
        elif p.pk() == ("op", ":") and p.pk(1)[1] in (",", ")"):
            p.nx()
            dims.append((None, ":"))
        else:
            lo = p.expr()
            if p.acc(":"):
                if p.acc("*"):
                    dims.append((lo, "*"))
                elif p.pk()[1] in (",", ")"):
                    dims.append((lo, ":"))
                else:
                    dims.append((lo, p.expr()))
            else:
                dims.append((None, lo))
        p.acc(",")
    return dims


def parse_decl(toks, isdecl_only=True):
    """returns list of Decl or None if not a declaration"""
    p = P(toks)
    k, v = p.pk()
    if k != "name":
        return None
    if v == "type" and p.pk(1) == ("op", "("):
        p.nx(); p.nx()
        ty = ("type", p.nx()[1])
        p.exp(")")
        kind = None
    elif v == "procedure":
        return []
    elif v in TYPES:
        p.nx()
        ty = v
        kind = None
        if v == "double":
            p.nx()
            ty = "real"
        if p.pk() == ("op", "*"):
            p.nx()
            if not p.acc("("):
                kind = ("lit", p.nx()[1])
            else:
                p.i -= 1
        if p.pk() == ("op", "("):
            d, q = 0, p.i
            while True:
                if p.pk() == ("op", "("):
                    d += 1
                if p.pk() == ("op", ")"):
                    d -= 1
                p.nx()
                if d == 0:
                    break
            kind = "".join(t[1] for t in p.t[q + 1:p.i - 1])
    else:
        return None
    attrs, dims0 = set(), None
    while p.acc(","):
        a = p.nx()[1]
        if a == "dimension":
            p.exp("(")
            dims0 = parse_dims(p)
        elif a == "intent":
            p.exp("(")
            w = ""
            while not p.acc(")"):
                w += p.nx()[1]
            attrs.add("intent_" + w)
        elif a == "bind":
            p.exp("(")
            while not p.acc(")"):
                p.nx()
        else:
            attrs.add(a)
    p.acc("::")
    out = []
    if p.pk()[0] == "name" and p.pk()[1] in ("function", "subroutine"):
        return None
    while not p.end():
        n = p.nx()
        if n[0] != "name":
            return None
        dims, init = dims0, None
        if p.acc("("):
            dims = parse_dims(p)
        if p.acc("*"):
            p.nx()
        if p.acc("=>"):
            init = p.expr()
        elif p.acc("="):
            init = p.expr()
        out.append(Decl(n[1], ty, dims, attrs, init, kind))
        if not p.acc(","):
            break
    if not p.end():
        return None
    return out


class FileParser:
    def __init__(self, text, fname):
        self.lines = logical_lines(text)
        self.i = 0
        self.fname = fname
        self.units = {}     # all subroutines/functions by name (incl. contained as parent.name also)
        self.modules = {}

    def peek(self):
        return self.lines[self.i] if self.i < len(self.lines) else (None, None)

    def parse(self):
        while self.i < len(self.lines):
            no, s = self.peek()
            u = self.try_unit_start(s, no)
            if u is None:
                self.i += 1     # stray
                continue
            self.i += 1
            self.parse_unit(u)
            if u.kind == "module":
                self.modules[u.name] = u
                for c in u.contains.values():
                    self.units.setdefault(c.name, c)
            else:
                self.units[u.name] = u
        return self

    START = re.compile(r"^(?:(?:recursive|pure|elemental|integer|real|logical|complex|type|double\s+precision)(?:\s*\([^)]*\))?\s+)*(subroutine|function|module|program)\s+(\w+)\s*(?:\((.*?)\))?\s*(.*)$", re.I)

    def try_unit_start(self, s, no):
        l = s.lower()
        m = self.START.match(s)
        if not m or l.startswith("end") or "=" in s.split("(")[0]:
            return None
        kind, name = m.group(1).lower(), m.group(2).lower()
        if kind == "module" and name == "procedure":
            return None
        args = [a.strip().lower() for a in (m.group(3) or "").split(",") if a.strip()]
        rest = m.group(4) or ""
        res = None
        mm = re.search(r"result\s*\(\s*(\w+)\s*\)", s, re.I)
        if kind == "function":
            res = mm.group(1).lower() if mm else name
        u = Unit(kind, name, args, res)
        pre = s[:m.start(1)].strip().lower()
        mt = re.match(r"(?:recursive|pure|elemental)?\s*(integer|real|logical|complex)", pre)
        if kind == "function" and mt:
            u.decls[res] = Decl(res, mt.group(1), None, set(), None)
        u.file, u.line = self.fname, no
        return u

    ENDU = re.compile(r"^end\s*(subroutine|function|module|program)?\s*(\w*)$", re.I)

    def parse_unit(self, u):
        # specification part + exec part
        stmts = []
        while True:
            no, s = self.peek()
            if s is None:
                raise Unsupported("eof in " + u.name)
            l = s.lower()
            m = self.ENDU.match(s)
            if m and (m.group(1) or l == "end"):
                self.i += 1
                return
            if l == "contains":
                self.i += 1
                while True:
                    no, s = self.peek()
                    c = self.try_unit_start(s, no)
                    if c is None:
                        break
                    self.i += 1
                    c.parent = u
                    self.parse_unit(c)
                    u.contains[c.name] = c
                continue
            if re.match(r"interface\b", l):
                self.i += 1
                while not re.match(r"end\s*interface", self.peek()[1].lower()):
                    no, s2 = self.peek()
                    c = self.try_unit_start(s2, no)
                    self.i += 1
                    if c is not None:
                        self.parse_unit(c)
                        u.ifaces[c.name] = c
                self.i += 1
                continue
            if re.match(r"type\b(?!\s*\()", l) and "=" not in l:
                name = re.match(r"type\s*(?:,[^:]*)?(?:::)?\s*(\w+)", l).group(1)
                self.i += 1
                fields = {}
                while not re.match(r"end\s*type", self.peek()[1].lower()):
                    try:
                        for d in parse_decl(tokenize(self.peek()[1])) or []:
                            fields[d.name] = d
                    except Unsupported:
                        pass
                    self.i += 1
                self.i += 1
                u.types[name] = fields
                continue
            if u.kind == "module" or self.is_spec(l):
                self.i += 1
                self.spec(u, s, l)
                continue
            try:
                u.body.append(self.stmt())
            except Unsupported as e:
                raise Unsupported("%s:%s: %s" % (self.fname, no, e))

    def is_spec(self, l):
        if re.match(r"(use|implicit|include|external|intrinsic|save|parameter|public|private|dimension)\b", l) and not re.match(r"\w+\s*(\([^)]*\))?\s*=", l):
            return True
        if re.match(r"(integer|real|logical|complex|character|double\s+precision|type\s*\(|procedure\s*\()", l):
            if re.match(r"(real|type)\s*\(", l) or True:
                try:
                    return parse_decl(tokenize(l)) is not None
                except Unsupported:
                    return False
        return False

    def spec(self, u, s, l):
        m = re.match(r"use\s*(?:,\s*intrinsic\s*)?(?:::)?\s*(\w+)\s*(?:,\s*(only\s*:)?(.*))?$", l)
        if m:
            only = [x.strip() for x in (m.group(3) or "").split(",") if x.strip()] if m.group(2) else None
            u.uses.append((m.group(1), only))
            return
        if re.match(r"(implicit|include|external|intrinsic|save|public|private)\b", l):
            return
        m = re.match(r"parameter\s*\((.*)\)$", l)
        if m:
            for it in split_top(tokenize(m.group(1))):
                n = it[0][1]
                if n in u.decls:
                    u.decls[n].init = P(it[2:]).expr()
                    u.decls[n].attrs = set(u.decls[n].attrs) | {"parameter"}
            return
        try:
            ds = parse_decl(tokenize(s))
        except Unsupported:
            ds = None
        if ds is None:
            return
        for d in ds:
            u.decls[d.name] = d

    # ---- statements
    def block(self, enders):
        out = []
        while True:
            no, s = self.peek()
            if s is None:
                raise Unsupported("eof in block")
            l = s.lower()
            for e in enders:
                if re.match(e, l):
                    return out
            out.append(self.stmt())

    def stmt(self):
        no, s = self.peek()
        l = s.lower()
        self.i += 1
        # construct labels
        m = re.match(r"(\w+)\s*:\s*(do|if|select)\b(.*)$", s, re.I)
        label = None
        if m:
            label = m.group(1).lower()
            s = m.group(2) + m.group(3)
            l = s.lower()
        m = re.match(r"if\s*\(", l)
        if m:
            cond, rest = self.paren(s[s.index("("):])
            if rest.strip().lower() == "then":
                arms = []
                body = self.block([r"else\s*if\s*\(", r"else$", r"end\s*if\b"])
                arms.append((parse_expr(cond), body))
                els = []
                while True:
                    no2, s2 = self.peek()
                    self.i += 1
                    if re.match(r"else\s*if\s*\(", s2, re.I):
                        c2, _ = self.paren(s2[s2.index("("):])
                        b2 = self.block([r"else\s*if\s*\(", r"else$", r"end\s*if\b"])
                        arms.append((parse_expr(c2), b2))
                    elif re.match(r"else$", s2.strip(), re.I):
                        els = self.block([r"end\s*if\b"])
                    else:
                        break
                return ("if", no, arms, els)
            elif not re.match(r"\s*=[^=]", rest):
                st = self.simple(rest.strip(), no)
                return ("if", no, [(parse_expr(cond), [st])], [])
        m = re.match(r"do\s+while\s*\(", l)
        if m:
            cond, _ = self.paren(s[s.index("("):])
            b = self.block([r"end\s*do\b"])
            self.i += 1
            return ("while", no, parse_expr(cond), b, label)
        m = re.match(r"do\s+(?:\d+\s+)?(\w+)\s*=(.*)$", l)
        if m:
            parts = split_top(tokenize(m.group(2)))
            es = [P(x).expr() for x in parts]
            b = self.block([r"end\s*do\b"])
            self.i += 1
            return ("do", no, m.group(1), es[0], es[1], es[2] if len(es) > 2 else None, b, label)
        if l == "do":
            b = self.block([r"end\s*do\b"])
            self.i += 1
            return ("while", no, ("log", True), b, label)
        m = re.match(r"select\s*case\s*\(", l)
        if m:
            e, _ = self.paren(s[s.index("("):])
            cases = []
            while not re.match(r"end\s*select", self.peek()[1].lower()):
                n2, s2 = self.peek()
                self.i += 1
                mm = re.match(r"case\s*default", s2, re.I)
                if mm:
                    sel = None
                else:
                    c, _ = self.paren(s2[s2.index("("):])
                    sel = []
                    for it in split_top(tokenize(c)):
                        sel.append(P(it).arg())
                cases.append((sel, self.block([r"case\b\s*(\(|default)", r"end\s*select"])))
            self.i += 1
            return ("select", no, parse_expr(e), cases)
        m = re.match(r"where\s*\(", l)
        if m:
            cond, rest = self.paren(s[s.index("("):])
            if rest.strip():
                return ("where", no, parse_expr(cond), [self.simple(rest.strip(), no)], [])
            b = self.block([r"else\s*where", r"end\s*where"])
            els = []
            if re.match(r"else\s*where", self.peek()[1], re.I):
                self.i += 1
                els = self.block([r"end\s*where"])
            self.i += 1
            return ("where", no, parse_expr(cond), b, els)
        return self.simple(s, no)

    def paren(self, s):
        d, q = 0, None
        for i, c in enumerate(s):
            if q:
                if c == q:
                    q = None
            elif c in "'\"":
                q = c
            elif c == "(":
                d += 1
            elif c == ")":
                d -= 1
                if d == 0:
                    return s[1:i], s[i + 1:]
        raise Unsupported("unbalanced " + s)

    def simple(self, s, no):
        l = s.lower().strip()
        s = s.strip()
        if l in ("return", "cycle", "exit", "continue"):
            return (l if l != "continue" else "nop", no, None)
        m = re.match(r"(cycle|exit)\s+(\w+)$", l)
        if m:
            return (m.group(1), no, m.group(2))
        if re.match(r"(stop|error stop)\b", l):
            return ("stop", no)
        if re.match(r"(print|write|open|close|read|inquire|flush|rewind)\b", l) and not re.match(r"\w+\s*(\([^=]*\))?\s*=[^=]", l):
            return ("io", no, l.split("(")[0].split()[0])
        m = re.match(r"call\s+", l)
        if m:
            p = P(tokenize(s[m.end():]))
            a = p.prim()
            if a[0] == "ref":
                return ("call", no, a[1], a[2])
            return ("call", no, a, [])
        m = re.match(r"(allocate|deallocate|nullify)\s*\(", l)
        if m:
            inner, _ = self.paren(s[s.index("("):])
            items = [P(x).arg() for x in split_top(tokenize(inner))]
            return (m.group(1), no, items)
        p = P(tokenize(s))
        lhs = p.prim()
        if p.acc("=>"):
            return ("ptr", no, lhs, p.expr())
        if p.acc("="):
            r = p.expr()
            if not p.end():
                raise Unsupported("trailing: " + s)
            return ("asg", no, lhs, r)
        raise Unsupported("statement: " + s)


@lru_cache(None)
def parse_file(path, defs=("FFTW=1",)):
    return FileParser(preprocess(path, defs), path).parse()


def list_sources():
    out = []
    for d, dirs, files in os.walk(os.path.join(REPO, "src")):
        if "multi_physics" in dirs:
            dirs.remove("multi_physics")
        for f in sorted(files):
            if f.endswith(".F90"):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)


if __name__ == "__main__":
    import sys
    for f in list_sources():
        try:
            r = parse_file(f)
            print("ok ", f, len(r.units), len(r.modules))
        except Unsupported as e:
            print("BAD", f, str(e)[:200])
