"""Builds the current /repo Fortran sources into a shared object and calls routines through the compiled ABI (replay)."""
import os, re, subprocess, tempfile, ctypes, shutil, hashlib, atexit
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import ftn

FC = ["mpif90", "-fallow-argument-mismatch"]
ENV = dict(os.environ, OMPI_FC="gfortran", OMPI_CC="gcc", LC_ALL="C")
_built = {}


def scan(path, defs):
    t = ftn.preprocess(path, defs).lower()
    mods = set(re.findall(r"^\s*module\s+(?!procedure\b)(\w+)\s*(?:!.*)?$", t, re.M))
    uses = set(re.findall(r"^\s*use\s*(?:,\s*\w+\s*::)?\s*(\w+)", t, re.M))
    return mods, uses


def build(defs=("FFTW=1",), flags=("-O1", "-fPIC", "-w"), extra=(), skip=("src/main.F90",), files=None):
    """returns path of a .so with all Fortran sources (+ extra driver sources)"""
    key = (defs, flags, tuple(extra), files)
    if key in _built:
        return _built[key]
    tmp = tempfile.mkdtemp(prefix="dvbuild")
    atexit.register(shutil.rmtree, tmp, True)
    srcs = [f for f in (files or ftn.list_sources()) if f not in skip and "profiling" not in f]
    with ThreadPoolExecutor(8) as ex:
        sc = dict(zip(srcs, ex.map(lambda f: scan(f, defs), srcs)))
    for e in extra:
        t = open(e).read().lower()
        sc[e] = (set(re.findall(r"^\s*module\s+(?!procedure\b)(\w+)\s*$", t, re.M)), set(re.findall(r"^\s*use\s+(\w+)", t, re.M)))
    where = {m: f for f in sc for m in sc[f][0]}
    dep = {f: {where[u] for u in sc[f][1] if u in where} - {f} for f in sc}
    done, objs, left = set(), [], dict(dep)

    def comp(f):
        o = os.path.join(tmp, re.sub(r"\W", "_", f) + ".o")
        p = f if os.path.isabs(f) else os.path.join(ftn.REPO, f)
        r = subprocess.run(FC + ["-cpp"] + ["-D" + d for d in defs] + list(flags) + ["-I/usr/include", "-J" + tmp, "-c", p, "-o", o], capture_output=True, env=ENV, cwd=tmp)
        return f, o, r
    with ThreadPoolExecutor(8) as ex:
        while left:
            ready = [f for f in left if left[f] <= done]
            if not ready:
                raise RuntimeError("module cycle: %s" % list(left)[:5])
            for f, o, r in ex.map(comp, ready):
                if r.returncode:
                    raise RuntimeError("compile of %s failed: %s" % (f, r.stderr.decode()[-800:]))
                objs.append(o)
                done.add(f)
                del left[f]
    so = os.path.join(tmp, "libreal.so")
    r = subprocess.run(FC + ["-shared", "-o", so] + objs + ["-lfftw3_mpi", "-lfftw3_omp", "-lfftw3", "-lgomp"], capture_output=True, env=ENV)
    if r.returncode:
        r = subprocess.run(FC + ["-shared", "-o", so] + objs, capture_output=True, env=ENV)
        if r.returncode:
            raise RuntimeError("link failed " + r.stderr.decode()[-500:])
    _built[key] = so
    return so


def closure(prog, names):
    """source files needed for the given routines: definitions of everything they (transitively) call + their modules"""
    files, seen, todo = set(), set(), list(names)
    modfile = {}
    for m, u in prog.modules.items():
        modfile[m] = u.file

    def addmod(m):
        f = modfile.get(m)
        if f is None or f in files:
            return
        files.add(f)
        for x in prog.modules.values():
            if x.file == f:
                for y, _ in x.uses:
                    addmod(y)
                for c in x.contains.values():
                    for y, _ in c.uses:
                        addmod(y)
        fileuses(f)

    def fileuses(f):
        for u in list(prog.units.values()):
            if u.file == f:
                for y, _ in u.uses:
                    addmod(y)

    def calls(b, out):
        if isinstance(b, tuple):
            if len(b) > 2 and b[0] == "call":
                out.add(b[2][1])
            if b and b[0] == "name" and len(b) == 2:
                out.add(b[1])
            for x in b:
                calls(x, out)
        elif isinstance(b, list):
            for x in b:
                calls(x, out)
    while todo:
        n = todo.pop()
        u = prog.units.get(n)
        if u is None or n in seen:
            continue
        seen.add(n)
        if u.file not in files:
            files.add(u.file)
            for m in prog.modules.values():
                if m.file == u.file:
                    for y, _ in m.uses:
                        addmod(y)
            fileuses(u.file)
        out = set()
        calls(u.body, out)
        for c in u.contains.values():
            calls(c.body, out)
        todo += [x for x in out if x in prog.units]
    return tuple(sorted(files))


def extract(prog, name):
    """(module files, file holding the text of one external routine only): for routines living in a file with heavy dependencies"""
    u = prog.units[name]
    t = open(os.path.join(ftn.REPO, u.file)).read()
    m = re.search(r"(?ims)^[ \t]*subroutine[ \t]+%s\b.*?^[ \t]*end[ \t]+subroutine[ \t]+%s\b[^\n]*\n" % (name, name), t)
    if m is None:
        return None
    d = tempfile.mkdtemp(prefix="dvext")
    atexit.register(shutil.rmtree, d, True)
    f = os.path.join(d, name + ".F90")
    open(f, "w").write(m.group(0))
    todo, files = [x for x, _ in u.uses], set()
    while todo:
        w = prog.modules.get(todo.pop())
        if w is not None and w.file not in files:
            files.add(w.file)
            todo += [y for x in prog.modules.values() if x.file == w.file for y, _ in x.uses]
    return tuple(sorted(files)), f


class Dim(ctypes.Structure):
    _fields_ = [("stride", ctypes.c_ssize_t), ("lb", ctypes.c_ssize_t), ("ub", ctypes.c_ssize_t)]


def descriptor(arr, lbs):
    """gfortran array descriptor for a Fortran-ordered numpy array with given lower bounds"""
    n = arr.ndim

    class Desc(ctypes.Structure):
        _fields_ = [("base", ctypes.c_void_p), ("offset", ctypes.c_ssize_t), ("elem_len", ctypes.c_size_t), ("version", ctypes.c_int),
                    ("rank", ctypes.c_byte), ("type", ctypes.c_byte), ("attribute", ctypes.c_short), ("span", ctypes.c_ssize_t), ("dim", Dim * n)]
    d = Desc()
    d.base = arr.ctypes.data
    d.elem_len = arr.itemsize
    d.version = 0
    d.rank = n
    d.type = {"f": 3, "i": 1, "c": 4}.get(arr.dtype.kind, 1)
    d.attribute = 0
    d.span = arr.itemsize
    off = 0
    for k in range(n):
        d.dim[k].stride = arr.strides[k] // arr.itemsize
        d.dim[k].lb = lbs[k]
        d.dim[k].ub = lbs[k] + arr.shape[k] - 1
        off -= d.dim[k].stride * lbs[k]
    d.offset = off
    return d


def load(so):
    return ctypes.CDLL(so, mode=ctypes.RTLD_GLOBAL | os.RTLD_LAZY)


def fsym(lib, name, module=None):
    if module:
        try:
            return getattr(lib, "__%s_MOD_%s" % (module, name))
        except AttributeError:
            return getattr(lib, name)           # bind(c)
        return getattr(lib, "__%s_MOD_%s" % (module, name))
    return getattr(lib, name + "_")
