"""development helper: writes seeded/<id>/ from a list of (file, unique old text, new text) edits and a demo program"""
import os, subprocess, sys, json, tempfile, shutil
SEED = "/verif/seeded"
REPO = "/repo"

FSH = '''#!/bin/bash
# exit 0 when the routine behaves as its property says, nonzero otherwise; run with cwd = the repository
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export OMPI_FC=gfortran OMPI_CC=gcc LC_ALL=C OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
mpif90 -cpp -DFFTW=1 %s -O1 -w -ffree-line-length-none -fallow-argument-mismatch -J"$T" -I"$T" -I/usr/include -o "$T/demo" %s "$D/demo.F90" %s || exit 3
cd "$T" && timeout 250 ./demo
'''
CSH = '''#!/bin/bash
# exit 0 when the library behaves as its property says, nonzero otherwise; run with cwd = the repository
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -O1 -w %s -I"$R/src/multi_physics/QED/src" -I"$R/src/multi_physics/QED/include" -o "$T/demo" "$D/demo.cpp" || exit 3
cd "$T" && timeout 250 ./demo
'''


def seed(id, prop, edits, needs, breaks, demo, files=(), lang="f", flags="", libs=""):
    d = os.path.join(SEED, id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        names = []
        for f, old, new in edits:
            for ab in "ab":
                p = os.path.join(t, ab, f)
                if not os.path.exists(p):
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    shutil.copy(os.path.join(REPO, f), p)
            p = os.path.join(t, "b", f)
            s = open(p).read()
            within = None
            if isinstance(old, tuple):
                within, old = old
            if within:
                at = s.lower().index(within.lower())
                assert old in s[at:], (id, "old text not found after", within)
                i = s.index(old, at)
            else:
                assert s.count(old) == 1, (id, f, s.count(old), old)
                i = s.index(old)
            s = s[:i] + new + s[i + len(old):]
            open(p, "w").write(s)
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True, text=True)
        assert r.stdout
        open(os.path.join(d, "patch.diff"), "w").write(r.stdout.replace("diff --git a/", "diff --git a/"))
    finally:
        shutil.rmtree(t)
    ext = "demo.F90" if lang == "f" else "demo.cpp"
    open(os.path.join(d, ext), "w").write(demo)
    sh = FSH % (flags, " ".join(files), libs) if lang == "f" else CSH % flags
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
