"""fills the generated tables of DESIGN.md: planted changes (seeded/*/meta.json) and properties not claimed"""
import glob, json, os, re
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
na = ["* **%s %s** - %s" % (p["id"], p["title"], p["na"]) for p in registry.P if p["na"]]
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
for name, body in (("SEEDS", rows), ("NA", na)):
    b, e = "<!-- %s -->" % name, "<!-- /%s -->" % name
    s = s.replace("@@%s@@" % name, b + "\n" + e)
    i, j = s.index(b) + len(b), s.index(e)
    s = s[:i] + "\n" + "\n".join(body) + "\n" + s[j:]
open(p, "w").write(s)
