"""Rewrites the generated parts of DESIGN.md (between the markers): repairs and planted bugs."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
fx = ["- %s" % re.sub(r"^fixed: property=(\S+) (\S+) ", r"\1 (\2): ", l.strip()) for l in open(os.path.join(V, "known-findings.txt")) if l.startswith("fixed:")]
sd = []
late = json.load(open(os.path.join(V, "tools", "late.json")))
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    sd.append("| %s | %s | %s |" % (i, m["what_it_breaks"].replace("|", "/").replace("\n", " ")[:170], late.get(i, "yes")))
fx, sd = "\n".join(fx), "| id | what it breaks | caught by %s's quick check |\n|---|---|---|\n" % "its property" + "\n".join(sd)
def put(name, body):
    global t
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    if "%(" + name + ")s" in t:
        t = t.replace("%(" + name + ")s", a + "\n" + body + "\n" + b)
    else:
        t = t[:t.index(a)] + a + "\n" + body + "\n" + t[t.index(b):]
put("fixes", fx)
put("seeds", sd)
open(p, "w").write(t)
