"""writes the table of planted bugs into DESIGN.md"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import seeds
NF = set(open(os.path.join(V, "tools", "nf.txt")).read().split()) if os.path.exists(os.path.join(V, "tools", "nf.txt")) else set()
rows = ["| bug | property | file | what it needs | caught by |", "|---|---|---|---|---|"]
for s in seeds.SEEDS:
    rows.append("| %s | %s | %s | %s | %s%s |" % (s["id"], s["property"], s["file"], s["needs"], s["property"], " nf" if s["id"] in NF else ""))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
m = re.search(r"@@CATCHES@@|\| bug \| property.*?(?=\n\n|\Z)", t, re.S)
t = t[:m.start()] + "\n".join(rows) + t[m.end():]
open(p, "w").write(t.rstrip("\n") + "\n")
