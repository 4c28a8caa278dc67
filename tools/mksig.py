"""records the signatures of the internal functions under contract
(vc/signatures.json), so that a later reordering of their parameters or a new
name can be followed"""
import sys, json, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vc import frontend as F
F._sigs = {}
from vc.concrete import load_registry
out = {}
for k, c in load_registry().items():
    if not c.static:
        continue
    tu = F.load(c.src)
    d = out.setdefault(tu.path, {"all": sorted(tu.funcs), "contracts": {}})
    if c.name in tu.funcs:
        d["contracts"][c.name] = F.signature(tu.funcs[c.name])
json.dump(out, open(os.path.join(os.path.dirname(F.__file__), "signatures.json"), "w"), indent=0, sort_keys=True)
