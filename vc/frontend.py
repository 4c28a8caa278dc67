"""Mechanical extraction of functions from /repo: one clang run per translation
unit, no source edits.  Every function body, record layout, enum constant and
constant initialiser the verifier sees comes from the tree clang prints."""
import json
import os
import subprocess

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))

FLAGS = ["-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", "-DHAVE_CONFIG_H",
         "-DFLOAT64", "-O3", "-ffast-math", "-march=x86-64-v3",
         "-I" + os.path.join(HERE, "stubinc"), "-I" + os.path.join(HERE, "cfg")]


class ExtractionError(Exception):
    pass


class TU:
    """functions, globals, records and enum constants of one source file"""

    def __init__(self, path):
        self.path = path
        self.funcs = {}
        self.protos = {}
        self.globals = {}
        self.records = {}
        self.enums = {}
        self.typedefs = {}
        self.decls = {}
        self.alias = {}         # today's name of an internal function -> the name in its contract
        self.perm = {}          # internal function -> positions of the parameters its contract lists


PREFIX = (("armas_d_", "armas_"), ("armas_dsp_", "armassp_"), ("mat_d_", "mat_"), ("vec_d_", "vec_"))


def short(name):
    """the type-independent name used in the sources"""
    for p, q in PREFIX:
        if name.startswith(p):
            return q + name[len(p):]
    return name


_tus = {}


def load(rel):
    if rel in _tus:
        return _tus[rel]
    src = os.path.join(REPO, "src")
    full = os.path.join(src, rel)
    if not os.path.exists(full):
        raise ExtractionError("no such source file: src/%s" % rel)
    cmd = ["clang"] + FLAGS + ["-I" + src, "-I" + os.path.join(src, "include"), full]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=src)
    if p.returncode != 0 or not p.stdout:
        raise ExtractionError("clang rejects src/%s: %s" % (rel, p.stderr.decode()[:400]))
    d = json.loads(p.stdout)
    tu = TU(rel)
    recs = {}
    for n in d["inner"]:
        k = n["kind"]
        if k == "FunctionDecl":
            nm = short(n["name"])
            tu.decls[n["id"]] = n
            if any(c["kind"] == "CompoundStmt" for c in n.get("inner", [])):
                tu.funcs[nm] = n
            else:
                tu.protos.setdefault(nm, n)
        elif k == "VarDecl":
            tu.globals[n["id"]] = n
        elif k == "RecordDecl":
            recs[n["id"]] = n
            if n.get("completeDefinition"):
                tu.records[n.get("name", n["id"])] = n
                tu.records[n["id"]] = n
        elif k == "EnumDecl":
            val = -1
            for c in n.get("inner", []):
                if c["kind"] != "EnumConstantDecl":
                    continue
                v = _const_of(c)
                val = val + 1 if v is None else v
                tu.enums[c["id"]] = val
                tu.enums[c["name"]] = val
        elif k == "TypedefDecl":
            t = n["type"]
            tu.typedefs[n["name"]] = n
    _tus[rel] = tu
    _track(tu)
    return tu


_sigs = None


def signature(fn):
    return [[c.get("name"), c["type"]["qualType"].replace("register ", "")] for c in params_of(fn)]


def _track(tu):
    """internal functions under contract may be renamed or have their parameters
    reordered: match them with the signatures the contracts were written for
    (a wrong match only makes the contract fail, and callers are then verified
    with the body in place)"""
    global _sigs
    if _sigs is None:
        try:
            _sigs = json.load(open(os.path.join(HERE, "signatures.json")))
        except OSError:
            _sigs = {}
    base = _sigs.get(tu.path)
    if not base:
        return
    known = base["all"]
    for name, sig in base["contracts"].items():
        fn = tu.funcs.get(name)
        if fn is None:
            new = [(n, f) for n, f in tu.funcs.items() if n not in known and n not in tu.alias
                   and sorted(t for _, t in signature(f)) == sorted(t for _, t in sig)]
            if len(new) > 1:
                new = [(n, f) for n, f in new if sorted(signature(f)) == sorted(sig)]
            if len(new) != 1:
                continue
            tu.alias[new[0][0]] = name
            fn = tu.funcs[name] = new[0][1]
        cur = signature(fn)
        if cur != sig and sorted(cur) == sorted(sig):
            tu.perm[name] = [cur.index(s) for s in sig]


def _const_of(n):
    for c in n.get("inner", []):
        if c["kind"] == "ConstantExpr" and "value" in c:
            return int(c["value"])
        v = _const_of(c)
        if v is not None:
            return v
    if n["kind"] == "IntegerLiteral":
        return int(n["value"])
    return None


def body_of(fn):
    for c in fn["inner"]:
        if c["kind"] == "CompoundStmt":
            return c
    return None


def params_of(fn):
    return [c for c in fn.get("inner", []) if c["kind"] == "ParmVarDecl"]


def record_fields(tu, typ):
    """field names and types of a struct type string, or None"""
    t = typ.replace("const ", "").replace("volatile ", "").strip()
    if t.startswith("struct "):
        t = t[7:]
    if t.startswith("union "):
        t = t[6:]
    seen = 0
    while t in tu.typedefs and seen < 10:
        td = tu.typedefs[t]
        q = td["type"].get("desugaredQualType", td["type"]["qualType"])
        # find the owned record
        rid = _owned(td)
        if rid and rid in tu.records:
            return [(c["name"], c["type"]) for c in tu.records[rid]["inner"] if c["kind"] == "FieldDecl"]
        if q.startswith("struct "):
            q = q[7:]
        if q == t:
            break
        t = q
        seen += 1
    r = tu.records.get(t)
    if r is None:
        return None
    return [(c["name"], c["type"]) for c in r["inner"] if c["kind"] == "FieldDecl" and "name" in c]


def _owned(n):
    for c in n.get("inner", []):
        o = c.get("ownedTagDecl")
        if o:
            return o["id"]
        d = c.get("decl")
        if d and d.get("kind") == "RecordDecl":
            return d["id"]
        r = _owned(c)
        if r:
            return r
    return None


def line_of(n):
    for key in ("loc", "range"):
        l = n.get(key)
        if not l:
            continue
        if key == "range":
            l = l.get("begin", {})
        for q in (l, l.get("expansionLoc", {}), l.get("spellingLoc", {})):
            if "line" in q:
                return q["line"]
    return None


_defs = {}


def where_defined(name):
    """the translation unit under src/ with the external definition of name"""
    if name in _defs:
        return _defs[name]
    import re
    _defs[name] = None
    root = os.path.join(REPO, "src")
    pat = re.compile(r"(?m)^[A-Za-z_][\w \t\*]*\b%s\s*\(|^%s\s*\(" % (re.escape(name), re.escape(name)))
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if not f.endswith(".c"):
                continue
            p = os.path.join(d, f)
            try:
                txt = open(p, errors="replace").read()
            except OSError:
                continue
            if name not in txt or not pat.search(txt):
                continue
            rel = os.path.relpath(p, root)
            try:
                tu = load(rel)
            except ExtractionError:
                continue
            fn = tu.funcs.get(name)
            if fn is not None and fn.get("storageClass") != "static":
                _defs[name] = tu
                return tu
    return None
