"""Automatic behaviour-preserving rewriting of whole source files (self-test):
for -> while, if/else flipped, ?: flipped, comparisons mirrored, x op= y
written out.  usage: autoref.py DESTDIR [transforms]   (default all: FWICA)"""
import json, os, subprocess, sys

REPO = os.environ.get("VERIF_REPO", "/repo")


def ast(full):
    cmd = ["clang", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", "-DHAVE_CONFIG_H", "-DFLOAT64", "-march=x86-64-v3",
           "-I/verif/vc/stubinc", "-I/verif/vc/cfg", "-I" + REPO + "/src", "-I" + REPO + "/src/include", full]
    return json.loads(subprocess.run(cmd, stdout=subprocess.PIPE, cwd=REPO + "/src").stdout)


def rng(n):
    r = n.get("range", {})
    b, e = r.get("begin", {}), r.get("end", {})
    if "offset" not in b or "offset" not in e or "includedFrom" in b:
        return None
    return b["offset"], e["offset"] + e["tokLen"]


def has(n, kinds, stop=()):
    if not isinstance(n, dict):
        return False
    if n.get("kind") in kinds:
        return True
    if n.get("kind") in stop:
        return False
    return any(has(c, kinds, stop) for c in n.get("inner", []))


class Rw:
    def __init__(self, text, on):
        self.t, self.on, self.n = text, on, 0

    def render(self, n):
        """text of node n with its sub-nodes rewritten"""
        r = rng(n)
        return self.span(r[0], r[1], n)

    def span(self, a, b, n):
        out, pos = [], a
        for c in sorted((c for c in n.get("inner", []) if isinstance(c, dict) and rng(c)), key=lambda c: rng(c)[0]):
            ca, cb = rng(c)
            if ca < pos or cb > b:
                continue
            out.append(self.t[pos:ca])
            out.append(self.node(c))
            pos = cb
        out.append(self.t[pos:b])
        return "".join(out)

    def stmt(self, n):
        r = rng(n)
        s = self.node(n)
        if n["kind"] not in ("CompoundStmt", "ForStmt", "WhileStmt", "IfStmt", "SwitchStmt", "DoStmt", "NullStmt"):
            s += ";"
        if n["kind"] == "NullStmt" and not s.endswith(";"):
            s += ";"
        return s

    def node(self, n):
        k, r = n.get("kind"), rng(n)
        if r is None:
            return self.t[r[0]:r[1]] if r else ""
        ok = lambda c: isinstance(c, dict) and c.get("kind") and rng(c)
        if k == "ForStmt" and "F" in self.on:
            ini, _, cnd, inc, body = n["inner"]
            if all(ok(x) for x in (ini, cnd, inc, body)) and not has(body, ("ContinueStmt",), ("ForStmt", "WhileStmt", "DoStmt")) \
                    and not has(n, ("CaseStmt", "LabelStmt")):
                self.n += 1
                i = self.node(ini)
                i = i if i.rstrip().endswith(";") else i + ";"
                return "{ %s while (%s) { %s %s; } }" % (i, self.node(cnd), self.stmt(body), self.node(inc))
        if k == "IfStmt" and "I" in self.on and n.get("hasElse") and len(n["inner"]) == 3:
            c, a, b = n["inner"]
            if all(ok(x) for x in (c, a, b)):
                self.n += 1
                return "if (!(%s)) { %s } else { %s }" % (self.node(c), self.stmt(b), self.stmt(a))
        if k == "ConditionalOperator" and "C" in self.on and all(ok(x) for x in n["inner"]):
            c, a, b = n["inner"]
            self.n += 1
            return "(!(%s) ? %s : %s)" % (self.node(c), self.node(b), self.node(a))
        if k == "BinaryOperator" and "W" in self.on and n.get("opcode") in ("<", ">", "<=", ">=") and all(ok(x) for x in n["inner"]):
            a, b = n["inner"]
            self.n += 1
            return "%s %s %s" % (self.node(b), {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[n["opcode"]], self.node(a))
        if k == "CompoundAssignOperator" and "A" in self.on and all(ok(x) for x in n["inner"]) and n["opcode"] in ("+=", "-=", "*="):
            a, b = n["inner"]
            if not has(a, ("CallExpr", "UnaryOperator")):
                self.n += 1
                ta, tb = self.node(a), self.node(b)
                return "%s = %s %s (%s)" % (ta, ta, n["opcode"][0], tb)
        return self.span(r[0], r[1], n)


def rewrite(full, on):
    text = open(full, encoding="latin-1").read()
    d = ast(full)
    edits = []
    for n in d["inner"]:
        if n.get("kind") != "FunctionDecl":
            continue
        for c in n.get("inner", []):
            if c.get("kind") == "CompoundStmt" and rng(c):
                b = c["range"]["begin"]
                if "includedFrom" in b or text[b["offset"]:b["offset"] + 1] != "{":
                    continue
                loc = n.get("loc", {})
                if "includedFrom" in loc or "includedFrom" in loc.get("expansionLoc", {}):
                    continue
                edits.append((rng(c), c))
    cnt = 0
    for (a, b), c in sorted(edits, key=lambda e: -e[0][0]):
        rw = Rw(text, on)
        text = text[:a] + rw.render(c) + text[b:]
        cnt += rw.n
    return text, cnt


if __name__ == "__main__":
    dest = sys.argv[1]
    on = sys.argv[2] if len(sys.argv) > 2 else "FWICA"
    for rel in sys.argv[3:]:
        full = os.path.join(REPO, "src", rel)
        t, n = rewrite(full, on)
        open(os.path.join(dest, "src", rel), "w", encoding="latin-1").write(t)
        r = subprocess.run(["gcc", "-fsyntax-only", "-w", "-DFLOAT64", "-DHAVE_CONFIG_H", "-mavx", "-mfma", "-I%s/src/include" % dest,
                            "-I/repo/_build", "-I/repo/_build/src", os.path.join(dest, "src", rel)], capture_output=True, text=True)
        print(rel, n, "ok" if r.returncode == 0 else r.stderr[:400])
