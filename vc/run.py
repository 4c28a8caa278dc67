"""check <property>: prove every contract the property rests on, from /repo's
current source; explain a failure with a failing input when one exists."""
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

FUNC_DEADLINE = 280
PROOF_BUDGET = 560
SEARCH_S = 75

TRUSTED = [
    "clang 18 front end (syntax tree of the current /repo sources with the library's own defines; sources are not edited)",
    "/verif/vc: symbolic executor, loop rule (closed forms are proposed, then proved inductive), term normaliser",
    "z3 (python bindings) for linear integer/real side conditions and infeasible paths",
    "intrinsics of immintrin.h are given by the element-wise definitions in vc/intrinsics.py",
]
ASSUME = [
    "floating point values are treated as real numbers (the library itself is built with -ffast-math); rounding, overflow, NaN and Inf are outside the claim",
    "int index arithmetic is mathematical: sizes whose products exceed INT_MAX are outside the claim",
    "operands satisfy step >= rows, step >= 1, sizes >= 0, and distinct operands of one call do not share storage",
    "env block sizes mb, nb, kb >= 1 and lb, blas1min, blas2min >= 0 as armas_getenv documents; the configuration accessors are modelled (vc/base.py)",
]


def load_registry():
    from vc import base  # noqa
    from vc import concrete as C
    return C.load_registry()


def work(a):
    key, exclude, deadline, part = a
    sys.setrecursionlimit(20000)
    from vc.contract import verify_one
    reg = load_registry()
    X = verify_one(key, reg, [], deadline=deadline, exclude=exclude, part=part)
    bad = [o for o in X.obls if not o.ok]
    be = {}
    st = 0.0
    for o in X.obls:
        if o.ok:
            be[o.backend] = be.get(o.backend, 0) + 1
        st += o.time or 0
    return {"key": key, "error": X.error, "n": len(X.obls), "ok": sum(1 for o in X.obls if o.ok), "backend": be,
            "solver_s": st, "wall": X.wall, "used": sorted(X.used_contracts), "inlined": sorted(map(str, X.inlined)),
            "externals": sorted(map(str, X.externals)), "assumptions": sorted(map(str, X.assumptions)),
            "bounded": bool(reg[key].opts.get("bounded")), "paths": X.npaths,
            "bad": [{"kind": o.kind, "func": o.func, "line": o.line, "desc": o.desc, "detail": (o.detail or "")[:3000]} for o in bad[:12]],
            "nbad": len(bad)}


def merge(rs):
    """the parts of one proof (its cases are shared out over processes)"""
    r = rs[0]
    for o in rs[1:]:
        r["error"] = r["error"] or o["error"]
        for f in ("n", "ok", "solver_s", "wall", "paths", "nbad"):
            r[f] += o[f]
        for b, n in o["backend"].items():
            r["backend"][b] = r["backend"].get(b, 0) + n
        for f in ("used", "inlined", "externals", "assumptions"):
            r[f] = sorted(set(r[f]) | set(o[f]))
        r["bad"] = (r["bad"] + o["bad"])[:12]
    return r


def prove(keys, reg, exclude=(), closure=True, t_end=None):
    """verify keys and every contract they rely on"""
    res = {}
    pend = {}
    ctx = mp.get_context("fork")
    with ctx.Pool(os.cpu_count() or 4, maxtasksperchild=1) as pool:
        def start(k):
            if k in pend or k in res or k in exclude:
                return
            left = (t_end - time.time()) if t_end else FUNC_DEADLINE
            m = reg[k].opts.get("split", 1)
            pend[k] = [pool.apply_async(work, ((k, tuple(exclude), max(5, min(FUNC_DEADLINE, left)), (i, m) if m > 1 else None),))
                       for i in range(m)]
        order = sorted(keys, key=lambda k: -reg[k].opts.get("cost", 1))
        for k in order:
            start(k)
        while pend:
            for k in list(pend):
                r = pend[k]
                if all(x.ready() for x in r):
                    del pend[k]
                    try:
                        res[k] = merge([x.get() for x in r])
                    except Exception as ex:   # noqa
                        res[k] = {"key": k, "error": "verifier: %s" % ex, "n": 0, "ok": 0, "backend": {}, "solver_s": 0, "wall": 0,
                                  "used": [], "inlined": [], "externals": [], "assumptions": [], "bad": [], "nbad": 0, "bounded": False,
                                  "paths": 0}
                    if closure:
                        for u in res[k]["used"]:
                            start(u)
            if t_end and time.time() > t_end + 15:
                for k in pend:
                    res[k] = {"key": k, "error": "Budget: time budget of the check exhausted", "n": 0, "ok": 0, "backend": {}, "solver_s": 0,
                              "wall": 0, "used": [], "inlined": [], "externals": [], "assumptions": [], "bad": [], "nbad": 0,
                              "bounded": False, "paths": 0}
                pool.terminate()
                break
            time.sleep(0.02)
    return res


def failed(r):
    return bool(r["error"]) or r["nbad"] or r["n"] == 0


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith("known:"):
                d = {}
                for w in ln[6:].strip().split(" ", 3):
                    if "=" in w:
                        a, b = w.split("=", 1)
                        d[a] = b
                d["text"] = ln[6:].strip()
                out.append(d)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    reg = load_registry()
    keys = [k for k, c in reg.items() if c.prop and (prop == c.prop or (isinstance(c.prop, tuple) and prop in c.prop))]
    t_end = t0 + PROOF_BUDGET
    extra = []
    from vc import harness
    hs = [h for h in harness.HARNESSES if prop in h.props]
    hres = harness.run(hs, tier) if hs else []
    res = prove(keys, reg, t_end=t_end) if keys else {}
    bad = [k for k, r in res.items() if failed(r)]
    notes = []
    # an internal (static) function that no longer meets its contract, or is gone:
    # drop that contract and prove its callers with the body in place
    if bad:
        drop = set()
        for _ in range(3):
            st = [k for k in bad if reg[k].static and k not in drop]
            if not st or time.time() > t_end - 20:
                break
            drop |= set(st)
            redo = [k for k, r in res.items() if k not in drop and (set(r["used"]) & drop or failed(r))]
            r2 = prove(redo, reg, exclude=tuple(drop), closure=False, t_end=t_end)
            for k in drop:
                if k in res:
                    notes.append("internal contract %s dropped (%s); its callers are verified with its body in place" % (
                        k, res[k]["error"] or res[k]["bad"][0]["desc"]))
            saved = {k: res.pop(k) for k in list(drop) if k in res}
            res.update(r2)
            bad = [k for k, r in res.items() if failed(r)]
            if bad:
                extra += list(saved.values())
    hbad = [h for h in hres if not h["ok"]]
    viol = 0
    out = []
    kf = [d for d in known_findings() if d.get("property") == prop]
    if kf:
        for d in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, d["text"]))
    report = []
    for k in bad:
        r = res[k]
        report.append({"function": k, "error": r["error"], "failed_obligations": r["bad"], "count": r["nbad"]})
    for r in extra:
        report.append({"function": r["key"], "error": r["error"], "failed_obligations": r["bad"], "count": r["nbad"], "internal": True})
    for h in hbad:
        report.append({"function": h["name"], "error": h.get("error"), "failed_obligations": h["failed"], "count": len(h["failed"])})
    cov_runs = 0
    if report:
        found = None
        why = None
        for h in hbad:
            if h.get("replayed"):
                found = {"fail": h["replayed"], "case": h.get("case"), "harness": h["name"]}
                break
        if found is None and bad:
            tmp = tempfile.mkdtemp(prefix="vp_search_")
            try:
                from vc import concrete as C
                so, errs = C.build(tmp)
                cand = search_keys(reg, res, bad, extra, keys)
                found, cov_runs = C.search(so, cand, seed, SEARCH_S, tmp)
                why = errs
            except Exception as ex:    # noqa
                why = "search: %s" % ex
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + ".json")
        doc = {"property": prop, "failed": report, "library_runs": cov_runs, "notes": notes}
        if why:
            doc["build_notes"] = str(why)[:500]
        if found:
            doc["case"] = found.get("case")
            doc["failure"] = found["fail"]
            doc["replay_with"] = "python3-vt /verif/vc/concrete.py " + path
        json.dump(doc, open(path, "w"), indent=1)
        viol = 1
        for r in report[:10]:
            b = r["failed_obligations"][0] if r["failed_obligations"] else None
            print("FAILED %s: %s" % (r["function"], r["error"] or ("%s: %s (line %s)" % (b["kind"], b["desc"], b["line"]) if b else "?")))
        if found:
            print("failing input: %s" % found["fail"])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    # ------------------------------------------------------------ evidence
    be = {}
    for r in list(res.values()):
        for a, b in r["backend"].items():
            be[a] = be.get(a, 0) + b
    for h in hres:
        be["cbmc"] = be.get("cbmc", 0) + h["discharged"]
    unb = [r for r in res.values() if not r["bounded"]]
    bnd = [r for r in res.values() if r["bounded"]]
    ob = sum(r["n"] for r in unb) + sum(h["obligations"] for h in hres if not h["bounded"])
    ds = sum(r["ok"] for r in unb) + sum(h["discharged"] for h in hres if not h["bounded"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof",
          "coverage": {
              "obligations": ob, "discharged": ds,
              "checker_cmd": "/verif/check " + prop,
              "trusted_base": TRUSTED + sorted({"external: " + x for r in res.values() for x in r["externals"]})
              + (["cbmc 6.11 (bit-precise, loop-free or fully unwound harnesses)"] if hs else []),
              "functions_under_contract": sorted(r["key"] for r in unb),
              "functions_under_cbmc_contract": sorted(h["name"] for h in hres if not h["bounded"]),
              "bounded_only": sorted(["%s (%s)" % (r["key"], reg[r["key"]].opts.get("bounded")) for r in bnd]
                                     + ["%s (%s)" % (h["name"], h["bounded"]) for h in hres if h["bounded"]]),
              "bounded_obligations": sum(r["n"] for r in bnd) + sum(h["obligations"] for h in hres if h["bounded"]),
              "functions_verified_in_place": sorted({x for r in res.values() for x in r["inlined"]}),
              "by_backend": be, "paths": sum(r["paths"] for r in res.values()),
              "solver_s": round(sum(r["solver_s"] for r in res.values()), 2),
              "notes": notes, "search_runs": cov_runs},
          "assumptions": ASSUME + sorted({x for r in res.values() for x in r["assumptions"]}),
          "wall_s": round(time.time() - t0, 2), "violations": viol}
    if tier == "thorough" and not viol:
        ev["coverage"]["contract_validation"] = validate(reg, sorted(res), seed)
        ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    nf = len([r for r in res.values()])
    print("%s: %d functions, %d obligations, %d discharged, %.1f s" % (prop, nf + len(hres), ob, ds, time.time() - t0))
    sys.stdout.flush()
    os._exit(1 if viol else 0)


def searchable(ct):
    return bool(ct.opts.get("driver")) or not ct.static and not ct.opts.get("nosearch")


def search_keys(reg, res, bad, extra, keys):
    """exported functions whose proof failed first, then those relying on them"""
    bads = set(bad) | {r["key"] for r in extra}
    users = set(bads)
    changed = True
    while changed:
        changed = False
        for k, r in list(res.items()) + [(r["key"], r) for r in extra]:
            if k not in users and set(r["used"]) & users:
                users.add(k)
                changed = True
    first = [k for k in reg if k in bads and searchable(reg[k])]
    second = [k for k in reg if k in users and k not in bads and searchable(reg[k])]
    out = first * 3 + second
    if not out:
        out = [k for k in keys if searchable(reg[k])]
    return out or [k for k in reg if k in res and searchable(reg[k])]


def validate(reg, keys, seed):
    """thorough tier: the contracts themselves are compared with the compiled
    library on random inputs (a check of the machinery, not of the property)"""
    from vc import concrete as C
    tmp = tempfile.mkdtemp(prefix="vp_val_")
    try:
        so, _ = C.build(tmp)
        ks = [k for k in keys if searchable(reg[k])]
        found, ran = C.search(so, ks, seed, 60, tmp)
        return {"library_runs": ran, "disagreement": found}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
