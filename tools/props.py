"""writes properties.jsonl and MANIFEST.json; one place for the property texts"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INP = "inputs"
CFG = "configurations"
P = []


def p(id, title, st, over, text, why, files, mech, claim=None, na=None, note=None):
    P.append(dict(id=id, title=title, statement=st, over=over, text=text, why=why, files=files, mech=mech, claim=claim, na=na, note=note))


VC = "contract-based deductive verification: contracts on the real C functions, obligations generated from the clang syntax tree of /repo, discharged by term normalisation and z3 (linear arithmetic)"
UNB = "Unbounded proof for every size, stride, flag combination and configuration, over the reals (no rounding) and mathematical int; trusted: clang AST, /verif/vc, z3, intrinsic definitions."
SAMPLE = "Tests compare a few fixed sizes with column operands and default configuration; strides, remainders, empty operands, row vectors and elements that must stay untouched are not quantified over."

p("C03", "Vector update operations compute their formula and touch nothing else",
  "For every length (including zero), every combination of row and column vectors, every stride and every scalar, the vector updates axpy, axpby, swap, copy and scale leave exactly the defined value in each element of the destination. No other element of the underlying storage and no input operand changes. Operands that are not vectors or differ in length are rejected without modifying anything.",
  [INP, CFG], "all vector lengths, strides, orientations and scalars", SAMPLE,
  ["src/blas/axpy.c", "src/blas/swap.c", "src/blas/mcopy.c", "src/blas/mscale.c"],
  [("unrolled loops with remainder switch", "vec_axpby and friends"), ("argument checks", "armas_axpy, armas_axpby, armas_swap, armas_copy, armas_scale")],
  claim=VC, note=UNB)
p("C04", "Vector reductions equal their mathematical definition",
  "For every length, stride, orientation and summation option (naive, Kahan, recursive, any recursion threshold) the inner product equals the sum of the element products and asum equals the sum of the absolute values; the accumulating inner product adds alpha times that sum to the target. The search for the element of largest (smallest) magnitude returns the index of the first such element, and the largest magnitude is that of an element. Operands are never modified and invalid shapes are reported through the error code.",
  [INP, CFG], "all vector lengths, strides, orientations, summation options and recursion thresholds", SAMPLE,
  ["src/blas/dot.c", "src/blas/asum.c", "src/blas/iamax.c"],
  [("unrolled, Kahan and divide-and-conquer summation", "vec_dot, vec_dot_recursive, vec_asum*, armas_adot, armas_dot, armas_asum")],
  claim=VC, note=UNB)
p("C05", "Element-wise matrix operations act on exactly the selected elements",
  "Scaling, adding a constant, adding matrices (plain, transposed, absolute values), copying (plain or transposed), setting values, applying a function, making a matrix triangular, and multiplying or dividing rows or columns by a diagonal give every element selected by the shape flags its defined value. For every rectangular, trapezoidal or vector shape and every storage stride, elements outside the selected triangle, outside the matrix and of the other operand do not change.",
  [INP], "all matrix shapes, strides, flag combinations and scalars", "Tests use square matrices and full storage; trapezoids, remainder columns and padding rows are not covered (four genuine defects of this kind were found and fixed).",
  ["src/blas/mscale.c", "src/blas/madd.c", "src/blas/mplus.c", "src/blas/mcopy.c", "src/blas/mset.c", "src/blas/mapply.c", "src/lapack/diag.c", "src/include/matcpy.h"],
  [("column loops over selected triangles", "armas_mscale, armas_madd, armas_mplus, armas_set_values, armas_make_trm, armas_apply"), ("blocked copy kernels", "matcpy.h")],
  claim=VC, note=UNB)


def load_more():
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")
    if os.path.exists(d):
        exec(compile(open(d).read(), d, "exec"), globals())


load_more()
P.sort(key=lambda q: q["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                            "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                            "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]}}) + "\n")
        assert len(q["title"]) <= 80, q["title"]
man = {"version": 1, "setup_cmd": "python3-vt -c \"import z3, sys; sys.path.insert(0,'/verif'); from vc import contract, concrete\"",
       "checks": [], "not_applicable": []}
for q in P:
    if q["claim"]:
        man["checks"].append({"property": q["id"], "quick_cmd": "./check " + q["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + q["id"],
                              "technique": q["claim"], "level": "proof", "level_note": q["note"]})
    else:
        man["not_applicable"].append({"property": q["id"], "reason": q["na"]})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "claimed")
