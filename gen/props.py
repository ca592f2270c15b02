#!/usr/bin/env python3
"""Source of properties.jsonl, MANIFEST.json: python3 gen/props.py rewrites both."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = "c3/lib_funcs/"
C = "c3/lib_clinalg/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, ready=True):
    if ready:
        P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note))


ORA = "ASan+UBSan-instrumented execution of generated workloads; "
I = ["inputs", "configurations"]
H = ["inputs", "configurations", "histories"]

prop("P01", "No memory error, undefined behaviour, abort or hang on valid use",
     "For every valid call sequence on the public interface, the library never reads or writes outside an object it owns, never uses freed "
     "or uninitialised pointers, never triggers undefined behaviour, and never aborts, exits or loops forever.",
     H, "all valid inputs, sizes (including the smallest ones), function classes and call sequences of every module",
     "Tests sample a few sizes, run without sanitizers, and a stray read or write usually goes unnoticed.",
     ["c3"], [("bounds and lifetimes of every buffer", "all modules"), ("assertions and exit paths", "all modules")],
     "AddressSanitizer + UndefinedBehaviorSanitizer + exit/abort interposition + CPU-time watchdog over every workload of the framework",
     "every generated workload of every other property is replayed with the memory, UB, abort/exit and hang monitors deciding")
prop("P02", "Every allocation and open file is released exactly once",
     "After a caller has released everything it received, using the documented release functions, no memory allocated by the library and no file "
     "it opened remains, and nothing is released twice.",
     H, "all valid call sequences; every object kind; early-return paths",
     "Tests never look at what is still allocated when they finish.",
     ["c3"], [("ownership rules of alloc/copy/free functions", "all modules")],
     "LeakSanitizer-style reachability check after every iteration + live-heap balance + file-descriptor count + double-free detection (ASan)",
     "one leak check per generated workload of every module")
prop("P03", "Function-train algebra agrees pointwise with its operands",
     "Evaluating a sum, difference, scaled copy, product, axpby, linear combination, matrix-vector or inner-product style combination of function trains at any point gives the "
     "same number as combining the evaluations of the operands at that point, for any ranks, dimension and mixture of univariate classes that "
     "supports the operation. The operands stay unchanged.",
     I, "all operand ranks, dimensions >= 2, univariate classes and mixtures, coefficients, points of the domain",
     "Tests use a handful of fixed smooth functions of one class and mostly equal ranks.",
     [C + "ft.c", C + "qmarray.c", F + "functions.c"], [("stacking of cores (sum)", C + "ft.c"), ("Kronecker products of cores (product)", C + "qmarray.c")],
     ORA + "pointwise comparison with an independent reference model of the operands", "random operands; oracle computed from coefficients, not by the library")
prop("P04", "Rounding keeps the function within its tolerance and never raises ranks",
     "Rounding a function train returns one whose squared L2 distance to the input is at most sqrt(d-1) times tolerance times the input norm, "
     "with no rank larger than before and none larger than the tolerance requires; with a maximum rank, no rank exceeds it and the result is a quasi-optimal projection. "
     "The input is not modified.",
     I, "all trains of dimension >= 2 with redundant, nearly redundant or full ranks, tolerances and rank caps",
     "Tests round two or three functions with one tolerance and look at a few points.",
     [C + "ft.c", C + "qmarray.c", "c3/lib_linalg/linalg.c"], [("right-to-left orthogonalisation, left-to-right truncated SVD", C + "ft.c")],
     ORA + "error and optimal ranks measured on a full quadrature grid against singular values of the unfoldings", "dimension <= 4, ranks <= 8 after summation")
prop("P05", "Integrals, inner products and norms are exact for the represented function",
     "The integral, partial and weighted integrals, inner product, norm, distance and relative distance of function trains equal those of the functions they represent under the "
     "measure of their univariate classes, and are consistent with one another (symmetry, linearity).",
     I, "all dimensions, ranks, univariate classes and mixtures", "Tests check a few analytic integrals on fixed domains.",
     [C + "ft.c", C + "qmarray.c", F + "functions.c"], [("left-to-right contraction of integrated cores", C + "ft.c"), ("inner product by Kronecker contraction", C + "ft.c")],
     ORA + "comparison with contraction of exact univariate integrals computed from coefficients", "")
prop("P09", "Gradients and Hessians are the derivatives of the function",
     "The gradient and Hessian evaluated from a function train equal the exact partial derivatives of the represented function at every interior point, "
     "and derivative trains evaluate to the same values.",
     I, "all dimensions, ranks, differentiable classes, points", "Tests compare with finite differences at a few points of two functions.",
     [C + "ft.c", F + "polynomials.c", F + "linelm.c"], [("left/right partial products around the differentiated core", C + "ft.c")],
     ORA + "comparison with derivatives of the reference model", "")
prop("P25", "All evaluation paths of a function train agree",
     "Point, batched, strided, partial-core, perturbed-coordinate and grid-index evaluation of a function train return the value the train represents "
     "for every point, in any call order, and repeated evaluation of the same object gives identical bits.",
     H, "all dimensions, ranks, classes, numbers of points and orders of calls on one object", "Tests call one path on one object at a time.",
     [C + "ft.c", C + "qmarray.c"], [("per-object evaluation workspaces reused between calls", C + "ft.c")],
     ORA + "comparison of every evaluation path with an independent contraction", "")
prop("P28", "Constructed function trains are the function they are named after",
     "Constant, linear, additive, rank-one, quadratic and aligned-quadratic function trains, "
     "and function-train arrays, evaluate to exactly that expression of the arguments everywhere in the domain.",
     I, "all dimensions, strides, coefficients, classes that support the constructor", "Tests build two or three of them in fixed dimension.",
     [C + "ft.c", C + "qmarray.c", F + "functions.c"], [("core layouts of the constructors", C + "ft.c")],
     ORA + "comparison with the closed form", "")
prop("P23", "Results depend only on arguments; separate objects can be used in parallel",
     "Repeating a computation with the same arguments gives bit-identical results whatever the previous contents of memory, and threads working on "
     "objects of their own do not influence one another.",
     ["inputs", "configurations", "schedules", "histories"], "all workloads of the framework; all interleavings of threads with disjoint objects",
     "Tests run once, in one thread, in fresh zeroed memory.",
     ["c3"], [("no hidden global mutable state, no reads of uninitialised memory", "all modules")],
     "differential execution under different heap/stack fill patterns with digest comparison of every observed value + ThreadSanitizer over concurrent workloads", "")

exec(open(V + "/gen/props_more.py").read()) if os.path.exists(V + "/gen/props_more.py") else None

P.sort(key=lambda p: p["id"])
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": ["return values and written outputs of the public functions"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
checks = []
for p in P:
    c = "python3 check.py " + p["id"]
    checks.append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick " + c, "thorough_cmd": "VERIF_TIER=thorough " + c,
                   "technique": "runtime monitoring: " + p["technique"], "level": "exploration", "level_note": p["note"] or "randomised exploration; bounds in DESIGN.md"})
json.dump({"version": 1, "setup_cmd": "python3 vbuild.py asan tsan",
           "hooks": {"guard": "C3_VERIF_MONITOR", "enable": "no hook was needed in /repo: all monitors observe through the public interface, sanitizers and libc interposition",
                     "source_commits": []},
           "checks": checks, "not_applicable": [],
           "notes": "evidence/<id>.json is rewritten by every run; known_findings.jsonl lists fixed and known defects"},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties")
