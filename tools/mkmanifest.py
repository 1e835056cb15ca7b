"""Writes /verif/MANIFEST.json."""
import json
N = {
"C01": ("breadth-first exploration of every store-operation sequence against an ordered-map model", "All operation histories up to the depth in DESIGN.md, on the real Values, every observer compared after every step."),
"C02": ("exhaustive enumeration of letters and boundary indices", "Every Unicode scalar value x boundary indices, all pairs of a structured symbol set, and every store content over them."),
"C03": ("exhaustive enumeration of variable sets, hash orders and slice layouts", "Every set of up to four variables of the nine type shapes, every hash order, every layout of every subset, with and without foreign keys; long stores."),
"C04": ("exhaustive enumeration of small graphs, key orders and stackings against dense block assembly", "Exact-integer comparison, so no tolerance is involved."),
"C05": ("exhaustive enumeration of arity x residual x noise x kernel x construction", "Cost, linearisation and gradient of real factors against a dense reference."),
"C06": ("exhaustive enumeration of arities, type tuples, functions and points against reference derivatives", "Finite lattice of points and function families; tolerances as in DESIGN.md."),
"C07": ("breadth-first exploration of all words over generators against matrix products", "All words up to the depth in DESIGN.md over generators of each type, real operators in lockstep with dense matrices."),
"C08": ("exhaustive enumeration of tangent lattices and words against a series matrix exponential", "Tolerance bands around the small-angle and half-turn branches as in DESIGN.md."),
"C09": ("exhaustive enumeration of words and lattices against matrix identities", "All lattice elements x lattice vectors per type."),
"C10": ("exhaustive enumeration of constructors x covariance lattice x vectors", "Mahalanobis distance from an independent dense solve."),
"C11": ("exhaustive enumeration of kernels x constants x residual grid", "Published formulas, bands of 1e-3 around L1's regularised origin exempt."),
"C12": ("exhaustive enumeration of sparsity patterns and solve sequences", "Every pattern within the bound and every sequence of systems of one solver instance, against dense normal equations."),
"C13": ("exhaustive enumeration of topologies, orders, optimisers and solvers on the real optimisers", "Reference minimiser from an independent dense Gauss-Newton; one recorded known finding."),
"C14": ("exhaustive exploration of cost/step scripts against a reference loop automaton", "All scripts up to the length in DESIGN.md drive the real loop in lockstep with the automaton."),
"C15": ("exhaustive exploration of trial outcome scripts through an injected solver against a damping automaton", "All accept/reject scripts up to the depth; the damped systems the real code hands to the solver are compared."),
"C16": ("exhaustive exploration of call histories of one optimiser against fresh ones", "All histories of calls over the alphabet in DESIGN.md."),
"C17": ("exhaustive enumeration of measurement histories against an independent recursion", "All histories up to the length over the sample alphabet, with every parameter set; residual, bias correction and covariance."),
"C18": ("exhaustive enumeration of g2o files over a line alphabet against an independent model", "All files up to the length over the alphabet, plus per-entry probes."),
"C19": ("exhaustive enumeration of types, pose lattices and key assignments against dense references", "Value, zero set and Jacobian of every prior and relative residual on the lattice."),
"C20": ("re-exploration of C05-C09, C13, C17, C19 on builds with every option set", "Same enumerations on left, fake_exp and left+fake_exp builds, with each option's convention in the reference, and a single-precision enumeration (groups, maps, residuals, graphs, noise, kernels, solvers) on the f32 build."),
"C23": ("exhaustive enumeration of all programs of a bounded grammar, judged by the compiler against a model of the types", "Every program of the grammar in DESIGN.md is compiled against the library and its verdict compared with the model's."),
"C22": ("exhaustive enumeration of drawing conversions and observed optimisation histories against a drawing model", "Every element, list and store of the lattice converted to every drawing type, and every observed run decoded from an in-memory rerun stream."),
}
checks = [{"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough", "technique": "model checking: " + t, "level": "model_checking",
           "level_note": n + " Trusts the harness' reference model and the pinned toolchain."} for p, (t, n) in N.items()]
NA = [{"property": "C21", "reason": "The serialisation feature needs the factrs-typetag git submodule, which is empty in this sandbox (no network), so the code cannot be compiled or executed; model checking needs executions of it."}]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": NA,
           "notes": "No hooks in /repo. check.py mirrors /repo's working tree without the unbuildable serde feature (tools/mirror.py) and rebuilds the harness on every run."}, open("/verif/MANIFEST.json", "w"), indent=1)
