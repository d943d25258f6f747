#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {
 "C01": "value-number dataflow over the compiler IR; Butcher tableau extraction and rooted-tree order conditions",
 "C02": "value-number dataflow over the compiler IR; continuous order conditions and end-point identities of the interpolant",
 "C03": "value-number dataflow over the compiler IR; history slots and quadrature weights read off the normal form",
 "C04": "value-number dataflow over the compiler IR; splitting-scheme coefficients and order conditions",
 "C05": "value-number dataflow over the compiler IR; agreement of sibling overloads and write-effect analysis",
 "C06": "gated dataflow over the compiler IR with a ternary sign domain; post-state of each accept/reject cell",
 "C07": "interval and sign analysis of the step-size factor on each cell of the controller's decision diagram",
 "C08": "value-number dataflow with typestate of the kept derivative over all call interleavings up to the state's closure",
 "C09": "dataflow normal forms compared under the time mirror; sign-domain analysis of every time comparison",
 "C10": "loop-fixpoint abstract interpretation with ghost monitors for solution time and observation count",
 "C11": "loop-fixpoint abstract interpretation with ghost monitors; sign domain on end-time comparisons",
 "C12": "typestate analysis of the failure checkers over the integrate loops",
 "C13": "effect analysis: size typestate of every internal buffer before its first use",
 "C14": "ownership and points-to analysis of copies; memberwise copy completeness on the IR",
 "C15": "type-level encodings: witnesses with non-copyable functors and reference wrappers that must compile; call-target analysis",
 "C16": "abstract interpretation of every for_each and norm_inf over the compiler IR; recorded element accesses compared with the documented order",
 "C17": "value-number dataflow; polynomial normal form of every operation functor",
 "C18": "compile and symbol-linkage analysis of every header alone, twice, in pairs and in two translation units",
 "C19": "loop-fixpoint abstract interpretation of the iterators with ghost monitors",
 "C20": "value-number comparison of factory results with directly built classes over the compiler IR; type-level witnesses (static_assert on the types returned, own time types)",
 "C21": "type-level encodings: value/time types without conversions to built-in floating point; precision-effect analysis",
 "C22": "memory-effect interpretation of same_size/resize/copy on concrete shapes with symbolic elements; static_assert on is_resizeable",
 "C23": "gated dataflow with typestate of the dense-output buffers",
 "C24": "interpretation of split offsets, split and unsplit for enumerated lengths and part counts with symbolic elements",
 "C25": "constant propagation and value-number dataflow; extrapolation weights and substep counts",
 "C26": "value-number dataflow; Rosenbrock order conditions and factorise-before-solve typestate",
}
NOTE = ("Sound for the analysed instantiations over all inputs within the abstract domain: floating point is read as real arithmetic, coefficients are rationals "
        "recovered from the double constants; user callbacks are opaque. Trusts clang's front end, the LLVM canonicalisation passes used and the analyser in /verif/engine.")
EXTRA = {}
NA = {
 "N01": "The global error depends on the problem's conditioning along the run; no static argument about the source bounds it. The static preconditions (order, error formula, step-size rules) are C01, C07 and C17.",
 "N02": "A backward-error statement about real trajectories over long times; only its algebraic precondition (consistent symplectic splitting) is visible in the code, and that is C04.",
 "N03": "Equality over schedules is a run-time quantification over thread interleavings and worker counts of opaque runtimes (libgomp, MPI); the structural part (each element handled once by one worker, splits cover everything) is C16 and C24.",
 "N04": "Convergence of Newton's iteration depends on the run-time values of f and its Jacobian; not visible in the shape of the code. (The missing iteration bound and the exit on a singular matrix are described in DESIGN.md.)",
}
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = "checks/%s.py" % p.lower()
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif os.path.exists(os.path.join(R, f)):
        checks.append({"property": p, "quick_cmd": "python3 %s" % f, "thorough_cmd": "VERIF_TIER=thorough python3 %s" % f,
                       "technique": TECH[p], "level": "other", "level_note": EXTRA.get(p, NOTE)})
    else:
        na.append({"property": p, "reason": "not claimed yet: its check is still being built"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. Every check compiles its own witness programs against /repo/include and analyses the result; nothing is executed."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
