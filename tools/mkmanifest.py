#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the registered checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "sa"))
import importlib
ids = {}
for m in ("checks_comp", "checks_ffi", "checks_safe", "checks_hist", "checks_root", "checks_thermo", "checks_eqn", "checks_newton", "checks_domain", "checks_finite"):
    ids.update(importlib.import_module(m).CHECKS)
AI = "abstract interpretation of monomorphised MIR in a gated value-graph domain"
TECH = {
    "C": AI + " (path conditions as BDDs); verdict tables over the partition of f64 induced by the comparisons, algebraic normal form of the values",
    "F": AI + "; typestate of the handle, effect and signature/layout analysis of the exported functions",
    "S": AI + " over fully symbolic inputs; call-graph effect analysis, loop-bound analysis, type-level ownership rules",
    "H": AI + "; non-interference: symbolic junk in every cache cell must not reach a result, cache guards checked inductive",
    "R": AI + " of the search loop with the pressure evaluation as an uninterpreted operation; path-condition implications on BDDs",
    "T": AI + "; derivative identities by algebraic normalisation of the computed value graphs",
    "E": AI + "; normal-form equality with an independently written reference formula and frozen coefficient tables",
}
NOTE = {
    "C": "All compositions (every f64 including NaN and infinities for the verdicts; real arithmetic for weights). Trusts rustc's MIR and the analyser's transfer functions.",
    "F": "All argument values; the wrapped operations are uninterpreted, so the wrappers are decided for every behaviour of theirs. Trusts rustc's MIR, layouts and the analyser.",
    "S": "All f64 inputs, no assumption on the composition, temperature, pressure or density. Trusts rustc's MIR, the analyser, and that libm functions terminate without effects.",
    "H": "All histories, by induction over public operations: any state the operations can leave is covered by arbitrary values in the cells they write. Trusts rustc's MIR and the analyser.",
    "R": "Every path of the unrolled search (20 and 50 trials), with the pressure evaluation uninterpreted. Says nothing about whether a root exists or is found (N01). Trusts rustc's MIR and the analyser.",
    "T": "Identity over the reals for every composition with a nonzero fraction (sum one where the identity needs it), T > 0, D > 1e-12; coefficients compared to 1e-9 relative. Rounding is not bounded (N04).",
    "E": "Identity over the reals for all compositions, T > 0, D > 1e-12; coefficients compared to 1e-9 relative with tables frozen from the pinned commit and reviewed against the published form.",
}
NA = {
    "N01": "convergence for every physical state is a global property of a Newton iteration on a transcendental function of run-time values (and of where the phase envelope lies); no sound static argument in reach bounds it",
    "N02": "it needs a bound on the derivative of the pressure between the last trial and the returned density for run-time values; the structural part (success only after the stated criterion was met, and the update applied) is R01/R02",
    "N03": "compares results with measurements, which are not in the source; the formula and coefficients themselves are E01/E02",
    "N04": "a rounding-error bound over thousands of terms with cancellation for unbounded run-time inputs is beyond the static floating-point analyses available here; the identities are decided over the reals",
}
TECH5 = AI + "; classes of f64 (NaN, infinities, zero, sign and magnitude intervals) propagated through the pressure evaluation and the unrolled search"
NOTE5 = "Every path of the unrolled searches for every option; the value classes over-approximate IEEE arithmetic. Starts from a constructed model; that earlier calculations cannot matter is H01/H02. Trusts rustc's MIR and the analyser."
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ids:
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh %s thorough" % i, "technique": TECH5 if i in ("R05", "S05") else TECH[i[0]],
                       "level": "other" if i[0] in "TE" else "proof", "level_note": NOTE5 if i in ("R05", "S05") else NOTE[i[0]]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check is registered for it yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Each check recompiles /repo's lib.rs with a rustc driver that dumps MIR and decides the property on it. Exit 2 means the analysis could not decide."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
