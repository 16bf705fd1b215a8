#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from config.py (the committed file is this script's output)."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from config import CONFIG
ORACLE = {
 "C01": "interval membership and long-double congruence of every observed normalisation",
 "C02": "long-double physical factors, round trips and three-unit compositions",
 "C03": "long-double rotation and cross product, all spellings compared with each other",
 "C04": "independent coefficient copies and long-double products",
 "C05": "long-double piecewise-linear reference and fresh-object comparison",
 "C06": "policy reference; refusals observed in forked children",
 "C07": "history monitor against a name->series map model audited after every operation",
 "C08": "long-double bilinear reference and fresh-object comparison",
 "C09": "history monitor against a name->grid map model audited after every operation",
 "C10": "long-double multilinear reference; refusals observed",
 "C11": "history monitor over live objects, each audited after every operation under AddressSanitizer",
 "C12": "brute-force nearest node and enclosing cell",
 "C13": "definition of each generated sample in long double; refusals observed",
 "C14": "independent recomposition of the factors and structure monitors",
 "C15": "residuals, Moore-Penrose conditions, normal equations, projected gradients, power sums",
 "C16": "matrices constructed to have or violate each property; independent coefficient copies",
 "C17": "history monitor over the integrator against a panel-wise long-double sum",
 "C18": "long-double Duffy rule, recorded integrand points, symmetry monitors",
 "C19": "long-double Fourier sum over flag-toggling histories",
 "C20": "long-double elementary rotations along every conversion path",
 "C21": "exact mapped polynomials and recorded sampling points in long double",
 "C22": "Chebyshev series, exact polynomial and long-double power sum with conditioning bounds",
 "C23": "history monitor: shortcut against general evaluation and long-double sum",
 "C24": "long-double power sum with running error bound",
 "C25": "long-double evaluations, 60-digit series, Wronskians, recurrences, branch sweeps",
 "C26": "knots, polynomials, linearity and invariance with bounds from a long-double collocation matrix",
 "C27": "element-wise definitions; refusals observed in children",
 "C28": "logical-order long-double trapezoid over wrapped circular buffers",
 "C29": "AddressSanitizer, UndefinedBehaviorSanitizer and allocation-balance monitors over mixed random programs",
 "C31": "long-double multilinear and simplex references over data-ownership histories; refusals observed in children",
 "C32": "history monitor: step digests of every object's life alone against the same life interleaved with others",
 "C30": "ThreadSanitizer and per-thread result comparison with a sequential run",
}
NA = []
checks = []
for pid in sorted(CONFIG):
    c = CONFIG[pid]
    fl = sorted({r["flavour"] for r in c["quick"]})
    checks.append(dict(property=pid,
        quick_cmd="python3 check.py %s --tier quick" % pid,
        thorough_cmd="python3 check.py %s --tier thorough" % pid,
        technique="runtime monitoring: " + ORACLE[pid],
        level="exploration",
        level_note="Every observed execution of the real code (built from the current tree, sanitizer builds: %s) is judged by the monitors; "
                   "holds on the explored executions only: %s. Trusts the compiler, sanitizer run-times and the reference oracle in harness/%s."
                   % (", ".join(fl), c["rule"], c["src"])))
m = dict(version=1, setup_cmd="python3 tools/gen_manifest.py --check", checks=checks, not_applicable=NA,
         notes="No hooks are needed: the library is header-only and all monitors observe the public API; repairs are separate fix: commits in /repo "
               "(KNOWN_FINDINGS.txt). check.py <ID> [--tier] [--seed N] [--replay FILE].")
txt = json.dumps(m, indent=1) + "\n"
path = os.path.join(V, "MANIFEST.json")
if __name__ == "__main__":
    if "--check" in sys.argv:
        sys.exit(0 if open(path).read() == txt else 1)
    open(path, "w").write(txt)
    print(len(checks))
