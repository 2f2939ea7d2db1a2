#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. DONE lists the properties whose laws exist in the harness."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DONE = open(os.path.join(here, "tools", "implemented.txt")).read().split()
TECH = {
 "C01": "random operands vs element-loop reference",
 "C02": "random operands vs triple-loop reference",
 "C03": "residual and reconstruction identities on random matrices",
 "C04": "residual/orthogonality identities and constructed spectra",
 "C05": "random arguments vs independent libm/Boost.Math oracle plus functional identities",
 "C06": "random arguments vs independent recurrences and exactness of quadrature rules",
 "C07": "random polynomials/functions vs exact polynomial arithmetic",
 "C08": "random knots/control points vs independent Cox-de Boor evaluation",
 "C09": "random problems with constructed answers",
 "C10": "fault injection at every callback call, then reuse against a fresh object",
 "C11": "random containers/texts vs model containers",
 "C12": "random triplet sets vs dense model",
 "C13": "random sparse operands vs dense model",
 "C14": "residual checks and factorization histories vs fresh solver",
 "C15": "generated files: write/read round trip, grammar-based and mutated files",
 "C16": "random parameters vs Boost.Math oracle, quadrature and sampling identities",
 "C17": "random data vs direct definitions",
 "C18": "random components: round trips between representations",
 "C19": "random tensors vs index-notation loops",
 "C20": "random tensors vs matrix invariants and spectral identities",
 "C21": "random tensors vs independent closed forms and numerical derivatives",
 "C22": "random parameters vs constitutive law in index form",
 "C23": "random polynomial/linear problems: exactness and observed order",
 "C24": "random problems with known solutions across tolerances",
 "C25": "random output requests vs known solution and recorded steps",
 "C26": "random call histories vs fresh solver; counters vs callback counts",
 "C27": "random boundary data and quadratics; manufactured solutions",
 "C28": "random polynomials and boundary data; manufactured solutions",
 "C29": "random numbering/boundary histories vs model",
 "C30": "random maps vs boundary curves and numerical differentiation",
 "C31": "random curves with known equations; stop rules",
 "C34": "prescribed residual sequences and limits; predicted outcome of every correction",
 "C36": "random runs with logs; text parsed and compared with the calls made",
 "C37": "random sets of computations in random orders, nested in callbacks and in threads; bits compared with each computation alone",
 "C38": "generated matrix files and options given to the programs; report and exit status vs independent computation",
 "C35": "transformed problems (signs, powers of two) vs original, compared bit for bit",
 "C33": "random systems and control settings; step histories vs control rules",
 "C32": "random call histories; callback traces vs protocol model",
}
checks = []
for pid in DONE:
    checks.append({
        "property": pid,
        "quick_cmd": f"bash check.sh {pid}",
        "thorough_cmd": f"bash check.sh {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": "property-based testing: " + TECH[pid],
        "level": "exploration",
        "level_note": "Random search with shrinking over the stated input classes (fixed number of cases per tier, seeded by VERIF_SEED); it shows absence of counterexamples among the generated cases, not a proof.",
    })
m = {
    "version": 1,
    "setup_cmd": "bash check.sh --build",
    "checks": checks,
    "not_applicable": [],
    "notes": "check.sh <id> rebuilds the harness package against /repo's working tree and runs its laws in 8 worker processes. Replays: bash check.sh <id> --replay <file>. See DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
