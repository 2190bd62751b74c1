#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "stateless model checking of the real code: dynamic partial-order reduction over a controlled std shim"
ENUM = "exhaustive enumeration of inputs within bounds against a reference model"
FAULT = "exhaustive enumeration of fault positions"
CONC = "Within the enumerated bounds every execution was run on the real code and judged by an independent reference. Trusts: sequential consistency, the std shim and explorer (self-tested), the reference model."
CONCP = "Within the enumerated bounds every execution was run on the repository's Python or shell programs and judged by an independent reference. Trusts: stand-ins for packages not installed here, the controlled scheduler, the reference model."
C = [
    ("C01", f"{MC}; {ENUM}", "model_checking"),
    ("C02", f"{MC}; {ENUM}", "model_checking"),
    ("C03", f"{MC}; {ENUM}", "model_checking"),
    ("C04", f"{MC}; {ENUM}", "model_checking"),
    ("C05", f"{MC}; {ENUM}", "model_checking"),
    ("C06", f"{MC}; {ENUM}", "model_checking"),
    ("C07", f"{MC}; {ENUM}", "model_checking"),
    ("C08", f"{MC}; {ENUM}", "model_checking"),
    ("C09", f"{MC}; {ENUM}", "model_checking"),
    ("C10", f"{MC}; {ENUM}", "model_checking"),
    ("C11", f"{FAULT}; {MC}", "model_checking"),
    ("C12", f"{FAULT}; {MC}", "model_checking"),
    ("C13", f"{MC}; deadlock, livelock and missing ends recognised by the scheduler", "model_checking"),
    ("C14", f"{MC}; {ENUM}; {FAULT}", "model_checking"),
    ("C15", f"{MC}; {ENUM}; {FAULT}", "model_checking"),
    ("C16", f"{ENUM}; {MC}", "model_checking"),
    ("C17", f"{MC}; {ENUM}", "model_checking"),
    ("C18", f"{ENUM}; {FAULT}", "model_checking"),
    ("C19", f"{ENUM}", "model_checking"),
    ("C20", f"{ENUM}", "model_checking"),
    ("C21", f"{MC}; {ENUM}", "model_checking"),
    ("C22", "explicit-state enumeration of all operation sequences up to a depth, each replayed on the real data structure against a sorted map", "model_checking"),
    ("C23", f"{ENUM}", "model_checking"),
    ("C24", f"{ENUM}; {MC}", "model_checking"),
]
exec(open(os.path.join(V, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "manifest_more.py")) else None
C.sort()
claimed = {c[0] for c in C}
na = []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i not in claimed:
        na.append({"property": i, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"./check {i} quick",
            "thorough_cmd": f"./check {i} thorough",
            "technique": t,
            "level": l,
            "level_note": CONC if i[0] == "C" else CONCP,
        }
        for i, t, l in C
    ],
    "not_applicable": na,
    "notes": "No hooks in /repo: the Rust subject is built from a copy of /repo/src in which the name `std` resolves to mc/mcstd; the Python programs are run from /repo with stand-ins for packages that are not installed.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
