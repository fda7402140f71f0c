"""Writes MANIFEST.json from props.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from props import PROPS
crates = sorted({c for p in PROPS.values() for c, _ in p.get("witness", [])})
build = " && ".join(["(cd vx && CARGO_TARGET_DIR=/verif/.build/vx cargo build --release --offline -q)"]
                    + [f"(cd {c} && CARGO_TARGET_DIR=/verif/.build/{c.replace('/', '_')} cargo build --release --offline -q)" for c in crates])
checks = []
for pid, p in sorted(PROPS.items()):
    be = []
    if p.get("units"): be.append("Verus contracts on functions extracted from /repo on every run")
    if p.get("kani"): be.append("Kani proofs of the real functions over their full input domain")
    if not be: be.append("bounded search on the real code")
    note = p["covers"] + " Assumed: " + "; ".join(p.get("assumptions", []) or ["nothing beyond the tools"]) + \
        ". A bounded search on the real code (labelled bounded, not counted as proved) looks for failing inputs and covers the code between the contracts."
    checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"python3 check.py {pid} --tier thorough",
                   "evidence_file": f"evidence/{pid}.json", "technique": "contract-based deductive verification: " + "; ".join(be),
                   "level": p.get("level", "proof"), "level_note": note})
m = {"version": 1, "setup_cmd": build, "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: contracts live in /verif/units and are attached to the functions vx extracts from /repo's current source on every run. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks")
