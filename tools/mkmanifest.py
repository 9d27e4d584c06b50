#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property that has a harness is claimed."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
na_file = V + "/tools/not_applicable.json"
if os.path.exists(na_file):
    NA = json.load(open(na_file))
checks, na = [], []
for p in props:
    i = p["id"]
    files = sorted(glob.glob(f"{V}/harness/*/{i.lower()}_*.go"))
    if i in NA or not files:
        na.append({"property": i, "reason": NA.get(i, "no harness yet: the check is under construction")})
        continue
    src = "".join(open(f).read() for f in files)
    bounds = re.findall(r"// verif:bound (.*)\n(?:// verif:.*\n)*func Verif(\w+)\(", src)
    note = "Bounded model checking of the real Go code: the SSA of the functions reached is executed symbolically from /repo's current source, every branch and assertion over symbolic data is decided by z3 (cached, with interval/domain simplification in front of it); counterexamples are replayed against the natively compiled code. Holds within the bounds only. Trusts go/ssa, the engine's encoding (sampled paths are re-run natively and compared), z3, and the reference models in the harnesses. Bounds: "
    note += "; ".join(f"{n}: {b}" for b, n in bounds)
    checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json",
                   "technique": "bounded symbolic execution of the Go SSA, path and assertion conditions decided by SMT (z3)",
                   "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "./build.sh",
     "hooks": {"guard": "verif", "enable": "no hooks: harnesses are added by a source overlay when the engine loads /repo and when it builds the native replay; /repo carries only fix: commits", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "run.sh builds bin/gosym from engine/ (vendored, offline) when stale. known_findings.txt lists findings and repairs."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
