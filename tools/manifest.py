#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below (claimed checks and properties not claimed)."""
import json, subprocess
T = "deterministic simulation with fault injection: seeded search over "
BASE = (" A pass means no violation in the runs counted in the evidence file (a search, not a proof). Trusted: the simulator (executor, storage, "
        "fault model), the value model used as oracle, Arrow and the other libraries vortex calls.")
CHECKS = {}
def c(id, tech, note): CHECKS[id] = (T + tech, note + BASE)
exec(open(__file__.replace("manifest.py", "checks.py")).read())
src = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in src.splitlines() if "vortex_sim hook" in l or "cfg(vortex_sim)" in l][::-1]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "cfg(vortex_sim)", "enable": "RUSTFLAGS=--cfg vortex_sim (set by /verif/env.sh)", "source_commits": hooks},
     "checks": [{"property": i, "quick_cmd": f"VERIF_TIER=quick bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
                 "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n} for i, (t, n) in CHECKS.items()],
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()]}
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
missing = [p for p in props if p not in CHECKS and p not in NA]
for p in missing: m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1); open("/verif/MANIFEST.json","a").write("\n")
print(len(CHECKS), "claimed;", "missing:", missing)
