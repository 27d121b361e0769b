"""Writes /verif/MANIFEST.json from the list of checks the simulator has (run by hand)."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
have = set(subprocess.run([V + "/target/release/dst", "list"], capture_output=True, text=True).stdout.split())
have = {h.split()[0] for h in have}
NOTE = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if p in have:
        checks.append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
            "technique": "deterministic simulation with fault injection (seeded search)", "level": "exploration",
            "level_note": NOTE.get(p, "Seeded search over simulated runs against an independent reference model; absence of a violation is evidence within the explored runs, not proof.")})
    else:
        na.append({"property": p, "reason": NOTE.get("na:" + p, "check under construction")})
m = {"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is an existing trait (Read, Write, visitor, action) or a libc symbol answered by the simulator."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print([c["property"] for c in checks], [n["property"] for n in na])
