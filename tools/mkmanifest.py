"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "P27": "Packing, encryption at rest and configuration expansion are pure functions of their "
           "input; their use inside sessions, cookies and restarts is exercised by the simulated "
           "properties.",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
PY = "/opt/venv/bin/python sim/check.py run "
checks = []
for p in props:
    if p["id"] in NA:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": PY + p["id"] + " --tier quick",
        "thorough_cmd": PY + p["id"] + " --tier thorough",
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "deterministic simulation with fault injection (seeded schedules, reference-model oracle)",
        "level": "exploration",
        "level_note": "Seeded sample of configurations, schedules and faults run against the real "
                      "provider in one process and judged by a reference model; every failure "
                      "replays from its file. A clean run is evidence for what was sampled, not "
                      "proof. Trusts the model, the transcribed web views and the simulated "
                      "clock, entropy and network.",
    })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "No hooks in /repo: the seams used (module level clock, entropy and HTTP "
                    "client) are replaced from outside before oidcop is imported."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
