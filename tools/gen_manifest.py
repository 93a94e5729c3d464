#!/opt/venv/bin/python
"""Writes vsim/budget.json and MANIFEST.json from the check classes."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import tempfile
from vsim import world
world.install(tempfile.mkdtemp())
from vsim.registry import all_checks
props = [json.loads(l) for l in world.real.open(os.path.join(HERE, "properties.jsonl"))]
checks = all_checks()
budget = {}
for c in checks.values():
    budget[c.id] = {"quick": c.quick, "thorough": c.thorough, "rule": c.rule,
                    "components": getattr(c, "components", {}),
                    "assumptions": getattr(c, "assumptions", [])}
world.real.open(os.path.join(HERE, "vsim", "budget.json"), "w").write(json.dumps(budget, indent=1, ensure_ascii=False) + "\n")
NA = {
 "N01": "Pure functions of their arguments: no schedule, clock, fault or interleaving for a simulation to decide. (The timing of whole exchanges, which uses them, is checked by R04.)",
 "N02": "Pure functions of geometry and radio parameters; nothing for a scheduler or fault injector to vary.",
 "N03": "Pure algebra on probability and time vectors; a statistical comparison over simulated runs would decide nothing exactly.",
 "N04": "Package discovery at import time is a function of the installed files only; no concurrency, time or fault is involved.",
}
man = {"version": 1,
       "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0,'/verif'); import numpy, click, pydantic, tabulate; print('ok')\"",
       "checks": [], "not_applicable": [],
       "notes": "No hooks in /repo were needed: every seam is patched from outside (see DESIGN.md)."}
for p in props:
    if p["id"] in checks:
        c = checks[p["id"]]
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % p["id"],
            "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": getattr(c, "technique", "deterministic simulation with fault injection: seeded search over programs and schedules against an executable reference model"),
            "level": "exploration",
            "level_note": getattr(c, "note", "Seeded sampling, no exhaustiveness. Trusts the oracle in vsim/ and the simulated clock, disk, console, entropy and worker pool in vsim/world.py.")})
    else:
        man["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "Check not built yet.")})
world.real.open(os.path.join(HERE, "MANIFEST.json"), "w").write(json.dumps(man, indent=1, ensure_ascii=False) + "\n")
print(len(man["checks"]), "checks")
