"""Writes MANIFEST.json from the property modules."""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NA = {
 "C19": "Pure function of its arguments: no schedule, clock, I/O, randomness, fault or multi-party behaviour for the property to depend on; deciding it is input testing against quadrature, not simulation.",
 "C20": "Pure symbolic algebra on immutable values: no schedule, clock, I/O, randomness or fault in it.",
 "C21": "Stateless numerical functions of their arguments: nothing for a simulator to schedule or fail.",
 "C22": "Arithmetic on constructor arguments, evaluated once: no history, schedule, I/O or fault in it.",
}
checks = []
props = [json.loads(l) for l in open("properties.jsonl")]
na = []
for p in props:
    pid = p["id"]
    f = f"sim/props/{pid.lower()}.py"
    if os.path.exists(f):
        m = importlib.import_module(f"sim.props.{pid.lower()}").META
        cmd = f"{PY} /verif/check.py {pid}"
        checks.append({
            "property": pid, "quick_cmd": cmd, "thorough_cmd": cmd + " --thorough",
            "technique": m.get("technique", "deterministic simulation with fault injection, seeded search"),
            "level": m["level"], "level_note": m.get("note", "Seeded search over many simulated executions of the real code: evidence, not proof. Assumes: " + "; ".join(m["assumptions"])),
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "No check built yet.")})
json.dump({
    "version": 1,
    "setup_cmd": f"{PY} /verif/check.py setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: faults and schedules are injected through seams the interpreter and libraries offer (sys.monitoring, os and io functions, global random states, clock, output stream, jit decorator). Tier comes from VERIF_TIER, the seed from VERIF_SEED. Replay: check.py replay FILE.",
}, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
