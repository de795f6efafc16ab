"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": "simulated entropy device + thread schedules, membership model",
 "C02": "scheduled sampling campaigns with interrupts, statistical reference tests",
 "C03": "pristine-fork refinement under noisy histories, schedules and OS-entropy seam",
 "C04": "scripted peers, fault injection and reference acceptance model",
 "C05": "seeded thread scheduler, linear comparison with isolated pristine forks",
 "C06": "fault injection at every traced line, draw and solve; before/after fingerprints and pristine retry",
 "C07": "caller mutation at every traced step, fingerprints",
 "C08": "simulated solver with injected failures, optimality certificates",
 "C09": "constraint-problem sessions with simulated solver faults, point-mass reference",
 "C10": "seeded merge schedules with faults, point-mass reference model",
 "C11": "crash/checkpoint/restore simulation across processes",
 "C12": "session simulation with crashes and interrupts, pose-composition reference model",
 "C13": "seeded fold schedules with faults, half-space reference model",
 "C14": "simulated clock, solver and disk under the real experiment scripts",
 "C15": "long-history simulation against pristine forks",
}
claimed = [p for p in sorted(T) if os.path.exists(f"{HERE}/sim/props/{p.lower()}.py")]
PURE = "a pure function of its arguments: no schedule, clock, I/O, randomness, fault or multi-party history for a simulator to decide; deciding it is input testing or proof, not simulation"
NA = {
 "C16": PURE, "C17": PURE, "C18": PURE, "C19": PURE, "C20": PURE, "C21": PURE, "C22": PURE, "C23": PURE, "C24": PURE,
}
props = [json.loads(l)["id"] for l in open(f"{HERE}/properties.jsonl")]
for p in props:
    if p not in claimed and p not in NA:
        NA[p] = "check not built yet"
m = {
 "version": 1,
 "setup_cmd": "/opt/venv/bin/python -c 'import numpy, cvxpy, clarabel, cdd, scipy'",
 "checks": [
  {
   "property": p,
   "quick_cmd": f"./check {p} --tier quick",
   "thorough_cmd": f"./check {p} --tier thorough",
   "evidence_file": f"evidence/{p}.json",
   "technique": "deterministic simulation with fault injection: " + T[p],
   "level": "exploration",
   "level_note": "seeded search over schedules, histories and faults; the real rigeo code runs, only the parts named as stubs in the evidence are simulated",
  } for p in claimed
 ],
 "not_applicable": [{"property": p, "reason": NA[p]} for p in sorted(NA)],
}
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
