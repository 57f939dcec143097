"""Finds the scenario of a job and runs it."""
import hashlib
import json

import machine
import seams
import s_files
import s_query
import s_edgar
import s_ends
import s_texts

SCENARIOS = {}
for mod in (s_files, s_query, s_edgar, s_ends, s_texts):
    SCENARIOS.update(mod.SCENARIOS)


def run(job):
    m = machine.Machine(job)
    out = SCENARIOS[job["scenario"]](m, job)
    w = m.w
    res = {"violations": out.get("violations", []), "stats": w.stats, "sites": sorted(w.fault_sites),
           "digest": w.digest(), "script": w.plan.script, "lives": m.lives, "sim_time": w.clock - w.start_clock,
           "schedule": hashlib.sha256("".join(w.schedule).encode()).hexdigest()[:12] if len(set(w.schedule)) > 1 else None,
           "probes": out.get("probes", {}), "value": out.get("value"), "unsimulated": [t for c, t in w.flags if c == "unsimulated"],
           "events": len(w.log)}
    if job.get("trace"):
        res["notes"] = m.notes
        res["log"] = w.log
        res["requests"] = [{k: v for k, v in r.items() if k != "headers"} for r in w.requests]
    if job.get("keep_value") is False:
        res["value"] = None
    return res
