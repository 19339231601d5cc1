"""Rewrites MANIFEST.json from the property modules that exist."""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "seeded schedules, batching, retries and worker faults of the process pool; oracle: the sequential estimator",
 "C02": "seeded task orders, duplicated and delayed tasks of the dask graph; oracle: in-memory run",
 "C03": "seeded task orders, retries and permutations; oracle: reference model of the weighted averages",
 "C04": "seeded exceptions, worker deaths, failing allocations and singular matrices inside steps; oracle: twin without faults",
 "C05": "seeded interrupts at library lines, then re-execution; oracle: twin without interrupts",
 "C06": "seeded histories, interrupts and threads on watched, read-only and memory-mapped caller data",
 "C07": "seeded histories of several estimators on a simulated disk; oracle: results in memory",
 "C08": "seeded crashes and disk errors at every disk operation of a save; oracle: old or new complete file",
 "C09": "seeded save and load points with restart of the process; oracle: the original model",
 "C10": "seeded histories with failing steps; oracle: executable reference model",
 "C11": "seeded crash points of integrations with restart from saved points; oracle: uninterrupted run and reference integrator",
 "C12": "seeded perturbation of ambient state (global generator, recycled memory, hash seed, cwd, other computations); oracle: repeat run",
 "C13": "controlled generators with seeded interleavings and generator faults; oracle: run alone and draw log",
 "C14": "seeded thread interleavings at library lines; oracle: sequential calls",
 "C15": "controlled global generator steering every draw; oracle: the set of windows",
 "C16": "seeded interleavings of independent objects with faults and destruction; oracle: each alone",
}
NA = {
 "C20": "pure function of one call's arguments: no schedule, time, I/O, fault or history can change the outcome, so simulation has nothing to vary; C10 does compare basis values, derivatives and antiderivatives used by the models with a reference implementation along histories",
 "C21": "pure numerical accuracy of one optimisation call, no nondeterminism, I/O or multi-step behaviour to simulate (its independence of ambient state is part of C12)",
 "C22": "pure function of the data of one call; nothing to schedule or to fail (its determinism is part of C12)",
 "C23": "numerical analysis statement about a limit of the time step; not about any schedule, fault or history",
 "C24": "statistical statement about the distribution of ideal random numbers; a controlled generator removes exactly the randomness it is about (C11 and C13 check the noise sample by sample given the draws)",
 "C25": "pure function of one call's arguments, no nondeterminism, I/O or history",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "sim/props/%s.py" % i.lower())):
        m = importlib.import_module("sim.props." + i.lower())
        checks.append({"property": i, "quick_cmd": "/opt/venv/bin/python -m sim.check " + i, "thorough_cmd": "/opt/venv/bin/python -m sim.check %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection: " + T[i], "level": getattr(m, "LEVEL", "exploration"), "level_note": "Seeded search, no proof: the property held on every simulated run counted in the evidence file. Real code: " + "; ".join(m.REAL) + ". Stubs: " + "; ".join(m.STUB) + ". Assumes: " + "; ".join(m.ASSUME) + "."})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not written yet")})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -m sim.check setup", "checks": checks, "not_applicable": na, "notes": "No hooks in /repo: every seam is outside the code (joblib backend, dask scheduler, sys.monitoring, LD_PRELOAD disk interposer, generators passed as arguments). Known findings and repaired defects: known_findings.json."}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
