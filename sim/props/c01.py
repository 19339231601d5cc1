"""C01: parallel estimation equals the sequential one for every schedule of the tasks."""
RUNS = {"quick": 900, "thorough": 40000}
WALL = {"quick": 45, "thorough": 1500}
RULE = "one run is one history of 3-10 estimation steps on 1-12 trajectories, executed with n_jobs=1 and again with a simulated pool (seeded task starts, finishes, deliveries, batches, stalls, duplicate executions); nontrivial when at least one parallel call had two or more tasks pending and at least one array was compared; distinct by hash of the event log"
REAL = ["VolterraBasis estimators, models, bases, correlation, Fortran kernels", "joblib.Parallel (dispatch, batching, result ordering)", "cloudpickle transfer of tasks and results"]
STUB = ["joblib worker processes/threads and clock (simulated pool, seeded scheduler)"]
ASSUME = ["workers are modelled as pickled copies (process mode) or threads switching at library source lines or single bytecode instructions (thread mode)", "equality up to rounding: 1e-9 on averages, scaled with the conditioning of the Gram matrix and of the Volterra inversion; ill-conditioned items are skipped and counted"]


def gen(rng, tier, i):
    from .. import gens as g

    cfg = g.gen_cfg(rng, ntraj=rng.choice([2, 3, 3, 4, 5, 6, 7, 9, 12]) if rng.random() < 0.93 else 1, small=True, huge=0.02)
    ops = g.gen_history(rng, cfg, n_extra=rng.randint(0, 4))
    return {
        "cfg": cfg,
        "ops": ops,
        "n_jobs": rng.choice([2, 2, 3, 4, 5, 8, 12]),
        "mode": "thread" if rng.random() < 0.3 else "process",
        "batch": rng.choice([[1], [1], [1, 2], [2], [1, 2, 3], [4]]),
        "dup": int(rng.random() < 0.35),
        "readonly": rng.random() < 0.3,
        "sync": [rng.random() < 0.5 for _ in ops],
    }


def shrink(p):
    if p["mode"] != "process":
        yield dict(p, mode="process")
    if p["dup"]:
        yield dict(p, dup=0)
    if p["readonly"]:
        yield dict(p, readonly=False)
    if p["batch"] != [1]:
        yield dict(p, batch=[1])
    if p["n_jobs"] > 2:
        yield dict(p, n_jobs=2)


def sync(A, B):
    """give the estimator of B the state of that of A, so that the next step is compared up to rounding only"""
    import numpy as np
    import xarray as xr

    for a, b in ((A.est, B.est), (A.est.model, B.est.model)):
        for k, v in vars(a).items():
            if isinstance(v, (xr.DataArray, xr.Dataset)):
                setattr(b, k, v.copy(deep=True))
            elif isinstance(v, np.ndarray):
                setattr(b, k, v.copy())


def run(plan, sim, d):
    from .. import core, work as w

    cfg = plan["cfg"]
    A = w.Session(cfg)
    B = w.Session(cfg, n_jobs=plan["n_jobs"])
    compared = 0
    tail = "with n_jobs=%d (%s)" % (plan["n_jobs"], w.describe_cfg(cfg))
    p = core.Pool(sim, mode=plan["mode"], batch=plan["batch"], dup=plan["dup"], readonly=plan["readonly"])
    stable = True
    try:
        for k, op in enumerate(plan["ops"]):
            tight = k and plan.get("sync", [0] * 99)[k] and op[0] in ("corrs", "proj_corrs", "basis_mean") and w.P_of(A.model) is None
            if tight:
                sync(A, B)
            sa, va = w.run_op(A, op)
            with core.pool(p):
                sb, vb_ = w.run_op(B, op)
            sim.ev("op", op[0], sa, sb)
            if tight and sa == "ok":
                va = {n: (x[0], 1e-9) + x[2:] for n, x in va.items()}
            compared += w.pair(sa, va, sb, vb_, "%s %s" % (w.op_name(op), tail), "parallel")
        compared += w.same_values(w.snapshot(B), w.snapshot(A), "state after the history " + tail, "parallel-differs")
    except w.Unstable:
        stable = False
    sim.ev("tasks", p.n_submitted, p.n_executed, p.completed_order)
    return {"counts": {"ops": len(plan["ops"]), "arrays_compared": compared, "tasks": p.n_executed, "unstable": int(not stable)}, "nontrivial": compared > 0 and p.max_pending > 1}
