"""C02: lazily evaluated, chunked trajectories give the in-memory result for every task order."""
RUNS = {"quick": 700, "thorough": 30000}
WALL = {"quick": 45, "thorough": 1500}
RULE = "one run builds trajectories as lazy arrays with random cuts along time, computes velocities and accelerations, and runs a history of estimation steps; chunk tasks are executed by a simulated scheduler in any topological order, some twice, optionally in interleaved threads and with read-only results; nontrivial when some lazy graph with a choice of order was executed and an array was compared; distinct by hash of the event log"
REAL = ["VolterraBasis (xframe, compute_va*, estimators, models, bases)", "xarray and dask graph construction", "the chunk tasks themselves"]
STUB = ["the dask scheduler (seeded topological order, recomputation, line-level thread interleaving)"]
ASSUME = ["chunks along time only, as documented by the library's use of dask", "equality up to rounding as in C01"]


def gen(rng, tier, i):
    from .. import gens as g

    cfg = g.gen_cfg(rng, ntraj=rng.choice([1, 1, 2, 2, 3, 4]), small=True, huge=0.02)
    cuts = []
    for L in cfg["lens"]:
        n = rng.choice([0, 1, 1, 2, 3, 5])
        cuts.append(sorted(rng.sample(range(1, L + 1), min(n, L))))
    va = rng.choice(["va", "va", "va", "gjf", "vel", "acc", "jumps", "gjfj", "none"])
    ops = g.gen_history(rng, cfg, n_extra=rng.randint(0, 3))
    return {"cfg": cfg, "ops": ops, "cuts": cuts, "va": va, "lamb": rng.choice([0.5, 0.5, 0.0, 1.0, 0.3]), "lazy": [True], "recompute": rng.choice([0, 0, 1, 3]), "readonly": rng.random() < 0.3, "threads": rng.choice([0, 0, 0, 0, 0, 0, 2, 3]), "n_jobs": rng.choice([1, 1, 1, 1, 2])}


def shrink(p):
    for k, v in (("threads", 0), ("recompute", 0), ("readonly", False), ("n_jobs", 1), ("va", "none")):
        if p[k] != v:
            yield dict(p, **{k: v})
    for i, c in enumerate(p["cuts"]):
        for j in range(len(c)):
            yield dict(p, cuts=p["cuts"][:i] + [c[:j] + c[j + 1 :]] + p["cuts"][i + 1 :])


def frames(plan, lazy):
    import dask.array as da
    import numpy as np

    from .. import ref, work as w
    from ..work import vb

    cfg = plan["cfg"]
    out = []
    for i, x in enumerate(w.make_x(cfg)):
        n = len(x)
        t = np.arange(n) * cfg["dt"]
        c = [0] + [k for k in plan["cuts"][i % len(plan["cuts"])] if k < n] + [n]
        ch = (tuple(b - a for a, b in zip(c[:-1], c[1:])), (cfg["dim"],))
        lz = lazy and plan["lazy"][i % len(plan["lazy"])]
        arr = (lambda a: da.from_array(a, chunks=ch)) if lz else (lambda a: a)
        va = plan["va"]
        kw = {}
        if va in ("jumps", "gjfj"):
            x, p, thr = ref.wrapped(x, 0.5)
            kw = {"correct_jumps": True, "jump": p, "jump_thr": thr}
        if va in ("va", "jumps"):
            ds = vb.compute_va(vb.xframe(arr(x), t), lamb_finite_diff=plan["lamb"], **kw)
        elif va in ("gjf", "gjfj"):
            ds = vb.compute_va_gjf(vb.xframe(arr(x), t), **kw)
        elif va in ("vel", "acc"):
            v = np.gradient(x, cfg["dt"], axis=0)
            f = vb.xframe(arr(x), t, v=arr(v))
            ds = (vb.compute_a_from_vel if va == "vel" else vb.compute_a)(f)
        else:
            ds = w.dataset(w.arrays(cfg)[i], cfg["dt"])
            if lz:
                c = [0] + [k for k in plan["cuts"][i % len(plan["cuts"])] if k < n - 2] + [n - 2]
                ds = ds.chunk({"time": tuple(b - a for a, b in zip(c[:-1], c[1:]))})
        out.append(ds)
    return out


def run(plan, sim, d):
    from .. import core, work as w
    from ..core import Violation

    cfg = plan["cfg"]
    compared = 0
    stable = True
    tail = "(%s, lazily chunked %s)" % (w.describe_cfg(cfg), plan["cuts"])
    lz = core.Dask(sim, recompute=plan["recompute"], readonly=plan["readonly"], threads=plan["threads"])
    eager = frames(plan, False)
    ctx = lz
    with ctx:
        try:
            lazy = frames(plan, True)
            for i, (e, l) in enumerate(zip(eager, lazy)):
                where = "trajectory %d from %s %s" % (i, plan["va"], tail)
                if sorted(map(str, e.variables)) != sorted(map(str, l.variables)) or dict(e.sizes) != dict(l.sizes):
                    raise Violation("lazy-frame", "%s: variables or sizes differ: %s %s" % (where, dict(e.sizes), dict(l.sizes)))
                for k in e.variables:
                    compared += w.same(str(k), (w.npy(l[k]),), (w.npy(e[k]), 1e-11), where, "lazy-frame")
                if e.attrs != l.attrs:
                    raise Violation("lazy-frame", where + ": attributes differ")
        except (Violation, core.NoProgress):
            raise
        except Exception as ex:
            raise Violation("lazy-raises", "building lazy trajectories with %s %s: %s: %s" % (plan["va"], tail, type(ex).__name__, str(ex)[:200]))
    try:
        A = w.Session(cfg, ds=eager)
    except Exception as ex:
        sim.ev("rejected", type(ex).__name__)
        return {"counts": {"rejected": 1}, "nontrivial": False}
    p = core.Pool(sim)
    with ctx, core.pool(p):
        try:
            B = w.Session(cfg, ds=lazy, n_jobs=plan["n_jobs"])
        except Exception as ex:
            raise Violation("lazy-raises", "creating the estimator %s: %s: %s" % (tail, type(ex).__name__, str(ex)[:200]))
        try:
            for op in plan["ops"]:
                sa, va = w.run_op(A, op)
                sb, vb_ = w.run_op(B, op)
                sim.ev("op", op[0], sa, sb)
                compared += w.pair(sa, va, sb, vb_, "%s %s" % (w.op_name(op), tail), "lazy")
            compared += w.same_values(w.snapshot(B), w.snapshot(A), "state after the history " + tail, "lazy-differs")
        except w.Unstable:
            stable = False
    return {"counts": {"ops": len(plan["ops"]), "arrays_compared": compared, "lazy_tasks": lz.n, "unstable": int(not stable)}, "nontrivial": compared > 0 and len(sim.trace) > 0}
