"""C03: every trajectory counts exactly once, weighted by its length."""
RUNS = {"quick": 1300, "thorough": 50000}
WALL = {"quick": 45, "thorough": 1500}
RULE = "one run lists 1-12 trajectories of unequal or equal lengths in a random order (some listed twice, some shorter than the truncation) in a random container, and computes averaged quantities sequentially or through the simulated pool with duplicate executions and injected task failures followed by retries; every average is compared with the length-weighted sum of the reference model; nontrivial when at least two trajectories and at least 3 arrays were compared; distinct by hash of the event log"
REAL = ["VolterraBasis estimators, models, bases, correlation, Fortran kernels", "joblib.Parallel"]
STUB = ["joblib workers and clock (simulated pool)"]
ASSUME = ["reference model (sim/ref.py)", "tolerances scale with conditioning"]


def gen(rng, tier, i):
    from .. import gens as g

    n = rng.choice([2, 2, 3, 3, 4, 5, 6, 8, 12]) if rng.random() < 0.9 else 1
    cfg = g.gen_cfg(rng, ntraj=n, small=True, huge=0.02)
    if rng.random() < 0.15:
        cfg["lens"] = [cfg["lens"][0]] * n if cfg["lens"][0] > 25 else [40] * n
    order = list(range(n))
    rng.shuffle(order)
    if rng.random() < 0.3:
        for _ in range(rng.randint(1, 2)):
            order.insert(rng.randrange(len(order) + 1), rng.randrange(n))
    c = g.gen_corrs(rng)
    k = g.gen_kernel(rng, c, methods=g.NOISE_METHODS)
    ops = [["mean_force", {}], ["corrs", c], k]
    pre = [g.gen_simple(rng, cfg, x) for x in ("gram_force", "eff_mass", "pos_mass", "basis_mean") if rng.random() < 0.6]
    post = [g.gen_simple(rng, cfg, x) for x in ("gram_kernel", "basis_mean", "eff_mass", "pos_mass") if rng.random() < 0.5]
    post += [g.gen_eval(rng, cfg, "proj_corrs") for _ in range(rng.choice([0, 1, 1, 2]))]
    rng.shuffle(post)
    ops = pre + ops + post
    par = rng.random() < 0.6
    bad = {}
    for j in range(len(ops)):
        if rng.random() < 0.15:
            bad[str(j)] = {"task": rng.randrange(len(order)), "kind": rng.choice(["before", "mid", "after", "death"]) if par else "basis", "line": rng.randint(1, 12)}
    return {"cfg": cfg, "order": order, "ops": ops, "n_jobs": rng.choice([2, 3, 4, 8]) if par else 1, "mode": rng.choice(["process", "process", "thread"]), "batch": rng.choice([[1], [1, 2], [2], [1, 3]]), "dup": int(rng.random() < 0.5), "bad": bad, "fe": rng.randint(5, 12) if cfg["dim"] == 1 and rng.random() < 0.3 else 0}


def shrink(p):
    for k in p["bad"]:
        yield dict(p, bad={a: b for a, b in p["bad"].items() if a != k})
    if p.get("fe"):
        yield dict(p, fe=0)
    if p["n_jobs"] > 1:
        yield dict(p, n_jobs=1, bad={})
    if len(p["order"]) > 1:
        for i in range(len(p["order"])):
            yield dict(p, order=p["order"][:i] + p["order"][i + 1 :])


def profile(plan, one, arrs, order, tail):
    """the free energy histogram and profiles are those of all samples together (the lowest one is in no bin)"""
    import numpy as np

    from .. import work as w
    from ..core import Violation

    ds = [one[i][["x", "v", "a"]] for i in order]
    X, V, A = (np.concatenate([np.asarray(arrs[i][q], float).ravel() for i in order]) for q in "xva")
    edges = np.linspace(X.min(), X.max(), plan["fe"])
    if min(np.abs(np.subtract.outer(X, edges[1:-1])).min(), 1) < 1e-9:
        return 0
    k = np.searchsorted(edges, X, side="left") - 1
    ok = k >= 0
    nb = len(edges) - 1
    cnt = np.bincount(k[ok], minlength=nb).astype(float)
    full = cnt > 0
    xf, pf = w.vb.compute_1d_fe(ds if len(order) % 2 else tuple(ds), bins=plan["fe"], hist=True)
    where = "compute_1d_fe(bins=%d) %s" % (plan["fe"], tail)

    def same(name, a, b):
        a = np.asarray(a, float)
        if a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=1e-12):
            raise Violation("average-differs", "%s: %s is %s instead of %s" % (where, name, a, b))

    same("histogram", pf, cnt / cnt.sum())
    same("bin centres", xf, (edges[1:] + edges[:-1]) / 2)
    if full.sum() < 4:
        return 2
    r = w.vb.compute_1d_fe(ds, bins=plan["fe"])
    fe = -np.log(cnt[full] / cnt.sum())
    same("free energy", r[1], fe - fe.min())
    same("mean acceleration", r[3], (np.bincount(k[ok], A[ok], minlength=nb)[full] / cnt[full]))
    same("mean squared velocity", r[5], (np.bincount(k[ok], V[ok] ** 2, minlength=nb)[full] / cnt[full]))
    return 5


def run(plan, sim, d):
    from .. import core, oracle, work as w
    from ..core import Violation

    cfg = plan["cfg"]
    n_in = len(cfg["lens"])
    order = [i % n_in for i in plan["order"]]
    arrs = w.arrays(cfg)
    one = w.datasets(cfg, arrs)
    ds = [one[i] for i in order]
    basis = w.FaultyBasis(w.make_basis(cfg["basis"]))
    S = w.Session(cfg, ds=ds, basis=basis, n_jobs=plan["n_jobs"])
    O = oracle.Oracle(cfg, arrs=[arrs[i] for i in order])
    n = 0
    tail = "(%s listed as %s, %s)" % (w.describe_cfg(cfg), order, "n_jobs=%d" % plan["n_jobs"])
    stable = True
    try:
        for k, op in enumerate(plan["ops"]):
            b = plan["bad"].get(str(k))
            p = core.Pool(sim, mode=plan["mode"], batch=plan["batch"], dup=plan["dup"])
            if b:
                if b["kind"] == "basis":
                    basis._left = 1 + b["task"]
                    pf = p
                else:
                    pf = core.Pool(sim, mode=plan["mode"], batch=[1], faults=[b])
                with core.pool(pf):
                    try:
                        w.do(S, op)
                        if pf.faults and pf.faults[0].get("used") and b["kind"] != "mid":
                            raise Violation("failure-swallowed", "%s %s: a per-trajectory task failed but the step returned" % (w.op_name(op), tail))
                    except Violation:
                        raise
                    except Exception as e:
                        sim.ev("failed", op[0], type(e).__name__)
                basis._left = None
            with core.pool(p):
                st, v = w.run_op(S, op)
            where = "%s %s" % (w.op_name(op), tail)
            sim.ev("op", op[0], st)
            if st == "err":
                if O.singular(op, S, v):
                    raise w.Unstable()
                raise core.unexpected(where, v)
            n += O.check(op, S, v, where, "average")
    except w.Unstable:
        stable = False
    if plan.get("fe"):
        n += profile(plan, one, arrs, order, tail)
    return {"counts": {"ops": len(plan["ops"]), "arrays_compared": n, "unstable": int(not stable)}, "nontrivial": n >= 3 and len(order) > 1}
