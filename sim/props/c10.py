"""C10: after every history, estimates and evaluations are what their definition says."""
RUNS = {"quick": 1700, "thorough": 60000}
WALL = {"quick": 45, "thorough": 1500}
RULE = "one run is a history of 3-14 estimation and evaluation steps in any valid order with repeats, option changes, injected failures (a failing call, an interrupt or a step that is not possible yet) between them, on random data, model, basis, dimension; every returned array is compared with an independent reference model fed with the same history; nontrivial when the history has a failure or a repeated step and at least 3 arrays were compared; distinct by hash of the event log"
REAL = ["VolterraBasis estimators, models, bases, correlation, Fortran kernels"]
STUB = ["nothing replaced; failures injected at source lines (sys.monitoring)"]
ASSUME = ["reference model (sim/ref.py): plain sums over samples, forward substitution for the Volterra equations", "tolerances scale with conditioning; ill-conditioned arrays are skipped and counted"]


def gen(rng, tier, i):
    from .. import gens as g

    cfg = g.gen_cfg(rng, small=rng.random() < 0.6, huge=0.02)
    ranges = rng.random() < 0.08  # a basis of which several ranges are possible
    if ranges:
        cfg = g.gen_cfg(rng, models=["Pos_gle", "Pos_gle_overdamped"], dim=1, small=True)
        cfg["basis"] = rng.choice([g.BSPF, g.POLYF, g.FOUF, g.POLYF])
        if cfg["model"] == "Pos_gle_overdamped":
            cfg["rank"] = True
    ops = g.gen_history(rng, cfg, n_extra=rng.randint(1, 7))
    if cfg["model"] in ("Pos_gle_overdamped", "Pos_gle_no_vel_basis") and cfg["dim"] == 1 and rng.random() < 0.45:
        ops.append(["to_gfpe", {}])
        ops += [["zero_force" if rng.random() < 0.25 else "mean_force", {}], ["corrs", g.gen_corrs(rng)]]
        ops.append(g.gen_kernel(rng, ops[-1][1]))
        m = ops[-1][1].get("method", "rectangular")
        if cfg["model"] == "Pos_gle_overdamped" and rng.random() < 0.7:
            ops.append(["evolve", {"n": rng.randint(1, 14), "method": rng.choice(["rect", "trapz", "trapz_stab"]), "trunc": rng.choice([None, None, 2, 4, 0, -1])}])
        for _ in range(rng.randint(0, 3)):
            ops.append(g.gen_eval(rng, cfg, what=rng.choice(["noise", "proj_corrs", "basis_values"]) if m in g.NOISE_METHODS else "basis_values", method=m))
    if cfg["model"] in ("Pos_gle_hybrid", "Pos_gle_no_vel_basis", "Pos_gle_overdamped"):
        k = [i for i, o in enumerate(ops) if o[0] == "pos_mass"]
        e = [i for i, o in enumerate(ops) if o[0] == "to_gfpe"] + [len(ops)]
        if k and k[0] < e[0] and rng.random() < 0.6:
            ops.insert(rng.randint(k[0] + 1, e[0]), ["inv_mass_eval", {"x": g.gen_points(rng, cfg)}])
    if ranges or rng.random() < 0.15:  # another range at each computation of the correlations
        for k in reversed([k for k, o in enumerate(ops) if o[0] == "corrs"]):
            ops[k] = ["corrs", dict(ops[k][1], rank_tol=rng.choice([1e-9, 1e-6, 0.01, 0.03, "split", "split", "split"]))]
            if k + 1 == len(ops) or ops[k + 1][0] != "kernel":
                ops.insert(k + 1, ["kernel", {"method": rng.choice(["rect", "rectangular", "trapz"])}])
    bad = {}
    for k in range(len(ops)):
        if rng.random() < 0.15:
            bad[str(k)] = rng.choice([["interrupt", rng.randint(1, 60)], ["exception", rng.randint(1, 60)], ["badmethod", 0]])
    for k in range(1, len(ops)):
        if rng.random() < 0.04:
            ops[k : k] = [["correl", {"i": rng.randrange(64), "fn": rng.choice(["fft", "direct"]), "trunc": rng.choice([None, 3, 11, 500])}]]
            bad = {str(int(j) + (int(j) >= k)): v for j, v in bad.items()}
    return {"cfg": cfg, "ops": ops, "bad": bad, "n_jobs": rng.choice([1, 1, 1, 2, 3]), "build": rng.choice([None, None, "va", "gjf", "vel", "acc", "jumps", "jumps", "gjfj"]), "lamb": rng.choice([0.5, 0.5, 0.0, 1.0, 0.3]), "t0": rng.choice([0.0, 0.0, -0.7, 3.0])}


def shrink(p):
    for k in p["bad"]:
        yield dict(p, bad={a: b for a, b in p["bad"].items() if a != k})
    if p["n_jobs"] > 1:
        yield dict(p, n_jobs=1)


def build(plan, w):
    """trajectories made by the library from positions, and what they should be"""
    import numpy as np

    from .. import ref
    from ..core import Violation

    cfg, how, vb = plan["cfg"], plan["build"], w.vb
    dt = cfg["dt"]
    ds, arrs = [], []
    t0 = cfg.get("t0") or [0]
    for i, x in enumerate(w.make_x(cfg)):
        t = (t0[i % len(t0)] + np.arange(len(x))) * dt
        y, kw = x, {}
        if how in ("jumps", "gjfj"):
            y, p, thr = ref.wrapped(x, 0.4 + 0.6 * plan["lamb"])
            kw = {"correct_jumps": True, "jump": p, "jump_thr": thr}
            z = x * 0.7 / np.abs(np.diff(x, axis=0)).max()  # the default period
            g = (vb.compute_va if how == "jumps" else vb.compute_va_gjf)(vb.xframe(np.angle(np.exp(1j * z)), t), correct_jumps=True)
            X, V, A = ref.compute_va(z, dt) if how == "jumps" else ref.compute_va_gjf(z, dt)
            for k, q in (("v", V), ("a", A)):
                w.same(k, (w.npy(g[k]),), (q, 1e-8), "trajectory of %d points with jumps of 2 pi built with %s" % (len(x), how), "definition")
        if how in ("va", "jumps"):
            f = vb.compute_va(vb.xframe(y, t), lamb_finite_diff=plan["lamb"], **kw)
            X, V, A = ref.compute_va(x, dt, plan["lamb"])
            X = y[1:-1]
        elif how in ("gjf", "gjfj"):
            f = vb.compute_va_gjf(vb.xframe(y, t), **kw)
            X, V, A = ref.compute_va_gjf(x, dt)
            X = y[1:-1]
        else:
            v = np.gradient(x, dt, axis=0)
            f = (vb.compute_a_from_vel if how == "vel" else vb.compute_a)(vb.xframe(x, t, v=v))
            X, V = x[1:-1], v[1:-1]
            A = (v[2:] - v[:-2]) / (2 * dt) if how == "vel" else (x[2:] - 2 * x[1:-1] + x[:-2]) / dt**2
        want = {"x": X, "v": V, "a": A, "time": t[1:-1]}
        for k in want:
            w.same(k, (w.npy(f[k]),), (want[k], 1e-8), "trajectory of %d points built with %s" % (len(x), how), "definition")
        if sorted(map(str, f.data_vars)) != ["a", "v", "x"] or abs(f.attrs["dt"] - dt) > 1e-9:
            raise Violation("definition", "trajectory built with %s has variables %s and attributes %s" % (how, list(f.data_vars), f.attrs))
        arrs.append({k: w.npy(f[k]) for k in want})
        if cfg.get("L_obs") == "w":
            arrs[-1]["w"] = w.observable(cfg, V, A)
            f = f.assign({"w": w.dataset(arrs[-1], dt)["w"]})
        ds.append(f)
    return ds, arrs


def frame_checks(plan, w):
    """xframe and concat_underdamped"""
    import numpy as np

    from ..core import Violation

    vb, dt = w.vb, plan["cfg"]["dt"]
    x = w.make_x(plan["cfg"])[0]
    n, dim = x.shape
    rs = np.random.RandomState(plan["cfg"]["data"] % 1000)
    t = plan["t0"] + np.arange(n) * dt
    v, a = rs.normal(size=(2, n, dim))
    one = dim == 1 and plan["lamb"] == 0.5
    q = [(b[:, 0].copy() if one else b.copy()) for b in (x, v, a)]
    k = plan["cfg"]["data"] % 4
    kw = {}
    wt, wdt = t, dt
    if k == 1:  # the rounding of the first step
        t = np.round(dt * 1e4) * 1e-4 * np.arange(n) + np.concatenate([[0.0], 2e-5 * rs.uniform(-1, 1, n - 1)]) + plan["t0"]
        kw = {"fix_time": True}
        wt, wdt = np.arange(n) * dt, dt
    elif k == 2:
        kw = {"fix_time": True, "dt": 2 * dt}
        wt, wdt = np.arange(n) * 2 * dt, 2 * dt
    f = [vb.xframe(q[0], t, **kw), vb.xframe(q[0], t, v=q[1], **kw), vb.xframe(q[0], t, v=q[1], a=q[2], **kw)]
    for m, g in enumerate(f):
        for name, c in list(zip("xva", (x, v, a)))[: m + 1]:
            w.same(name, (w.npy(g[name]),), (c, 1e-12), "frame of %d points, %s" % (n, kw), "definition")
        w.same("time", (w.npy(g["time"]),), (wt, 1e-9), "frame of %d points, %s" % (n, kw), "definition")
        if list(map(str, g.data_vars)) != list("xva"[: m + 1]) or abs(g.attrs["dt"] - wdt) > 1e-9 or dict(g.sizes) != {"time": n, "dim_x": dim}:
            raise Violation("definition", "xframe with %s: variables %s, attributes %s, sizes %s" % (kw, list(g.data_vars), g.attrs, dict(g.sizes)))
    h = vb.concat_underdamped(f[2])
    for name, c in (("x", np.hstack([x, v])), ("v", np.hstack([v, a]))):
        w.same(name, (w.npy(h[name].transpose("time", "dim_x")),), (c, 1e-12), "concat_underdamped", "definition")


def run(plan, sim, d):
    from .. import core, oracle, work as w
    from ..core import Violation

    cfg = plan["cfg"]
    ds = arrs = None
    if plan.get("build"):
        ds, arrs = build(plan, w)
        frame_checks(plan, w)
    S = w.Session(cfg, n_jobs=plan["n_jobs"], ds=ds)
    S.arrs = arrs  # the trajectories it was given, when not those of the configuration
    O = oracle.Oracle(cfg, arrs)
    n = fails = skip = 0
    tail = "(%s)" % w.describe_cfg(cfg)
    if int(S.model.trunc_ind) != O.T or bool(S.model.rank_projection) != O.rank:
        raise Violation("definition", "created with trunc_ind %s, rank projection %s instead of %s, %s %s" % (S.model.trunc_ind, S.model.rank_projection, O.T, O.rank, tail))
    stable = True
    done = []
    try:
        with core.pool(core.Pool(sim)):
            for k, op in enumerate(plan["ops"]):
                b = plan["bad"].get(str(k))
                if op[0] == "corrs" and op[1].get("rank_tol") == "split":
                    op = ["corrs", {q: x for q, x in dict(op[1], rank_tol=O.split()).items() if x is not None}]
                    sim.reached["rank-split"] += "rank_tol" in op[1]
                if b and op[0] != "to_gfpe":
                    fails += 1
                    try:
                        if b[0] == "badmethod":
                            sim.fault("invalid-request")
                            S.est.compute_kernel(method="nonsense")
                        else:
                            with core.inject(line=b[1], exc=KeyboardInterrupt if b[0] == "interrupt" else core.SimFault):
                                w.do(S, op)
                    except Violation:
                        raise
                    except (Exception, KeyboardInterrupt) as e:
                        sim.ev("failed", op[0], type(e).__name__)
                where = "%s after %s %s" % (w.op_name(op), ", ".join(done[-6:]), tail)
                st, v = w.run_op(S, op)
                sim.ev("op", op[0], st)
                if st == "err":
                    if O.singular(op, S, v):
                        raise w.Unstable()
                    raise core.unexpected(where, v)
                skip += sum(1 for a in v.values() if a[1] is None)
                n += O.check(op, S, v, where)
                done.append(op[0])
    except w.Unstable:
        stable = False
    return {"counts": {"ops": len(plan["ops"]), "arrays_compared": n, "ill_conditioned_skipped": skip, "failures_between": fails, "unstable": int(not stable)}, "nontrivial": n >= 3 and (fails > 0 or len(set(o[0] for o in plan["ops"])) < len(plan["ops"]))}
