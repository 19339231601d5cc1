"""C15: drawn initial conditions are genuine windows of the given trajectories."""
RUNS = {"quick": 1500, "thorough": 30000}
WALL = {"quick": 45, "thorough": 1500}
RULE = "one run has an integrator and a set of 1-5 short trajectories (1-14 points, 1-2 dimensions, unequal lengths, plain, read-only or lazy, single, list or tuple) and 2-4 values of n_mem; the integrator may have been used with another set before; draws are made under seeded states of the global generator until every window has had an expected 16 chances, under a steered generator that returns the extreme values, after interrupts inside a draw, and by two threads interleaved at library lines or bytecode instructions; each drawn window is located in the trajectories; nontrivial when all windows of a set with more than one window were drawn; distinct by hash of the event log"
REAL = ["VolterraBasis Integrator_gle.initial_conditions, run; xarray indexing"]
STUB = ["np.random.randint steered to its extreme values in a part of the draws (otherwise the real global generator)", "thread scheduling (simulated)"]
ASSUME = ["the probability that a reachable window is missed by the seeded draws is below 1e-6 per run, and the seed is fixed", "a trajectory without any full window may make the draw raise"]


def gen(rng, tier, i):
    nt = rng.choice([1, 1, 2, 2, 3, 4, 5])
    lens = [rng.randint(1, 14) if rng.random() < 0.8 else rng.randint(1, 4) for _ in range(nt)]
    if rng.random() < 0.4:
        lens = [max(l, 6) for l in lens]
    L = max(lens)
    nm = sorted(set([0] + [rng.choice([0, 1, 2, min(lens) - 1, L - 1, rng.randint(0, L - 1)]) for _ in range(rng.randint(1, 3))]))
    return {"lens": lens, "dim": rng.choice([1, 1, 2]), "dt": rng.choice([0.1, 0.05, 1.0]), "idt": rng.choice([None, None, 0.2]), "n_mem": [max(0, n) for n in nm], "container": rng.choice(["list", "list", "tuple", "single" if nt == 1 else "list"]), "ro": rng.random() < 0.3, "lazy": rng.random() < 0.08, "seed0": rng.randrange(1 << 30), "t0": rng.choice([0.0, 0.0, 3.7]), "extra": rng.random() < 0.4, "ck": rng.random() < 0.5, "faults": [rng.random() for _ in range(rng.choice([0, 1, 3]))], "before": [rng.randint(2, 20) for _ in range(rng.choice([1, 1, 2, 4]))] if rng.random() < 0.4 else None, "threads": rng.random() < 0.3, "data": rng.randrange(1 << 30), "axis": rng.choice(["plain", "plain", "repeated", "gap", "drop"])}


def shrink(p):
    for i in range(len(p["n_mem"])):
        if len(p["n_mem"]) > 1:
            yield dict(p, n_mem=p["n_mem"][:i] + p["n_mem"][i + 1 :])
    for i in range(len(p["lens"])):
        if len(p["lens"]) > 1:
            yield dict(p, lens=p["lens"][:i] + p["lens"][i + 1 :], container="list")
        elif p["lens"][i] > 3:
            yield dict(p, lens=[3], n_mem=[min(n, 2) for n in p["n_mem"]])
    for k, v in (("ro", False), ("lazy", False), ("before", None), ("threads", False), ("faults", []), ("extra", False), ("dim", 1), ("idt", None), ("axis", "plain")):
        if p.get(k, v) != v:
            yield dict(p, **{k: v})


def run(plan, sim, d):
    import numpy as np

    from .. import core, work as w
    from ..core import Violation

    rs = np.random.RandomState(plan["data"])
    vb, xr = w.vb, w.xr
    dim, dt = plan["dim"], plan["dt"]
    idt = plan["idt"] or dt
    trajs, ds, axes = [], [], []

    def axis(L):
        """the times of a trajectory: regular, of two joined pieces, with missing frames"""
        a = np.arange(L, dtype=float)
        ax = plan.get("axis", "plain")
        if ax == "repeated" and L > 1:
            a[L // 2 :] -= L // 2
        elif ax == "gap":
            a[L // 2 :] += 5
        elif ax == "drop":  # missing frames here and there
            a = np.sort(rs.permutation(2 * L)[:L]).astype(float)
        return plan["t0"] + a * dt

    for k, L in enumerate(plan["lens"]):
        t = {q: rs.normal(size=(L, dim)) for q in ("x", "v", "a")}
        trajs.append(t)
        axes.append(axis(L))
        x = xr.Dataset({q: (["time", "dim_x"], t[q].copy()) for q in t}, coords={"time": axes[-1].copy()}, attrs={"dt": dt, "id": k})
        if plan["extra"]:
            cv = rs.normal(size=L)
            if plan["data"] % 2:  # a variable of the user that is not known everywhere
                cv[rs.random_sample(L) < 0.4] = np.nan
            x = x.assign({"cv": (["time"], cv)})
            t["cv"] = x["cv"].values.copy()
        if plan["lazy"]:
            x = x.chunk({"time": 3})
        elif plan["ro"]:
            for q in x.variables:
                if hasattr(x[q].variable._data, "flags"):
                    x[q].variable._data.flags.writeable = False
        ds.append(x)
    arg = ds[0] if plan["container"] == "single" else tuple(ds) if plan["container"] == "tuple" else ds
    b = w.vbb.LinearFeatures().fit(np.zeros((3, dim)))
    K = np.exp(-np.arange(5) * 0.3)[:, None, None] * np.eye(dim)[None]
    cls = vb.Integrator_gle_const_kernel if plan["ck"] else vb.Integrator_gle
    I = cls(None, basis=b, force_coeff=-np.eye(dim), kernel=K, dt=idt, verbose=False)
    if plan.get("before"):  # the same integrator was used with another set before
        rb = np.random.RandomState(plan["data"] ^ 5)
        other = [xr.Dataset({q: (["time", "dim_x"], 50 + rb.normal(size=(L, dim))) for q in ("x", "v", "a")}, coords={"time": np.arange(L) * dt}, attrs={"dt": dt}) for L in plan["before"]]
        np.random.seed(plan["seed0"])
        I.initial_conditions(other if len(other) > 1 else other[0], n_mem=min(plan["before"]) // 2)
        if len(other) == 1:
            I.initial_conditions(other, n_mem=0)
    tail = "(%d trajectories of %s points, %s)" % (len(ds), plan["lens"], plan["container"])
    n = drawn = refused = 0

    def locate(s, nm, where):
        """which window it is; raises when it is none"""
        nonlocal n
        n += 1
        T = np.asarray(s["time"].values, float)
        if T.shape != (nm + 1,):
            raise Violation("not-a-window", "%s: %d points instead of %d %s" % (where, len(T), nm + 1, tail))
        if np.max(np.abs(T - np.arange(nm + 1) * idt)) > 1e-12:
            raise Violation("wrong-time", "%s: time axis %s with dt=%g %s" % (where, T[:4], idt, tail))
        a = {q: np.asarray(s[q].values) for q in trajs[0]}
        for k, t in enumerate(trajs):
            hit = [j for j in range(len(t["x"])) if np.array_equal(t["x"][j], a["x"][0])]
            for j in hit:
                for q in t:
                    if not np.array_equal(t[q][j : j + nm + 1], a[q], equal_nan=True):
                        raise Violation("not-a-window", "%s: %s is not that of points %d to %d of trajectory %d %s" % (where, q, j, j + nm, k, tail))
                return k, j
        raise Violation("not-a-window", "%s: the first point belongs to no trajectory %s" % (where, tail))

    def windows(nm):
        return {(k, j) for k, t in enumerate(trajs) for j in range(len(t["x"]) - nm)}

    def draw(nm):
        return I.initial_conditions(arg, n_mem=nm)

    def attempt(nm, seed, where):
        """a draw from a state of the global generator; None when it was refused"""
        nonlocal drawn, refused
        np.random.seed(seed)
        try:
            s = draw(nm)
        except (ValueError, IndexError) as e:
            refused += 1
            if all(L > nm for L in plan["lens"]):
                raise Violation("refused", "%s: %s: %s %s" % (where, type(e).__name__, str(e)[:100], tail))
            return None
        drawn += 1
        return locate(s, nm, where)

    full = 0
    ctx = core.Dask(sim) if plan["lazy"] else None
    if ctx:
        ctx.__enter__()
    for nm in plan["n_mem"]:
        want = windows(nm)
        where = "initial_conditions(n_mem=%d)" % nm
        seen = {}
        if want:
            N = int(16 * len(plan["lens"]) * max(len(t["x"]) - nm for t in trajs)) + 10
            N = min(N, 60 if plan["lazy"] else 900)
            for r in range(N):
                seed = (plan["seed0"] + 7919 * r) & 0x7FFFFFFF
                q = attempt(nm, seed, where)
                if q is not None:
                    seen.setdefault(q, seed)
                    if q not in want:
                        raise Violation("outside", "%s: window %s %s" % (where, q, tail))
                if set(seen) == want and r > 20:
                    break
            expected = 16 * len(plan["lens"]) * max(len(t["x"]) - nm for t in trajs)
            if set(seen) != want and N >= expected:
                miss = sorted(want - set(seen))
                raise Violation("unreachable", "%s: window %s never drawn in %d draws %s" % (where, miss[0], N, tail))
            if set(seen) == want and len(want) > 1:
                full += 1
            for q, seed in sorted(seen.items())[:6]:  # reproducible from the state of the generator
                q2 = attempt(nm, seed, where + " repeated")
                if q2 != q:
                    raise Violation("not-reproducible", "%s: state of the generator gives window %s then %s %s" % (where, q, q2, tail))
            # the start of a run
            q = sorted(seen)[-1]
            np.random.seed(seen[q])
            s = draw(nm)
            if plan["lazy"]:
                s = s.compute()
            r = I.run(nm + 4, x0=s, set_noise_to_zero=True)
            if not np.array_equal(r["x"].values[: nm + 1], trajs[q[0]]["x"][q[1] : q[1] + nm + 1]) or not np.array_equal(r["v"].values[: nm + 1], trajs[q[0]]["v"][q[1] : q[1] + nm + 1]):
                raise Violation("not-the-start", "%s: the run does not start with the drawn window %s" % (where, tail))
        sim.ev("n_mem", nm, len(seen), len(want))
        # steered generator: the extreme values
        real = np.random.randint
        for pat in ((0, 0), (0, 1), (1, 0), (1, 1)):
            calls = []

            def steer(low, high=None, size=None, dtype=int):
                lo, hi = (0, low) if high is None else (low, high)
                r = real(lo, hi, size=size)  # raises what it would raise
                v = lo if pat[len(calls) % 2] == 0 else hi - 1
                calls.append((lo, hi))
                return v if size is None else np.full(size, v)

            np.random.randint = steer
            try:
                q = attempt(nm, 1, where + " at an extreme draw")
            finally:
                np.random.randint = real
            if calls:
                sim.fault("extreme-draw")
            if q is not None and q not in want:
                raise Violation("outside", "%s: window %s %s" % (where, q, tail))
        # interrupted, then drawn again
        if want and all(L > nm for L in plan["lens"]):
            for fr in plan["faults"]:
                np.random.seed(plan["seed0"])
                with core.inject() as c:
                    a = locate(draw(nm), nm, where)
                np.random.seed(plan["seed0"])
                try:
                    with core.inject(line=c.pick_line(fr)):
                        draw(nm)
                except KeyboardInterrupt:
                    sim.ev("interrupted")
                np.random.seed(plan["seed0"])
                if locate(draw(nm), nm, where + " after an interrupt") != a:
                    raise Violation("not-reproducible", "%s after an interrupted draw %s" % (where, tail))
            if plan["threads"] and not plan["lazy"]:
                sch = core.ThreadSched(sim)
                ths = [sch.spawn(lambda: [draw(nm) for _ in range(3)], "t%d" % k) for k in range(2)]
                sch.run_all()
                for t in ths:
                    if t.exc is not None:
                        raise t.exc
                    for s in t.result:
                        if locate(s, nm, where + " by two threads") not in want:
                            raise Violation("outside", "%s by two threads %s" % (where, tail))
                sim.reached["concurrent-draws"] += 1
    if ctx:
        ctx.__exit__(None, None, None)
    for k, t in enumerate(trajs):
        for q in t:
            if not np.array_equal(np.asarray(ds[k][q].values), t[q], equal_nan=True):
                raise Violation("input-modified", "%s of trajectory %d changed %s" % (q, k, tail))
        if not np.array_equal(ds[k]["time"].values, axes[k]):
            raise Violation("input-modified", "time axis of trajectory %d changed %s" % (k, tail))
    return {"counts": {"windows_located": n, "draws": drawn, "refused": refused, "window_sets_covered": full}, "nontrivial": full > 0}
