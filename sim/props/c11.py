"""C11: an integration resumed from any checkpoint continues the uninterrupted run."""
RUNS = {"quick": 800, "thorough": 40000}
WALL = {"quick": 45, "thorough": 1500}
RULE = "one run is an integrator (of an estimated model, or of given force and kernel coefficients; constant or position dependent kernel; truncated or not; 1 or 2 dimensions) and a trajectory of 6-40 steps with given noise, integrated in one go and again in 2-6 pieces: each piece runs in a process of its own that starts from the points saved in a file, on the same or a newly created integrator, and may be killed or interrupted at a seeded library line and restarted from the last file; both trajectories are compared with each other point by point and with a reference integrator; cuts are seeded over all points, shorter and longer than the kernel; nontrivial when a resumed point was compared; distinct by hash of the event log"
REAL = ["VolterraBasis integrators, noise generator, models, bases, estimation of the integrated model"]
STUB = ["random generator (the documented rng argument): returns a recorded white noise", "process crash: exit at a library line of the process doing the piece; only the file written by completed pieces survives"]
ASSUME = ["pieces see the same noise: the same white noise is drawn and a piece keeps only the points whose noise does not depend on the length of the draw", "checkpoints have their time axis starting at zero"]


def gen(rng, tier, i):
    from .. import gens as g

    src = rng.choice(["model", "model", "given", "given", "given"])
    dim = 2 if rng.random() < 0.25 else 1
    if src == "model":
        cfg = g.gen_int_cfg(rng)
        dim = cfg["dim"]
        if dim == 1 and cfg["model"] == "Pos_gle" and rng.random() < 0.3:
            cfg["basis"] = rng.choice([g.BSPF, g.FOU, g.POLYC])
        ops = g.gen_int_history(rng, cfg)
    else:
        ck = rng.random() < 0.5
        cfg = {"model": "Pos_gle_const_kernel" if ck else "Pos_gle", "basis": rng.choice([g.LIN, g.POLY, g.POLYF, g.FOU] if ck else [g.LIN, g.POLY, g.FOU, g.LINC]) if dim == 1 else g.LIN, "dim": dim, "lens": [60], "T": 8, "dt": rng.choice([0.05, 0.02, 0.1]), "data": rng.randrange(1 << 30), "container": "list"}
        ops = []
    M = rng.randint(3, 9)
    n = rng.randint(6, 34)
    p = {"cfg": cfg, "ops": ops, "src": src, "M": M, "kseed": rng.randrange(1 << 30), "trunc": rng.choice([None, None, 2, 3, 4, 7]), "n": n, "n0": rng.choice([0, 1, 1, 1, 2, 3, 5, 8]), "i": rng.randrange(8), "noise": rng.random() < (0.5 if src == "given" else 0.2), "nseed": rng.randrange(1 << 30), "coeffs_noise": src == "model" and rng.random() < 0.5}
    p["gcn"] = rng.random() < 0.3
    pieces = []
    at = max(p["n0"], 1)
    k = rng.choice([1, 1, 2, 3, 5])
    for _ in range(k):
        pieces.append({"cut": rng.random(), "fresh": rng.random() < 0.5, "crash": [rng.random() for _ in range(rng.choice([0, 0, 1, 2]))], "kind": rng.choice(["kill", "kill", "interrupt"])})
    p["pieces"] = pieces
    p["form"] = rng.choice(["float64"] * 5 + ["float32", "int64", "more", "single"])
    p["mode"] = rng.choice(["full", "prefix", "prefix"])
    return p


def shrink(p):
    for i, q in enumerate(p["pieces"]):
        if len(p["pieces"]) > 1:
            yield dict(p, pieces=p["pieces"][:i] + p["pieces"][i + 1 :])
        if q["crash"]:
            yield dict(p, pieces=p["pieces"][:i] + [dict(q, crash=[])] + p["pieces"][i + 1 :])
        if q["fresh"]:
            yield dict(p, pieces=p["pieces"][:i] + [dict(q, fresh=False)] + p["pieces"][i + 1 :])
    if p.get("form", "float64") != "float64":
        yield dict(p, form="float64")
    if p["noise"]:
        yield dict(p, noise=False)
    if p["n"] > 8:
        yield dict(p, n=p["n"] // 2)


class White:
    """the injected generator: a recorded stream per dimension"""

    def __init__(self, seed, dim):
        import numpy as np

        self.w = [np.random.RandomState((seed + 7919 * d) & 0x7FFFFFFF).normal(size=400) for d in range(dim)]
        self.k = 0

    def __call__(self, size=None, **kw):
        import numpy as np

        if np.ndim(size) == 1 and len(size) == 2:  # all dimensions in one call
            D = len(self.w)
            if size[0] == D:
                return np.stack([x[: size[1]] for x in self.w])
            if size[1] == D:
                return np.stack([x[: size[0]] for x in self.w], axis=1)
        elif np.ndim(size) == 1 and len(size) == 1:
            size = size[0]
        a = self.w[self.k % len(self.w)][:size].copy()
        self.k += 1
        return a


def run(plan, sim, d):
    import os
    import pickle

    import numpy as np

    from .. import core, oracle, ref, work as w
    from ..core import Violation

    vb = w.vb
    cfg = plan["cfg"]
    dim, dt = cfg["dim"], cfg["dt"]
    ck = cfg["model"] == "Pos_gle_const_kernel"
    arrs = w.arrays(cfg)
    tail = "(%s, %s)" % (w.describe_cfg(cfg), plan["src"])
    cls = vb.Integrator_gle_const_kernel if ck else vb.Integrator_gle
    rb = ref.RModel(cfg["model"], cfg["basis"], arrs).b
    P = None
    rs = np.random.RandomState(plan["kseed"])
    if plan["src"] == "model":
        S = w.Session(cfg)
        for op in plan["ops"]:
            st, v = w.run_op(S, op)
            if st == "err":
                if oracle.Oracle(plan["cfg"]).singular(op, S, v):
                    return {"counts": {"unstable": 1}, "nontrivial": False}
                raise core.unexpected("%s %s" % (w.op_name(op), tail), v)
        m = S.model
        K = w.named(m.kernel, "time_kernel", "dim_basis")[: plan["trunc"] or m.trunc_ind]
        coeff = w.npy(m.force_coeff)
        P = w.P_of(m)
        kw = {}
        NK = None
        if plan["coeffs_noise"] or P is not None:
            kw["coeffs_noise_kernel"] = rs.normal(size=(K.shape[1], K.shape[1] if ck or K.shape[1] < dim else dim))
            NK = kw["coeffs_noise_kernel"]
        else:
            NK = w.npy(m.inv_mass_coeff)
        KN = np.einsum("kl,ikd->ild", NK, K)

        def make(white):
            return cls(m, trunc_kernel=plan["trunc"], rng=white, verbose=False, **kw)
    else:
        basis = w.make_basis(cfg["basis"])
        from scipy.stats import describe

        basis = basis.fit(describe(arrs[0]["x"]))
        nk = dim if ck else rb.D(arrs[0]["x"][:2]).shape[1]
        nf = rb.B(arrs[0]["x"][:2]).shape[1]
        coeff = rs.normal(size=(nf, dim)) * 0.5
        t = np.arange(plan["M"]) * dt
        K = np.zeros((plan["M"], nk, dim))
        for k in range(nk):
            for e in range(dim):
                K[:, k, e] = rs.uniform(0.5, 3.0) * np.exp(-t * rs.uniform(1.0, 6.0) / dt / 4) * (1.0 if k == e else rs.choice([0.0, 0.4]))
        KN = K
        kw = {}
        if plan.get("gcn"):
            kw["coeffs_noise_kernel"] = np.zeros((nk, dim))
            kw["coeffs_noise_kernel"][np.arange(dim), np.arange(dim)] = rs.uniform(0.5, 2.0, dim)
            KN = np.einsum("kl,ikd->ild", kw["coeffs_noise_kernel"], K)

        def make(white):
            return cls(None, **kw, basis=basis, force_coeff=coeff.copy(), kernel=K.copy(), dt=dt, rng=white, verbose=False)

    M = len(K)
    if M < 2:
        return {"counts": {}, "nontrivial": False}
    n = plan["n"] + plan["n0"]
    noise = plan["noise"]
    if noise:
        n = max(n, 2 * M + 1 + plan["n0"]) + M
        sq = ref.colored_noise(KN, dt, np.stack(White(plan["nseed"], dim).w)[:, :n]) if KN.shape[1] >= dim else None
        if sq is None:
            noise = False
            n = plan["n"] + plan["n0"]
    nz = sq if noise else np.zeros((n, dim))
    form = plan.get("form", "float64")
    tr = {q: np.asarray(arrs[plan["i"] % len(arrs)][q], float) for q in "xv"}
    if form in ("float32", "int64"):  # the initial conditions come in another number type
        tr = {q: (np.rint(2 * a) if form == "int64" else a).astype(form).astype(float) for q, a in tr.items()}
    elif form == "single":  # only the positions do
        tr["x"] = tr["x"].astype("float32").astype(float)
    n0 = min(plan["n0"], len(tr["x"]) - 1)

    def frame(x, v):
        return w.xr.Dataset({"x": (["time", "dim_x"], np.array(x)), "v": (["time", "dim_x"], np.array(v))}, coords={"time": np.arange(len(x)) * dt}, attrs={"dt": dt})

    x0 = frame(tr["x"][:n0], tr["v"][:n0]) if n0 else None
    if n0 and form in ("float32", "int64"):
        x0 = x0.astype(form)
    elif n0 and form == "single":
        x0["x"] = x0["x"].astype("float32")
    elif n0 and form == "more":  # with other variables, as windows drawn from a trajectory have
        x0 = x0.assign({"a": x0["v"] * 2, "cv": ("time", np.arange(n0))})

    def dfun(x):
        D = rb.D(x)
        return D if P is None else np.einsum("ij,njd->nid", P, D)

    # -- in one go
    I = make(White(plan["nseed"], dim))
    whole = I.run(n, x0=x0, set_noise_to_zero=not noise)
    X, V, T = w.npy(whole["x"]), w.npy(whole["v"]), w.npy(whole["time"])
    if X.shape != (n, dim) or V.shape != (n, dim):
        raise Violation("wrong-length", "a run of %d steps returns %s points %s" % (n, X.shape, tail))
    if not np.allclose(np.diff(T), dt, rtol=1e-9):
        raise Violation("wrong-time", "the time axis is not spaced by dt %s" % tail)
    h = max(n0, 1)
    if min(abs(T[0]), abs(T[0] - (h - 1) * dt)) > 1e-9 or abs(whole.attrs["dt"] - dt) > 1e-12:
        raise Violation("wrong-time", "a run from %d points starts at time %s, dt %s %s" % (n0, T[0], whole.attrs["dt"], tail))
    if n0 and (not np.array_equal(X[:n0], tr["x"][:n0]) or not np.array_equal(V[:n0], tr["v"][:n0])):
        raise Violation("initial-points", "the given initial points are not the first points of the trajectory %s" % tail)
    i0 = (tr["x"][:n0], tr["v"][:n0]) if n0 else (np.zeros((1, dim)), np.zeros((1, dim)))
    with np.errstate(all="ignore"):
        rx, rv = ref.integrate(rb.B, dfun, ck, coeff, K, dt, n, i0[0], i0[1], nz)
        px, pv = ref.integrate(rb.B, dfun, ck, coeff * (1 + 1e-12), K * (1 - 1e-12), dt, n, i0[0] * (1 + 1e-12), i0[1], nz * (1 + 1e-10))
    ok = np.isfinite(rx).all(1) & np.isfinite(rv).all(1) & np.isfinite(px).all(1) & (np.abs(rx).max(1) < 1e6) & (np.abs(rv).max(1) < 1e6)
    good = n if ok.all() else int(np.argmin(ok))
    dev = np.maximum(np.abs(px - rx).max(1), np.abs(pv - rv).max(1))[:good]
    sc = np.maximum.accumulate(np.maximum(np.abs(rx).max(1), np.abs(rv).max(1))[:good]) + 1e-3
    stab = np.maximum.accumulate(dev) / sc
    while good > h and stab[good - 1] > 1e-6:
        good -= 1
    sim.ev("whole", n, good, bool(noise))
    sim.vtime += n * dt
    compared = 0
    for name, a, b in (("x", X, rx), ("v", V, rv)):
        if good > h:
            e = np.abs(a - b).max(1)[:good] / sc[:good]
            lim = 1e-9 + 1e3 * stab[:good]
            bad = ~(e <= lim)
            if bad.any():
                j = int(np.argmax(bad))
                raise Violation("not-the-documented-scheme", "run(%d) from %d points%s, kernel of %d points%s: %s at step %d is %s instead of %s %s" % (n, n0, " with noise" if noise else "", M, "" if plan["trunc"] is None else " (truncated)", name, j, a[j], b[j], tail))
            compared += good - h
    # -- in pieces
    cx, cv = i0
    if n0 == 0:
        cx, cv = np.zeros((1, dim)), np.zeros((1, dim))
    have = h
    hits = resumed = 0
    cuts = sorted(set(h + 1 + int(p["cut"] * max(1, n - h - 1)) for p in plan["pieces"]) | {n})
    lines = None

    def piece(target, x0c, x0v, J, crash, kind, fname):
        """in a process of its own: integrate up to target, keep what is reliable, write the file"""
        nonlocal lines
        size, keep = target, target
        if noise:
            if plan["mode"] == "full":
                size, keep = n, target
            elif target < n:
                size = max(target + M - 1, 2 * M - 1)
                keep = target
                if size >= n:
                    size = n
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            msg = b""
            try:
                os.close(r)
                inj = core.inject(line=crash, exc=KeyboardInterrupt if kind == "interrupt" else core.SimFault) if crash else core.inject()
                JJ = J
                try:
                    with inj:
                        if JJ is None:
                            JJ = make(White(plan["nseed"], dim))
                        out = JJ.run(size, x0=frame(x0c, x0v), set_noise_to_zero=not noise)
                except core.SimFault:
                    os.write(wr, pickle.dumps(("crash", str(inj.where))))
                    os._exit(77)
                except KeyboardInterrupt:  # the user presses Ctrl-C and starts the piece again in the same process
                    JJ = JJ if J is not None else make(White(plan["nseed"], dim))
                    if wsrc[0] is not None:
                        wsrc[0].k = 0
                    out = JJ.run(size, x0=frame(x0c, x0v), set_noise_to_zero=not noise)
                    msg = str(inj.where).encode()
                o = frame(w.npy(out["x"])[:keep], w.npy(out["v"])[:keep])
                o.to_netcdf(fname)
                os.write(wr, pickle.dumps(("ok", inj.lines, msg)))
                code = 0
            except BaseException as e:
                os.write(wr, pickle.dumps(("exc", type(e).__name__, str(e)[:200])))
            finally:
                os._exit(code)
        os.close(wr)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        return pickle.loads(data) if data else ("died",)

    wsrc = [None]
    J = None
    step = 0
    for q, target in zip((plan["pieces"] * 3), cuts):
        fname = "piece%d.nc" % step
        step += 1
        if J is None and not q["fresh"]:
            wsrc[0] = White(plan["nseed"], dim)
            J = make(wsrc[0])
        J2 = None if q["fresh"] else J
        for fr in q["crash"]:
            if lines:
                res = piece(target, cx, cv, J2, 1 + int(fr * lines), q["kind"], fname)
                if res[0] == "crash":
                    sim.fault("process-crash")
                    hits += 1
                    sim.ev("crashed", step, res[1])
                    if os.path.exists(fname):
                        raise Violation("harness", "file of a crashed piece")
                    continue
                if res[0] == "ok":
                    if res[2]:
                        sim.fault("interrupt")
                        hits += 1
                    break
                raise Violation("resume-raises", "resuming from %d points to %d after a crash: %s %s" % (len(cx), target, res, tail))
        else:
            res = piece(target, cx, cv, J2, None, None, fname)
            if res[0] != "ok":
                raise Violation("resume-raises", "resuming from %d points to %d: %s %s" % (len(cx), target, res, tail))
            lines = res[1] or lines
        with w.xr.open_dataset(fname) as f:
            o = f.load()
        ox, ov = w.npy(o["x"]), w.npy(o["v"])
        where = "integrated to %d, resumed from %d points, kernel of %d points%s %s" % (target, len(cx), M, ", with noise" if noise else "", tail)
        if not np.array_equal(ox[: len(cx)], cx, equal_nan=True) or not np.array_equal(ov[: len(cv)], cv, equal_nan=True):
            raise Violation("initial-points", where + ": the saved points were changed")
        g2 = min(len(ox), max(good, h))
        for name, a, b in (("x", ox, X), ("v", ov, V)):
            e = np.abs(a[:g2] - b[:g2]).max(1) if g2 else np.zeros(0)
            lim = (1e-11 + 30 * stab[: len(e)]) * sc[: len(e)] if good >= g2 else np.full(len(e), 1e-11)
            bad = ~(e <= lim)
            if bad.any():
                j = int(np.argmax(bad))
                raise Violation("resumed-differs", "%s: %s at step %d is %s instead of %s" % (where, name, j, a[j], b[j]))
        resumed += max(0, g2 - len(cx))
        sim.ev("piece", step, len(cx), target)
        cx, cv = ox, ov
    return {"counts": {"points_compared_with_reference": compared, "points_resumed": resumed, "pieces": step, "with_noise": int(noise), "crashes": hits}, "nontrivial": resumed > 0}
