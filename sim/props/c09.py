"""C09: a saved model, loaded by a new process, answers exactly like the model it was saved from."""
RUNS = {"quick": 1500, "thorough": 40000}
WALL = {"quick": 45, "thorough": 1500}
RULE = "one run is a history of estimation steps with failures and interrupts between them; at 1-3 seeded points save_model is called, the answers of the model to 3-9 queries (force, friction, free energy, kernel, masses, noise, correlations with the noise, basis values, evolution, noise-free and seeded integration) are recorded and the history goes on; the saved coefficients are written to a file at once or after later steps, as netCDF (three engines of reading) or pickle; a new process, started before any object existed, reads the file, rebuilds the model on an equally fitted basis (fitted again or transferred) and answers the same queries; saved coefficients and file contents are compared before and after; nontrivial when an array answered by the new process was compared; distinct by hash of the event log"
REAL = ["VolterraBasis save_model, load_model, models, bases, integrators; xarray and netCDF writing and reading"]
STUB = ["process restart: a process forked before the first object of the run was created"]
ASSUME = ["the basis of the new process is fitted with the same data or transferred by pickle", "equality to 1e-10 relative (the array layout may change in the file)"]


def gen(rng, tier, i):
    from .. import gens as g

    integ = rng.random() < 0.35
    if integ:
        cfg = g.gen_int_cfg(rng)
        ops = g.gen_int_history(rng, cfg)
    else:
        cfg = g.gen_cfg(rng, ntraj=rng.choice([1, 1, 2, 3]), small=True)
        ops = g.gen_history(rng, cfg, n_extra=rng.randint(0, 4), evals=False)
        if cfg["model"] in ("Pos_gle_overdamped", "Pos_gle_no_vel_basis") and cfg["dim"] == 1 and rng.random() < 0.3:
            ops += [["to_gfpe", {}], ["mean_force", {}], ["corrs", g.gen_corrs(rng)]]
            ops.append(g.gen_kernel(rng, ops[-1][1]))
    if integ:
        for _ in range(rng.randint(0, 2)):
            c = next(o for w, o in ops if w == "corrs")
            ops.append(rng.choice([g.gen_kernel(rng, c), ["eff_mass", {}], ["corrs", c], ["gram_kernel", {}]]))
    saves = []
    n = len(ops)
    for _ in range(rng.choice([1, 1, 2, 3])):
        after = rng.choice([n, n, n, rng.randint(0, n)])
        q = []
        for _ in range(rng.randint(3, 9)):
            w = rng.choice(["force_eval", "force_eval", "kernel_eval", "kernel_eval", "pmf_eval", "noise", "noise", "corrs_noise", "corrs_noise", "basis_values", "evolve", "inv_mass", "friction_eval", "int", "int", "laplace", "const_part"])
            if w == "int":
                if not integ:
                    continue
                q.append(["int", {"n": rng.randint(3, 10), "n0": rng.randint(1, 5), "i": rng.randrange(8), "trunc": rng.choice([None, None, 4, 7]), "seed": rng.randrange(1 << 30), "noise": rng.random() < 0.5}])
            elif w == "inv_mass":
                q.append([w, {}])
            elif w == "evolve":
                q.append(["evolve", {"n": rng.randint(5, 12), "method": rng.choice(["rect", "trapz", "trapz_stab"]), "trunc": rng.choice([None, None, 5])}])
            elif w == "pmf_eval" and not g.has_pmf(cfg):
                continue
            elif w == "friction_eval" and cfg["model"] != "Pos_gle_with_friction":
                continue
            elif w == "kernel_eval" and cfg["model"] == "Pos_gle_hybrid" and cfg["dim"] > 1 or w == "const_part" and cfg["model"] != "Pos_gle_hybrid":
                continue
            else:
                q.append(g.gen_eval(rng, cfg, what=w))
        if not q:
            q.append(g.gen_eval(rng, cfg, what="force_eval"))
        saves.append({"after": after, "write": rng.randint(after, n), "q": q, "format": rng.choice(["netcdf", "netcdf", "netcdf", "pickle"]), "read": rng.choice(["load", "open", "scipylike"]), "basis": rng.choice(["refit", "refit", "pickle", "by-load"]), "twice": rng.random() < 0.3})
    bad = {}
    for k in range(n):
        if rng.random() < 0.12:
            bad[str(k)] = [rng.choice(["interrupt", "exception"]), rng.randint(1, 80)]
    return {"cfg": cfg, "ops": ops, "saves": saves, "bad": bad}


def shrink(p):
    for k in p["bad"]:
        yield dict(p, bad={a: b for a, b in p["bad"].items() if a != k})
    for i in range(len(p["saves"])):
        s = p["saves"][i]
        if len(p["saves"]) > 1:
            yield dict(p, saves=p["saves"][:i] + p["saves"][i + 1 :])
        for j in range(len(s["q"])):
            if len(s["q"]) > 1:
                yield dict(p, saves=p["saves"][:i] + [dict(s, q=s["q"][:j] + s["q"][j + 1 :])] + p["saves"][i + 1 :])
    last = max(max(s["after"], s["write"]) for s in p["saves"])
    if len(p["ops"]) > last:
        yield dict(p, ops=p["ops"][:last], bad={})


class Holder:
    pass


def answers(w, cfg, model, ds, q, probe=False):
    """what a user reads from a model: list of {name: array} or ('err', type name)"""
    import numpy as np

    from .. import ref

    S = Holder()
    S.model, S.ds, S.est, S.cfg = model, ds, None, cfg
    out = []
    for op in q:
        name, o = op
        try:
            if name == "int":
                vb = w.vb
                rs = np.random.RandomState(o["seed"])
                cls = vb.Integrator_gle_const_kernel if cfg["model"] == "Pos_gle_const_kernel" else vb.Integrator_gle
                I = cls(model, trunc_kernel=o["trunc"], rng=rs.normal, verbose=False)
                t = ds[o["i"] % len(ds)].isel(time=slice(0, o["n0"])).assign_coords(time=np.arange(o["n0"]) * cfg["dt"])
                r = I.run(o["n"] + o["n0"], x0=t, set_noise_to_zero=not o["noise"])
                v = {k: w.npy(r[k]) for k in ("x", "v", "time")}
                if o["noise"] and probe:  # square roots of a kernel whose spectrum is not positive: rounding decides the branch
                    K = np.einsum("kl,ikd->ild", w.npy(model.inv_mass_coeff), w.npy(model.kernel)[: o["trunc"] or model.trunc_ind])
                    if ref.colored_noise(K, cfg["dt"], np.zeros((K.shape[2], 3))) is None:
                        v = {"time": v["time"]}
            elif name == "inv_mass":
                v = {"inv_mass": w.named(model.inv_mass_coeff, "dim_basis") if model.inv_mass_coeff is not None else None, "eff_mass": w.npy(model.eff_mass), "gram_force": w.npy(model.gram_force), "gram_kernel": w.npy(model.gram_kernel)}
            elif name == "evolve":
                n = model.kernel.shape[-1]
                v = {"evolve%d" % i: w.npy(x) for i, x in enumerate(model.evolve_volterra(np.eye(n), o["n"], method=o["method"], trunc_ind=o["trunc"]))}
            else:
                r = w.act(S, op)
                if name == "noise":
                    v = {"t%d" % i: w.npy(x) for i, x in enumerate(r)}
                elif name in ("kernel_eval", "const_part"):
                    v = {name: w.named(r, "time_kernel", "time")}
                elif isinstance(r, tuple):
                    v = {"r%d" % i: w.named(x, "time") for i, x in enumerate(r)}
                else:
                    v = {name: w.named(r, "time")}
        except Exception as e:
            v = ("err", type(e).__name__, str(e)[:120])
        out.append(v)
    m = model
    out.append({"dt": float(m.dt), "trunc_ind": int(m.trunc_ind), "L_obs": str(m.L_obs), "dim_x": int(m.dim_x), "dim_obs": int(m.dim_obs), "method": None if m.method is None else str(m.method), "rank": bool(m.rank_projection), "n": [int(m.N_basis_elt), int(m.N_basis_elt_force), int(m.N_basis_elt_kernel)]})
    return out


def frozen(ds):
    """deep copy of everything in a dataset"""
    import copy

    import numpy as np

    return {"attrs": copy.deepcopy(dict(ds.attrs)), "vars": {str(k): (tuple(v.dims), np.array(v.values, copy=True), copy.deepcopy(dict(v.attrs))) for k, v in ds.variables.items()}}


def same_frozen(a, b):
    import numpy as np

    if set(a["vars"]) != set(b["vars"]):
        return "variables %s instead of %s" % (sorted(b["vars"]), sorted(a["vars"]))
    if set(a["attrs"]) != set(b["attrs"]) or any(a["attrs"][k] != b["attrs"][k] for k in a["attrs"]):
        return "attributes %s instead of %s" % (b["attrs"], a["attrs"])
    for k, (d, v, at) in a["vars"].items():
        d2, v2, at2 = b["vars"][k]
        if d != d2 or v.shape != v2.shape or not (np.array_equal(v, v2) or (v.dtype.kind == "f" and np.array_equal(v, v2, equal_nan=True))):
            return "variable %s changed" % k
        if at != at2:
            return "attributes of %s changed" % k
    return None


def newprocess(plan, idx, rfd, wfd):
    """the new process: waits for the file, loads the model, answers"""
    import os
    import pickle

    res = {}
    try:
        if os.read(rfd, 1) != b"g":
            os._exit(0)
        from scipy.stats import describe

        from .. import work as w

        s = plan["saves"][idx]
        cfg = plan["cfg"]
        pay = pickle.load(open("pay%d" % idx, "rb"))
        desc = None
        if s["basis"] == "pickle":
            import cloudpickle

            basis = cloudpickle.loads(pay["basis"])
        else:
            from VolterraBasis.basis import sum_describe

            basis = w.make_basis(cfg["basis"])
            desc = None
            for t in w.arrays(cfg):
                x = describe(t["x"])
                desc = x if desc is None else sum_describe(desc, x)
            if s["basis"] == "refit" and hasattr(basis, "fit") and "fit_on" not in cfg["basis"]:
                basis = basis.fit(desc)
        if s["format"] == "pickle":
            co = pickle.load(open("save%d.pkl" % idx, "rb"))
        elif s["read"] == "open":
            co = w.xr.open_dataset("save%d.nc" % idx)
        elif s["read"] == "load":
            co = w.xr.load_dataset("save%d.nc" % idx)
        else:
            with w.xr.open_dataset("save%d.nc" % idx) as f:
                co = f.load().copy(deep=True)
        before = frozen(co)
        cls = getattr(w.vb, cfg["model"])
        kw = {"describe_data": desc} if s["basis"] == "by-load" else {}
        m = cls.load_model(basis, co, **kw)
        res["ans"] = answers(w, cfg, m, pay["ds"], s["q"])
        if s["twice"]:
            m2 = cls.load_model(basis, co, **kw)
            res["ans2"] = answers(w, cfg, m2, pay["ds"], s["q"])
        res["changed"] = same_frozen(before, frozen(co))
    except BaseException as e:
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        res["exc"] = "%s: %s @ %s" % (type(e).__name__, str(e)[:200], "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]))
    with os.fdopen(wfd, "wb") as f:
        pickle.dump(res, f)
    os._exit(0)


def run(plan, sim, d):
    import os
    import pickle

    import cloudpickle
    import numpy as np

    from .. import core, oracle, work as w
    from ..core import Violation

    cfg = plan["cfg"]
    tail = "(%s)" % w.describe_cfg(cfg)
    procs = []
    for i in range(len(plan["saves"])):  # the processes that will load exist before anything was computed
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            for p in procs:
                os.close(p[1])
                os.close(p[2])
            newprocess(plan, i, r1, w2)
        os.close(r1)
        os.close(w2)
        procs.append([pid, w1, r2])
    S = w.Session(cfg)
    live = []
    n = fails = loads = 0
    done = []

    def save(i):
        s = plan["saves"][i]
        before = answers(w, cfg, S.model, S.ds, s["q"], probe=True)
        co = S.model.save_model()
        after = answers(w, cfg, S.model, S.ds, s["q"])
        where = "save_model after %s %s" % (", ".join(done[-5:]) or "creation", tail)
        compare(before, after, s["q"], "the model itself answers differently after " + where, "save-alters", 0.0)
        co2 = S.model.save_model()
        if same_frozen(frozen(co), frozen(co2)):
            raise Violation("save-alters", "%s: a second save gives %s" % (where, same_frozen(frozen(co), frozen(co2))))
        sim.ev("saved", i, len(done))
        pay = {"ds": [x.load().copy(deep=True) for x in S.ds], "basis": cloudpickle.dumps(S.model.basis) if s["basis"] == "pickle" else None}
        live.append({"i": i, "co": co, "frozen": frozen(co), "ans": before, "pay": pay, "where": where})

    def compare(a, b, q, where, kind, rt):
        c = 0
        for j, (x, y) in enumerate(zip(a, b)):
            name = w.op_name(q[j]) if j < len(q) else "attributes"
            if isinstance(x, tuple) or isinstance(y, tuple):
                if isinstance(x, tuple) != isinstance(y, tuple):
                    raise Violation(kind, "%s: %s gives %s instead of %s" % (where, name, y if isinstance(y, tuple) else "an answer", x if isinstance(x, tuple) else "an answer"))
                continue
            if not set(x) <= set(y):
                raise Violation(kind, "%s: %s gives %s instead of %s" % (where, name, sorted(y), sorted(x)))
            for k in x:
                c += bool(w.same(k, (y[k],), (x[k], rt), "%s: %s" % (where, name), kind))
        return c

    def write(L):
        nonlocal n, loads
        s = plan["saves"][L["i"]]
        e = same_frozen(L["frozen"], frozen(L["co"]))
        if e:
            raise Violation("later-steps-alter-save", "%s then %s: %s" % (L["where"], ", ".join(done[-5:]), e))
        if s["format"] == "pickle":
            pickle.dump(L["co"], open("save%d.pkl" % L["i"], "wb"))
        else:
            L["co"].to_netcdf("save%d.nc" % L["i"])
        pickle.dump(L["pay"], open("pay%d" % L["i"], "wb"))
        e = same_frozen(L["frozen"], frozen(L["co"]))
        if e:
            raise Violation("writing-alters-save", "%s: %s" % (L["where"], e))
        sim.fault("process-restart")
        pid, wfd, rfd = procs[L["i"]]
        os.write(wfd, b"g")
        os.close(wfd)
        with os.fdopen(rfd, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        procs[L["i"]] = None
        where = "loaded from %s in a new process (basis %s), %s" % (s["format"], s["basis"], L["where"])
        if not data:
            raise Violation("load-dies", "%s: the new process died" % where)
        res = pickle.loads(data)
        if "exc" in res:
            raise Violation("load-raises", "%s: %s" % (where, res["exc"]))
        n += compare(L["ans"], res["ans"], s["q"], where, "loaded-differs", 1e-10)
        if "ans2" in res:
            n += compare(L["ans"], res["ans2"], s["q"], "second model " + where, "loaded-differs", 1e-10)
        if res["changed"]:
            raise Violation("load-alters-save", "%s: %s" % (where, res["changed"]))
        loads += 1
        sim.ev("loaded", L["i"])

    stable = True
    try:
        for k in range(len(plan["ops"]) + 1):
            for i, s in enumerate(plan["saves"]):
                if s["after"] == k:
                    save(i)
            for L in list(live):
                if plan["saves"][L["i"]]["write"] <= k:
                    write(L)
                    live.remove(L)
            if k == len(plan["ops"]):
                break
            op = plan["ops"][k]
            b = plan["bad"].get(str(k))
            if b and op[0] != "to_gfpe":
                fails += 1
                try:
                    with core.inject(line=b[1], exc=KeyboardInterrupt if b[0] == "interrupt" else core.SimFault):
                        w.act(S, op)
                except Violation:
                    raise
                except (Exception, KeyboardInterrupt) as e:
                    sim.ev("failed", op[0], type(e).__name__)
            st, v = w.run_op(S, op)
            sim.ev("op", op[0], st)
            if st == "err":
                if oracle.Oracle(plan["cfg"]).singular(op, S, v):
                    raise w.Unstable()
                raise core.unexpected("%s %s" % (w.op_name(op), tail), v)
            done.append(op[0])
    except w.Unstable:
        stable = False
    finally:
        for p in procs:
            if p:
                os.close(p[1])
                os.close(p[2])
                os.waitpid(p[0], 0)
    return {"counts": {"ops": len(done), "arrays_compared": n, "loads": loads, "failures_between": fails, "unstable": int(not stable)}, "nontrivial": n > 0 and loads > 0}
