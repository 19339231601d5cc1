"""C07: saved files hold exactly the results, under their prefix, and nothing else."""
RUNS = {"quick": 1500, "thorough": 50000}
WALL = {"quick": 45, "thorough": 1500}
RULE = "one run is 1-3 estimators with random prefixes (empty, name, sub-directory, absolute path, odd characters; sometimes shared), saving on or off, whose histories of 3-10 steps are interleaved by the seeded scheduler, with transparent disk faults (short and interrupted writes), failing and interrupted steps in between; after every step every file below the working directory is listed and read back and compared exactly with the results of the last successful computation under that name; nontrivial when at least one file was compared and there was an interleaving, fault or replacement; distinct by hash of the event log"
REAL = ["VolterraBasis estimators", "xarray, netCDF4 and HDF5 libraries on a real scratch directory"]
STUB = ["write/ftruncate/rename/unlink/open/close of the C library are interposed for the scratch directory (short writes, EINTR)", "joblib workers (simulated pool)"]
ASSUME = ["the working directory does not change between creating the estimator and saving"]

PREFIXES = ["", "", "abc_", "run1.", "sub/", "sub/x_", "deep/er/y", "ABS/abs_", "sp ace_", "é_", "corrs.nc", "kernel.nc."]


def gen(rng, tier, i):
    from .. import gens as g

    users = []
    for u in range(rng.choice([1, 1, 2, 2, 2, 3])):
        cfg = g.gen_cfg(rng, ntraj=rng.choice([1, 1, 2]), small=True, short=False)
        ops = []
        ops.append(["mean_force", {}])
        c = g.gen_corrs(rng)
        tol = c.get("rank_tol")
        ops.append(["corrs", c])
        if rng.random() < 0.85:
            ops.append(g.gen_kernel(rng, c))
            for _ in range(rng.choice([0, 0, 1, 2, 3, 4])):
                r = rng.random()
                if r < 0.25:  # the user moves or replaces the file and computes the same again
                    k = rng.choice([o for o in ops[1:] if o[0] in ("corrs", "kernel")][-2:])
                    if k[0] == "kernel" and ops[-1][0] == "corrs":
                        k = ops[-1]
                    ops += [["removed", {"junk": rng.random() < 0.4}], [k[0], dict(k[1])]]
                elif r < 0.5:
                    c = g.gen_corrs(rng)
                    c.pop("rank_tol", None)
                    if tol is not None:
                        c["rank_tol"] = tol
                    ops.append(["corrs", c])
                elif r < 0.85:
                    ops.append(g.gen_kernel(rng, c))
                else:
                    ops.append(g.gen_eval(rng, cfg, what=rng.choice(["save_model", "force_eval", "basis_values"])))
        faults = {}
        for k in range(len(ops)):
            r = rng.random()
            if r < 0.25:
                faults[str(k)] = ["disk", [{"at": rng.randint(0, 60), "kind": rng.choice(["short", "short", "eintr"])} for _ in range(rng.randint(1, 6))]]
            elif r < 0.35:
                faults[str(k)] = ["line", rng.random(), rng.choice(["exception", "interrupt"])]
        users.append({"cfg": cfg, "ops": ops, "faults": faults, "prefix": rng.choice(PREFIXES), "saveall": rng.random() < 0.85, "n_jobs": rng.choice([1, 1, 1, 2]), "lazy": rng.random() < 0.1, "default": rng.random() < 0.2})
    return {"users": users}


def shrink(p):
    if len(p["users"]) > 1:
        for i in range(len(p["users"])):
            yield {"users": p["users"][:i] + p["users"][i + 1 :], "sched": p.get("sched", 0)}
    for i, u in enumerate(p["users"]):
        def rep(v):
            return dict(p, users=p["users"][:i] + [v] + p["users"][i + 1 :])

        for k in list(u["faults"]):
            yield rep(dict(u, faults={a: b for a, b in u["faults"].items() if a != k}))
        for k in reversed(range(len(u["ops"]))):
            yield rep(dict(u, ops=u["ops"][:k] + u["ops"][k + 1 :], faults={str(int(a) - (int(a) > k)): b for a, b in u["faults"].items() if int(a) != k}))
        if u["n_jobs"] > 1:
            yield rep(dict(u, n_jobs=1))
        if u["lazy"]:
            yield rep(dict(u, lazy=False))


def run(plan, sim, d):
    import os

    import numpy as np

    from .. import core, disk, work as w
    from ..core import Violation

    base = os.path.join(os.path.realpath(d), "w")
    for s in ("", "sub", "deep/er", "absdir"):
        os.makedirs(os.path.join(base, s), exist_ok=True)
    os.chdir(base)
    users = []
    for u in plan["users"]:
        pre = u["prefix"].replace("ABS", os.path.join(base, "absdir"))
        cfg = u["cfg"]
        ds = w.datasets(cfg)
        if u["lazy"]:
            ds = [x.chunk({"time": 17}) for x in ds]
        users.append({"u": u, "pre": pre, "S": None, "k": 0, "ds": ds})
    expect = {}  # path -> (contents, lazy)
    debris = set()  # scratch files of steps that an asynchronous exception ended, under names no result can have
    compared = replaced = faults = 0
    errs = 0

    def verify(where):
        nonlocal compared
        have = disk.tree(base)
        for f in have:
            if f not in expect and f not in debris:
                raise Violation("unexpected-file", "%s: %s appeared" % (where, f))
        for f, (c, lazy, name) in expect.items():
            if f not in have:
                raise Violation("missing-file", "%s: %s is not there" % (where, f))
            try:
                x = disk.read_file(os.path.join(base, f))
            except Exception as e:
                raise Violation("unreadable-file", "%s: %s: %s" % (where, f, str(e)[:150]))
            dd = disk.diff(x, c, name, lazy)
            if dd:
                raise Violation("wrong-content", "%s: %s: %s" % (where, f, dd))
            compared += 1

    with core.pool(core.Pool(sim)), core.Dask(sim):
        while True:
            live = [x for x in users if x["k"] <= len(x["u"]["ops"])]
            if not live:
                break
            x = live[sim.choose(len(live), "user")]
            u, cfg = x["u"], x["u"]["cfg"]
            if x["S"] is None:
                kw = dict(saveall=u["saveall"], prefix=x["pre"])
                if u["saveall"] and u["default"]:  # saving and the empty prefix are the defaults
                    x["S"] = S = w.Session.__new__(w.Session)
                    S.cfg, S.ds, S.basis = cfg, x["ds"], w.make_basis(cfg["basis"])
                    S.arg = w.container(cfg, x["ds"])
                    kk = {"L_obs": cfg["L_obs"]} if cfg.get("L_obs") else {}
                    x["pre"] = ""
                    S.est = w.vb.Estimator_gle(S.arg, getattr(w.vb, cfg["model"]), S.basis, trunc=(cfg["T"] - 0.5) * cfg["dt"], n_jobs=u["n_jobs"], **kk)
                else:
                    x["S"] = w.Session(cfg, ds=x["ds"], n_jobs=u["n_jobs"], **kw)
                x["k"] = 1
                sim.ev("new", users.index(x))
                verify("creating an estimator")
                continue
            op = u["ops"][x["k"] - 1]
            S = x["S"]
            where = "%s with prefix %r (%s)" % (w.op_name(op), x["pre"], w.describe_cfg(cfg))
            f = u["faults"].get(str(x["k"] - 1))
            if op[0] == "removed":
                for n in ("corrs", "kernel"):
                    p = os.path.relpath(os.path.join(base, x["pre"] + n + ".nc"), base)
                    if p in expect:
                        del expect[p]
                        os.remove(os.path.join(base, p))
                        if op[1]["junk"]:
                            debris.add(p)
                            with open(os.path.join(base, p), "w") as fh:
                                fh.write("something of the user\n")
                sim.ev("removed", users.index(x))
                x["k"] += 1
                continue
            path = os.path.relpath(os.path.join(base, x["pre"] + op[0] + ".nc"), base) if op[0] in ("corrs", "kernel") else None

            def account(st):
                nonlocal replaced
                if st == "ok" and path and u["saveall"]:
                    replaced += path in expect
                    debris.discard(path)
                    expect[path] = (disk.content(S, op[0]), u["lazy"], op[0])

            if f and f[0] == "line" and not u["lazy"]:
                snap = dict(expect)
                try:
                    with core.inject() as c:
                        w.act(S, op)
                    account("ok")
                    verify(where)
                    ok = True
                except (Violation, core.NoProgress):
                    raise
                except Exception:
                    ok = False
                if ok:
                    inj = core.inject(line=c.pick_line(f[1]), exc=KeyboardInterrupt if f[2] == "interrupt" else core.SimFault)
                    st = "ok"
                    try:
                        with inj:
                            w.act(S, op)
                    except (Violation, core.NoProgress):
                        raise
                    except (Exception, KeyboardInterrupt) as e:
                        st = "err"
                        faults += 1
                    # a step that did not finish may or may not have replaced the file: only complete versions are allowed (C08)
                    if path and u["saveall"]:
                        if st == "ok":
                            account("ok")
                        else:
                            try:
                                now = disk.read_file(os.path.join(base, path))
                            except Exception as e:
                                raise Violation("unreadable-file", "%s failing at %s: %s" % (where, inj.where, str(e)[:150]))
                            if disk.diff(now, expect[path][0], op[0]):
                                account("ok")
                            for g in disk.tree(base):
                                if g not in expect and os.path.dirname(g) == os.path.dirname(path) and not g.endswith(("corrs.nc", "kernel.nc")):
                                    debris.add(g)
                    verify(where + ", which failed at %s" % inj.where)
            if f and f[0] == "disk":
                core.DISK.arm(base, f[1])
            st = "ok"
            try:
                w.act(S, op)
            except (Violation, core.NoProgress):
                raise
            except Exception as e:
                st = "err"
                err = e
            if f and f[0] == "disk":
                for kind, n in core.DISK.fired().items():
                    faults += n
                    for _ in range(n):
                        sim.fault("disk-" + kind)
                core.DISK.disarm()
            sim.ev("op", users.index(x), op[0], st)
            if st == "err" and not isinstance(err, np.linalg.LinAlgError):
                if path and not isinstance(err, AttributeError) and "has not been computed" not in str(err) and "Need" not in str(err):
                    raise core.unexpected(where, err)
                errs += 1
            account(st)
            verify(where)
            x["k"] += 1
    return {"counts": {"steps": sum(len(x["u"]["ops"]) for x in users), "files_compared": compared, "replacements": replaced, "faults": faults, "raised": errs}, "nontrivial": compared > 0 and (faults > 0 or replaced > 0 or len(users) > 1)}
