"""C04: a failing step raises, keeps earlier results and can be retried."""
RUNS = {"quick": 1300, "thorough": 60000}
WALL = {"quick": 45, "thorough": 1500}
RULE = "one run is a history of 3-9 steps in which 1-4 steps are first made to fail: an exception in one trajectory's task before, during or after it, a worker that dies, the k-th call into numpy/scipy/xarray/Fortran failing with MemoryError or another error, the k-th evaluation of the user's basis raising, the k-th task of a lazy graph raising, exactly singular matrices, a user operator that raises; fault positions are drawn half uniformly over the execution and half over the places of the source; some failed steps are followed by a step of the same kind with other options before being repeated; a twin estimator runs the same history without failures; nontrivial when at least one fault fired and an array was compared; distinct by hash of the event log"
REAL = ["VolterraBasis estimators, models, bases, correlation, Fortran kernels", "joblib.Parallel"]
STUB = ["joblib workers and clock (simulated pool)", "the user's basis is wrapped to fail on demand", "dask scheduler (simulated) in the lazy runs"]
ASSUME = ["a failing allocation shows as MemoryError at a call the library makes into another package", "equality up to rounding as in C01"]

EXC = ["MemoryError", "ValueError", "LinAlgError", "FloatingPointError", "KeyError", "AttributeError", "TypeError", "OSError"]


def gen(rng, tier, i):
    from .. import gens as g

    r = rng.random()
    if r < 0.1:  # singular matrices
        sub = rng.choice(["rank", "frozen", "vanish", "vanish"])
        if sub == "vanish":
            cfg = g.gen_cfg(rng, ntraj=rng.choice([1, 2, 3]), small=True, short=False)
            return {"scenario": sub, "cfg": cfg, "ops": g.gen_history(rng, cfg, n_extra=rng.randint(0, 4)), "col": rng.random(), "at": rng.random(), "n_jobs": rng.choice([1, 1, 2]), "lazy": rng.random() < 0.2}
        cfg = g.gen_cfg(rng, models=["Pos_gle"] if sub == "rank" else None, dim=1, ntraj=rng.choice([1, 2, 3]), small=True, short=False)
        cfg.pop("L_obs", None)
        cfg["basis"] = rng.choice([g.POLYF, g.FOUF]) if sub == "rank" else g.LIN
        c = {"rank_tol": 1e-9}
        return {"scenario": sub, "cfg": cfg, "k1": g.gen_kernel(rng, c)[1], "k2": [g.gen_kernel(rng, c)[1] for _ in range(rng.randint(1, 4))], "n_jobs": rng.choice([1, 1, 2]), "method": rng.choice(["fft", "direct"])}
    kind = "lazy" if r < 0.2 else "mem"
    par = kind == "mem" and rng.random() < 0.55
    cfg = g.gen_cfg(rng, ntraj=rng.choice([2, 3, 3, 4, 5, 7]) if par else rng.choice([1, 2, 2, 3]), small=True)
    ops = g.gen_history(rng, cfg, n_extra=rng.randint(0, 4))
    faults = []
    for k in sorted(rng.sample(range(len(ops)), min(len(ops), rng.choice([1, 1, 2, 2, 3, 4])))):
        opts = ["basis", "call", "call", "call"]
        if par:
            opts = ["basis", "call", "task", "task", "task", "task"]
        if kind == "lazy":
            opts = ["lazy", "lazy", "lazy", "call"]
        f = {"at": k, "what": rng.choice(opts), "frac": rng.random(), "exc": rng.choice(EXC), "times": rng.choice([1, 1, 1, 2])}
        if rng.random() < 0.4:
            f["then"] = then_op(rng, cfg, ops, k)
        if f["what"] == "task":
            f["task"] = rng.randrange(len(cfg["lens"]))
            f["kind"] = rng.choice(["before", "mid", "mid", "after", "death", "death"])
            f["line"] = rng.randint(1, 40)
        if f["what"] == "call" and rng.random() < 0.6:
            f["exc"] = "MemoryError"
        faults.append(f)
    return {"scenario": kind, "cfg": cfg, "ops": ops, "faults": faults, "n_jobs": rng.choice([2, 3, 4, 8]) if par else 1, "mode": rng.choice(["process", "process", "thread"]), "cut": rng.randint(5, 30)}


def then_op(rng, cfg, ops, k):
    """what the user does after the failure, before the step is tried again: a step of the same kind with other options"""
    from .. import gens as g

    w, o = ops[k]
    c = next((q[1] for q in reversed(ops[:k]) if q[0] == "corrs"), {})
    if w == "corrs":
        n = g.gen_corrs(rng, o.get("second_order_method", True))
        n.pop("rank_tol", None)
        if "rank_tol" in o:
            n["rank_tol"] = o["rank_tol"]
        return [w, n]
    if w == "kernel":
        return g.gen_kernel(rng, c)
    if w in g.EVALS:
        return g.gen_eval(rng, cfg, what=w)
    if w in ("basis_mean", "check_inv"):
        return g.gen_simple(rng, cfg, w)
    return [w, o]


def shrink(p):
    for i, f in enumerate(p.get("faults", [])):
        if f.get("then"):
            yield dict(p, faults=p["faults"][:i] + [{a: b for a, b in f.items() if a != "then"}] + p["faults"][i + 1 :])
    if p.get("n_jobs", 1) > 1 and not any(f["what"] == "task" for f in p.get("faults", [])):
        yield dict(p, n_jobs=1)


def kept(S):
    """the results a failing step must not touch, as plain data"""
    from .. import work as w
    import numpy as np

    m = S.model
    out = {"force": w.npy(m.force_coeff), "kernel": w.npy(m.kernel), "method": m.method, "eff_mass": w.npy(m.eff_mass), "inv_mass": w.npy(m.inv_mass_coeff)}
    for k, v in (w.corr_state(S.est) or {}).items():
        out[k] = v
    return {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in out.items()}


def same_kept(a, b, where):
    import numpy as np
    from ..core import Violation

    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        ok = (x is None) == (y is None)
        if ok and x is not None:
            ok = x == y if isinstance(x, str) or isinstance(y, str) else (x.shape == y.shape and np.array_equal(x, y, equal_nan=True))
        if not ok:
            raise Violation("failure-changes-results", "%s: the failed step changed %s" % (where, k))


def exc_of(name):
    import numpy as np

    return np.linalg.LinAlgError if name == "LinAlgError" else {"MemoryError": MemoryError, "ValueError": ValueError, "FloatingPointError": FloatingPointError, "KeyError": KeyError, "AttributeError": AttributeError, "TypeError": TypeError, "OSError": OSError}[name]


def run(plan, sim, d):
    from .. import core, work as w

    if plan["scenario"] in ("rank", "frozen"):
        return singular(plan, sim)
    if plan["scenario"] == "vanish":
        return vanish(plan, sim)
    cfg = plan["cfg"]
    lazy = plan["scenario"] == "lazy"
    mk = lambda: [x.chunk({"time": plan["cut"]}) for x in w.datasets(cfg)] if lazy else w.datasets(cfg)
    basis = w.FaultyBasis(w.make_basis(cfg["basis"]))
    cbasis = w.FaultyBasis(w.make_basis(cfg["basis"]))
    A = w.Session(cfg, ds=mk(), basis=cbasis)
    B = w.Session(cfg, ds=mk(), basis=basis, n_jobs=plan["n_jobs"])
    tail = "(%s, n_jobs=%d%s)" % (w.describe_cfg(cfg), plan["n_jobs"], ", lazy" if lazy else "")
    compared = hit = 0
    stable = True
    try:
        for k, op in enumerate(plan["ops"]):
            dk = core.Dask(sim) if lazy else None
            cbasis._left = None
            n0 = cbasis._n = 0
            ret = None
            try:
                with core.inject(count_calls=True) as cnt:
                    if lazy:
                        with dk:
                            ret = w.act(A, op)
                    else:
                        ret = w.act(A, op)
                sa = "ok"
                with core.Dask(sim):
                    va = w.read(A, op, ret)
            except (core.Violation, core.NoProgress):
                raise
            except Exception as e:
                sa, va = "err", e
            nb = cbasis._n - n0
            for f in plan["faults"]:
                if f["at"] != k:
                    continue
                for _ in range(f["times"]):
                    r = attempt(plan, sim, B, basis, op, f, cnt, nb, dk.n if lazy else 0, tail)
                    hit += r[0]
                    if r[1] is not None:
                        compared += w.pair(sa, va, "ok", r[1], "%s, which returned although a part of it failed (%s) %s" % (w.op_name(op), f["what"], tail), "failure")
                if f.get("then"):
                    with core.pool(core.Pool(sim)), core.Dask(sim):
                        s1, v1 = w.run_op(A, f["then"])
                        s2, v2 = w.run_op(B, f["then"])
                    compared += w.pair(s1, v1, s2, v2, "%s after a failed %s %s" % (w.op_name(f["then"]), w.op_name(op), tail), "retry")
            if any(f["at"] == k and f.get("then") for f in plan["faults"]):
                with core.pool(core.Pool(sim)), core.Dask(sim):
                    sa, va = w.run_op(A, op)
            with core.pool(core.Pool(sim, mode=plan["mode"])), core.Dask(sim):
                sb, vb_ = w.run_op(B, op)
            sim.ev("op", op[0], sa, sb)
            compared += w.pair(sa, va, sb, vb_, "%s run again after a failure %s" % (w.op_name(op), tail), "retry")
    except w.Unstable:
        stable = False
    return {"counts": {"ops": len(plan["ops"]), "arrays_compared": compared, "failed_steps": hit, "unstable": int(not stable)}, "nontrivial": compared > 0 and hit > 0}


def attempt(plan, sim, B, basis, op, f, cnt, nb, nlazy, tail):
    """run the step with the fault; (1 when it raised, values when it returned)"""
    from .. import core, work as w
    from ..core import Violation

    what = f["what"]
    before = kept(B)
    exc = exc_of(f["exc"])
    pl = core.Pool(sim, mode=plan["mode"], batch=[1], faults=[f] if what == "task" else [])
    lz = core.Dask(sim, fail_at=1 + int(f["frac"] * nlazy) if what == "lazy" and nlazy else None, fail_exc=exc)
    if what == "basis":
        basis._exc = exc
        basis._left = 1 + int(f["frac"] * nb) if nb else None
    inj = core.inject(call=cnt.pick_call(f["frac"]) if what == "call" and cnt.calls else None, exc=exc, count_calls=what == "call")
    where = "%s with an injected %s failure %s" % (w.op_name(op), what, tail)
    val = None
    raised = 0
    with core.pool(pl), lz:
        try:
            if what == "call":
                with inj:
                    ret = w.act(B, op)
            else:
                ret = w.act(B, op)
        except (Violation, core.NoProgress):
            raise
        except Exception as e:
            raised = 1
            sim.ev("raised", op[0], type(e).__name__)
        except SystemExit:
            raise Violation("ends-process", where + ": SystemExit")
    basis._left = None
    if what == "call" and inj.where:
        sim.ev("call", inj.where)
        where += " at " + inj.where
    if not raised:  # it returned: what it returned must be right
        with core.pool(core.Pool(sim)), core.Dask(sim):
            val = w.read(B, op, ret)
    if raised:
        same_kept(before, kept(B), where)
    return raised, val


def singular(plan, sim):
    import numpy as np

    from .. import core, work as w
    from ..core import Violation

    cfg = plan["cfg"]
    arrs = w.arrays(cfg)
    if plan["scenario"] == "frozen":
        for t in arrs:
            t["x"] = np.full_like(t["x"], 0.7)
            t["v"], t["a"] = np.zeros_like(t["v"]), np.zeros_like(t["a"])
    S = w.Session(cfg, ds=w.datasets(cfg, arrs), n_jobs=plan["n_jobs"])
    raised = n = 0
    tail = "(%s, singular: %s)" % (w.describe_cfg(cfg), plan["scenario"])
    with core.pool(core.Pool(sim)):
        if plan["scenario"] == "rank":
            S.est.compute_mean_force()
            co = {"method": plan["method"], "rank_tol": 1e-9}
            S.est.compute_corrs(**co)
            k1 = w.do(S, ["kernel", plan["k1"]])
            S.est.compute_corrs(method=plan["method"], rank_tol=-1.0)
        else:
            try:
                S.est.compute_mean_force()
                S.est.compute_corrs(method=plan["method"])
            except Exception as e:  # a basis of rank zero is refused
                sim.fault("singular-matrix")
                sim.ev("raised", type(e).__name__)
                return {"counts": {"singular_steps": 1}, "nontrivial": True}
        for o in plan["k2"]:
            if plan["scenario"] == "frozen" and cfg["model"] not in ("Pos_gle", "Pos_gle_with_friction", "Pos_gle_const_kernel", "Pos_gle_hybrid"):
                continue
            before = kept(S)
            where = "kernel(%s) of an exactly singular problem %s" % (o, tail)
            sim.fault("singular-matrix")
            try:
                if "k0" in o:
                    o = dict(o, k0=w.make_k0(S.est, o["k0"]))
                S.est.compute_kernel(**o)
            except Exception as e:
                sim.ev("raised", type(e).__name__)
                raised += 1
                same_kept(before, kept(S), where)
                n += 1
            else:
                raise Violation("singular-accepted", where + " returned a kernel")
        if plan["scenario"] == "rank":
            S.est.compute_corrs(**co)
            st, v = w.run_op(S, ["kernel", plan["k1"]])
            n += w.pair("ok", k1, st, v, "kernel run again after a singular problem " + tail, "retry")
    return {"counts": {"singular_steps": raised, "arrays_compared": n}, "nontrivial": raised > 0}


def vanish(plan, sim):
    """a function of the user's basis vanishes on all the data during one step: the gram matrices are exactly singular"""
    import numpy as np

    from .. import core, work as w
    from ..core import Violation

    class Vanish(w.FaultyBasis):
        dead = None

        def _cut(self, a):
            if self.dead is not None:
                a = np.array(a)
                a[:, min(self.dead, a.shape[1] - 1)] = 0.0
            return a

        def basis(self, X):
            return self._cut(self._inner.basis(X))

        def deriv(self, X, deriv_order=1):
            return self._cut(self._inner.deriv(X, deriv_order))

    cfg = plan["cfg"]
    mk = lambda: [x.chunk({"time": 19}) for x in w.datasets(cfg)] if plan["lazy"] else w.datasets(cfg)
    basis = Vanish(w.make_basis(cfg["basis"]))
    A = w.Session(cfg, ds=mk())
    B = w.Session(cfg, ds=mk(), basis=basis, n_jobs=plan["n_jobs"])
    nb = basis.n_output_features_
    tail = "(%s, n_jobs=%d%s)" % (w.describe_cfg(cfg), plan["n_jobs"], ", lazy" if plan["lazy"] else "")
    raised = compared = 0
    target = [k for k, op in enumerate(plan["ops"]) if op[0] == "mean_force" or op[0] == "pos_mass" and cfg["model"] != "Pos_gle_const_kernel"]
    k0 = target[int(plan["at"] * len(target))] if target else None
    try:
        with core.pool(core.Pool(sim)), core.Dask(sim):
            for k, op in enumerate(plan["ops"]):
                if k == k0:
                    basis.dead = int(plan["col"] * nb)
                    sim.fault("singular-matrix")
                    before = kept(B)
                    where = "%s with a basis function that vanishes on the data %s" % (w.op_name(op), tail)
                    try:
                        w.act(B, op)
                    except Exception as e:
                        sim.ev("raised", type(e).__name__)
                        raised += 1
                    basis.dead = None
                    if not raised:
                        raise Violation("singular-accepted", where + " returned a result")
                    same_kept(before, kept(B), where)
                sa, va = w.run_op(A, op)
                sb, vb_ = w.run_op(B, op)
                compared += w.pair(sa, va, sb, vb_, "%s after a singular problem %s" % (w.op_name(op), tail), "retry")
    except w.Unstable:
        pass
    return {"counts": {"singular_steps": raised, "arrays_compared": compared}, "nontrivial": raised > 0 and compared > 0}
