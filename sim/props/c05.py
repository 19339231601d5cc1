"""C05: an interrupted step can simply be run again."""
RUNS = {"quick": 1700, "thorough": 60000}
WALL = {"quick": 45, "thorough": 1500}
RULE = "one run is a history of creation (basis fit, estimator and model), estimation, evaluation, integrator creation and run, saving and loading steps; each of 1-6 chosen steps is first interrupted (KeyboardInterrupt) one to three times at a line of the library (half uniform over the execution, half over the lines of the source) and then run again with the same objects, some of them before the basis and the model have ever been evaluated; a twin runs the same history without interruption and every result is compared; nontrivial when at least one interrupt fired and an array was compared; distinct by hash of the event log"
REAL = ["VolterraBasis estimators, models, bases, integrators, correlation, Fortran kernels"]
STUB = ["signal delivery: the interrupt is raised at a source line of the library (sys.monitoring)"]
ASSUME = ["interrupts arrive between library source lines (CPython delivers signals between bytecodes)", "equality up to rounding as in C01"]


def gen(rng, tier, i):
    from .. import gens as g

    integ = rng.random() < 0.25
    if integ:
        cfg = g.gen_int_cfg(rng)
        steps = [["new", {}]] + g.gen_int_history(rng, cfg) + [["integrator", {"trunc": rng.choice([None, None, 4, 7])}]]
        for _ in range(rng.randint(1, 2)):
            steps.append(["run", {"n": rng.randint(3, 14), "n0": rng.randint(1, 6), "i": rng.randrange(8), "seed": rng.randrange(1 << 30), "noise": rng.random() < 0.3}])
        if rng.random() < 0.3:
            steps.append(["initial", {"n_mem": rng.randint(0, 5), "seed": rng.randrange(1 << 30)}])
    else:
        cfg = g.gen_cfg(rng, ntraj=rng.choice([1, 2, 2, 3]), small=True)
        steps = [["new", {}]] + g.gen_history(rng, cfg, n_extra=rng.randint(0, 4))
        if cfg["model"] in ("Pos_gle_overdamped", "Pos_gle_no_vel_basis") and cfg["dim"] == 1 and rng.random() < 0.2:
            steps += [["to_gfpe", {}], ["mean_force", {}]]
        if rng.random() < 0.3:
            steps.append(["load", {}])
    if rng.random() < 0.5:
        steps.insert(0, ["fit", {}])
    faults = []
    for k in sorted(rng.sample(range(len(steps)), min(len(steps), rng.choice([1, 2, 2, 3, 4, 6])))):
        faults.append({"at": k, "fracs": [rng.random() for _ in range(rng.choice([1, 1, 1, 2, 3]))]})
    if rng.random() < 0.5 and not any(f["at"] == 0 for f in faults):
        faults.insert(0, {"at": 0, "fracs": [rng.random()]})
    first = next((k for k, s in enumerate(steps) if s[0] not in ("fit", "new")), None)
    if rng.random() < 0.5 and first is not None and not any(f["at"] == first for f in faults):
        faults = sorted(faults + [{"at": first, "fracs": [rng.random() for _ in range(rng.choice([1, 2, 3]))]}], key=lambda f: f["at"])
    return {"cfg": cfg, "steps": steps, "peek": rng.random() < 0.4, "faults": faults, "n_jobs": rng.choice([1, 1, 1, 2]), "saveall": rng.random() < 0.2}


def shrink(p):
    for i in range(len(p["faults"])):
        f = p["faults"][i]
        for j in range(len(f["fracs"])):
            if len(f["fracs"]) > 1:
                yield dict(p, faults=p["faults"][:i] + [dict(f, fracs=f["fracs"][:j] + f["fracs"][j + 1 :])] + p["faults"][i + 1 :])
    for i in reversed(range(1, len(p["steps"]))):
        if not any(f["at"] == i for f in p["faults"]):
            yield dict(p, steps=p["steps"][:i] + p["steps"][i + 1 :], faults=[dict(f, at=f["at"] - (f["at"] > i)) for f in p["faults"]])
    if p["n_jobs"] > 1:
        yield dict(p, n_jobs=1)


class Side:
    """one user: the objects stay the same over attempts"""

    def __init__(self, plan, prefix):
        from .. import work as w

        self.w, self.plan, self.cfg = w, plan, plan["cfg"]
        self.arrs = w.arrays(self.cfg)
        self.ds = w.datasets(self.cfg, self.arrs)
        self.arg = w.container(self.cfg, self.ds)
        self.basis = w.make_basis(self.cfg["basis"])
        self.prefix = prefix
        self.S = None
        self.integ = None
        import numpy as np
        from scipy.stats import describe

        from VolterraBasis.basis import sum_describe

        des = [describe(t["x"]) for t in self.arrs]
        self.desc = des[0]
        for x in des[1:]:
            self.desc = sum_describe(self.desc, x)
        self.np = np

    def act(self, step):
        """library calls only"""
        w, np = self.w, self.np
        vb = w.vb
        name, o = step
        cfg = self.cfg
        if name == "fit":
            return self.basis.fit(self.desc) if hasattr(self.basis, "fit") and "fit_on" not in cfg["basis"] else None
        if name == "new":
            self.S = w.Session(cfg, ds=self.ds, basis=self.basis, n_jobs=self.plan["n_jobs"], saveall=self.plan["saveall"], prefix=self.prefix, arg=self.arg)
            return None
        if name == "integrator":
            self.rs = np.random.RandomState(0)
            cls = vb.Integrator_gle_const_kernel if cfg["model"] == "Pos_gle_const_kernel" else vb.Integrator_gle
            self.integ = cls(self.S.model, trunc_kernel=o["trunc"], rng=self.rs.normal, verbose=False)
            return None
        if name == "run":
            self.rs.seed(o["seed"])
            t = self.ds[o["i"] % len(self.ds)].isel(time=slice(0, o["n0"])).assign_coords(time=np.arange(o["n0"]) * cfg["dt"])
            return self.integ.run(o["n"] + o["n0"], x0=t, set_noise_to_zero=not o["noise"])
        if name == "initial":
            np.random.seed(o["seed"])
            return self.integ.initial_conditions(self.ds, n_mem=o["n_mem"])
        if name == "load":
            return type(self.S.model).load_model(self.basis, self.S.model.save_model())
        return w.act(self.S, step)

    def read(self, step, ret):
        w = self.w
        name, o = step
        if name == "fit":
            return {}
        if name == "new":
            m = self.S.model
            x = {"x": self.arrs[0]["x"]}
            out = {"n": (int(m.N_basis_elt), 0), "trunc": (int(m.trunc_ind), 0)}
            if not self.plan.get("peek", True):  # looking at the basis would complete what it computes at its first use
                return out
            return {**out, "B": (w.npy(self.S.basis.basis(x["x"].copy())), 1e-10), "D": (w.npy(self.S.basis.deriv(x["x"].copy())), 1e-10)}
        if name == "integrator":
            return {"kernel": (self.integ.kernel, getattr(self.S, "kr", None)), "trunc": (int(self.integ.trunc_kernel), 0)}
        if name in ("run", "initial"):
            kr = getattr(self.S, "kr", None)
            return {k: (w.npy(ret[k]), 1e-12 if k == "time" or name == "initial" else (None if kr is None else 1e3 * kr)) for k in ("x", "v", "time")}
        if name == "load":
            fr = w.force_rtol(self.S.model)
            return {k: (w.npy(getattr(ret, k)), getattr(self.S, "kr", None) if k == "kernel" else fr) for k in ("force_coeff", "kernel")}
        return w.read(self.S, step, ret)


def run(plan, sim, d):
    import numpy as np

    from .. import core, oracle, work as w
    from ..core import Violation

    cfg = plan["cfg"]
    A, B = Side(plan, "a_"), Side(plan, "b_")
    compared = hits = 0
    tail = "(%s)" % w.describe_cfg(cfg)
    stable = True
    p = core.Pool(sim)
    steps_done = 0
    with core.pool(p):
        try:
            for k, step in enumerate(plan["steps"]):
                fl = [f for f in plan["faults"] if f["at"] == k]
                try:
                    if fl:
                        with core.inject() as cnt:
                            ra = A.act(step)
                        nl = [cnt.pick_line(fr) for f in fl for fr in f["fracs"]]
                    else:
                        ra = A.act(step)
                    sa = "ok"
                except Violation:
                    raise
                except Exception as e:
                    sa, ra, nl = "err", e, []
                for f in fl:
                    for fr in f["fracs"]:
                        if not nl:
                            continue
                        at = nl.pop(0)
                        inj = core.inject(line=at)
                        try:
                            with inj:
                                B.act(step)
                            sim.ev("finished before the interrupt", step[0])
                        except KeyboardInterrupt:
                            hits += 1
                            sim.ev("interrupted", step[0], inj.where)
                        except (Violation, core.NoProgress):
                            raise
                        except Exception as e:
                            if oracle.Oracle(cfg).singular(step, B.S, e):
                                raise w.Unstable()
                            raise Violation("interrupt-lost", "%s %s: interrupted at %s it raised %s: %s" % (w.op_name(step), tail, inj.where, type(e).__name__, str(e)[:150]))
                        if inj.where is None and inj.lines >= at:
                            raise Violation("interrupt-lost", "%s %s" % (w.op_name(step), tail))
                if step[0] == "fit" and fl and hits:
                    continue  # the user goes on: creating the estimator has to fit the basis if that is needed
                try:
                    rb = B.act(step)
                    sb = "ok"
                except (Violation, core.NoProgress):
                    raise
                except Exception as e:
                    sb, rb = "err", e
                va = A.read(step, ra) if sa == "ok" else ra
                vb_ = B.read(step, rb) if sb == "ok" else rb
                compared += w.pair(sa, va, sb, vb_, "%s run again after interruptions %s" % (w.op_name(step), tail), "interrupted")
                steps_done += 1
            if A.S is not None and B.S is not None:
                compared += w.same_values(w.snapshot(B.S), w.snapshot(A.S), "state after the history with interruptions " + tail, "interrupted-differs")
        except w.Unstable:
            stable = False
    return {"counts": {"steps": steps_done, "arrays_compared": compared, "interrupts": hits, "unstable": int(not stable)}, "nontrivial": compared > 0 and hits > 0}
