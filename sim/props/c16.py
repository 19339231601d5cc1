"""C16: independent objects do not influence each other."""
RUNS = {"quick": 680, "thorough": 30000}
WALL = {"quick": 48, "thorough": 1500}
RULE = "one run has 2-3 users, each with its own basis, estimator, model, integrators and history over the whole public interface (equal configuration with other or almost equal data or a basis of the same kind with other parameters, equal configuration and trajectories, or unrelated), whose steps - creation, failing and interrupted steps, destruction included - are interleaved step by step in one thread (with a simulated pool) or at library source lines or single bytecode instructions in several; each user's results are compared with those of the same history alone in a process of its own; nontrivial when at least 2 users were interleaved and 4 results compared; distinct by hash of the event log"
REAL = ["the whole VolterraBasis package, Fortran kernels"]
STUB = ["thread scheduling (simulated)", "joblib workers (simulated pool)", "failures and interrupts at source lines (sys.monitoring)"]
ASSUME = ["tolerance 1e-9 relative, or that of the conditioning for estimates", "switches happen between source lines or bytecode instructions of the library", "drawing initial conditions reads the global generator as documented and is left out of the threaded runs"]

NEEDS = ("load", "coeffs_eval", "k0", "left_arr", "flux", "evolve", "integrate")


def sibling(rng, b):
    """a basis of the same kind and size with other parameters"""
    b = {q: x for q, x in b.items() if q not in ("fit_on", "fit_knots")}
    if b["type"] == "poly":
        b["polynom"] = rng.choice([q for q in ("Polynomial", "Chebyshev", "Legendre", "Hermite") if q != b.get("polynom", "Polynomial")])
    elif b["type"] == "fourier":
        b["freq"] = round(b["freq"] * rng.choice([0.8, 0.9, 1.15]), 3)
    elif b["type"] == "si":
        b["boundary"] = rng.choice([q for q in ("tricube", "triweight", "quartic") if q != b["boundary"]])
    elif b["type"] == "splfct":
        b["coeffs"] = [1.1 * c for c in b["coeffs"]]
    elif b["type"] in ("combine", "tensor"):
        b["sub"] = [sibling(rng, q) for q in b["sub"]]
    return b


def gen(rng, tier, i):
    from . import c06

    base = c06.gen(rng, tier, i)
    threads = rng.random() < 0.4
    n = rng.choice([2, 2, 2, 3])
    users = []
    share = rng.random() < 0.15
    for k in range(n):
        if k == 0:
            p = base
        elif rng.random() < 0.7:
            p = dict(base, cfg=dict(base["cfg"], data=base["cfg"]["data"] if share else rng.randrange(1 << 30)))
            if rng.random() < 0.3 and not share:
                p["cfg"]["dt"] = rng.choice([0.05, 0.1, 0.2])
            if not share and rng.random() < 0.35:  # almost the same data
                p["cfg"].update(data=base["cfg"]["data"], near=rng.choice([1e-9, 1e-6, 1e-3, 0.01]))
            if rng.random() < 0.35 and not share:
                p["cfg"]["basis"] = sibling(rng, p["cfg"]["basis"])
            if rng.random() < 0.25 and not share and not any(s[0] == "integrate" for s in base["steps"]):  # the same class with another observable
                if p["cfg"].get("L_obs"):
                    del p["cfg"]["L_obs"]
                else:
                    p["cfg"]["L_obs"] = "w"
            if rng.random() < 0.5:
                from .. import gens as g

                p["steps"] = [["new", {}]] + (g.gen_history(rng, p["cfg"], n_extra=rng.randint(0, 3), allow_zero=False) if not any(s[0] == "integrate" for s in base["steps"]) else g.gen_int_history(rng, p["cfg"])) + [[s[0], dict(s[1], seed=rng.randrange(1 << 30))] for s in base["steps"] if "seed" in s[1]]
        else:
            p = c06.gen(rng, tier, i)
        steps = [s for s in p["steps"] if not (threads and s[0] == "initial")][:12]
        lazy = p["lazy"] and not threads
        if p["cfg"]["model"] in ("Pos_gle_overdamped", "Pos_gle_no_vel_basis") and p["cfg"]["dim"] == 1 and not share and not lazy and rng.random() < 0.15:
            steps = steps + [["to_gfpe", {}], ["mean_force", {}]]
        users.append({"cfg": p["cfg"], "steps": steps, "n_jobs": 1 if threads else rng.choice([1, 1, 2]), "ro": False, "lazy": lazy, "saveall": False, "bad": {str(rng.randrange(len(steps))): [rng.choice(["interrupt", "exception"]), rng.randint(1, rng.choice([20, 200]))] for _ in range(rng.choice([0, 0, 1, 2]))}, "drop": rng.random() < 0.4})
    return {"users": users, "threads": threads, "share": share, "quanta": rng.choice([None, [1, 2, 3, 10], [1, 5, 20, 60]]), "burst": rng.choice([1, 1, 3])}


def shrink(p):
    from . import c06

    U = p["users"]
    for i in range(len(U)):
        if len(U) > 2:
            yield dict(p, users=U[:i] + U[i + 1 :])
    for i in range(len(U)):
        u = U[i]
        for k in list(u["bad"]):
            yield dict(p, users=U[:i] + [dict(u, bad={a: b for a, b in u["bad"].items() if a != k})] + U[i + 1 :])
        for q in c06.shrink(dict(u, bad={})):
            if not u["bad"]:
                yield dict(p, users=U[:i] + [q] + U[i + 1 :])


class Actor:
    """one user: executes its steps one after the other and keeps the values"""

    def __init__(self, plan, sim, d, donor=None):
        self.plan, self.sim, self.d, self.donor = plan, sim, d, donor
        self.U = None
        self.threads = False
        self.out = []
        self.pos = 0
        self.derived = None
        self.alone = False

    def done(self):
        return self.pos >= len(self.plan["steps"])

    def start(self):
        from . import c06

        U = c06.User(self.plan, self.sim, self.d)
        U.reg.add = lambda name, o: o
        if self.donor is not None and self.donor.U is not None:
            U.ds, U.arg = self.donor.U.ds, self.donor.U.arg
        self.U = U

    def step(self, fault=None):
        """one step; values are recorded; a fault makes a first attempt fail"""
        from .. import core

        if self.U is None:
            self.start()
        step = self.plan["steps"][self.pos]
        k = self.pos
        self.pos += 1
        if self.U.S is None and step[0] in NEEDS or self.U.S is None and step[0] != "new" and "seed" not in step[1]:
            self.out.append(("skip",))
            return
        set0 = core.process_settings() if not self.threads else None
        if fault is not None:
            inj = core.inject(line=fault[1], exc=KeyboardInterrupt if fault[0] == "interrupt" else core.SimFault)
            try:
                f = self.U.prepare(step)
                with inj:
                    f()
            except (core.Violation, core.NoProgress):
                raise
            except (Exception, KeyboardInterrupt) as e:
                self.sim.ev("failed", step[0], type(e).__name__, inj.where)
                self.settled(set0, "%s, which failed at %s," % (step[0], inj.where))
        self.out.append(self.attempt(step))
        self.settled(set0, step[0])
        if step[0] == "integrate" or (step[0] in ("kernel", "noise", "force_eval", "kernel_eval") and self.derived is None):
            self.derive(k)
        self.sim.ev("step", k, step[0], self.out[-1][0])

    def answers(self):
        """what the model of the user answers"""
        import numpy as np

        from .. import core

        m, d = self.U.S.model, {}
        x = np.asarray(self.U.arrs[0]["x"])[:5].copy()
        for name, f in (("force_eval", lambda: m.force_eval(x)), ("kernel_eval", lambda: m.kernel_eval(x)), ("inv_mass_eval", lambda: m.inv_mass_eval(x)), ("compute_noise", lambda: m.compute_noise(self.U.ds[0].isel(time=slice(0, 30)))[1])):
            try:
                d[name] = np.array(f())
            except (core.Violation, core.NoProgress):
                raise
            except Exception as e:
                d[name] = type(e).__name__
        return d

    def same(self, a, b, what):
        import numpy as np

        from .. import core

        for q in a:
            if isinstance(a[q], str) or isinstance(b[q], str):
                bad = type(a[q]) is not type(b[q])
            else:
                bad = a[q].shape != b[q].shape or not np.allclose(a[q], b[q], rtol=1e-9, atol=1e-12, equal_nan=True)
            if bad:
                raise core.Violation("influenced", "%s changed what %s gives" % (what, q))

    def derive(self, k):
        """an integrator made from the model of the user, with a shorter kernel: neither influences the other"""
        import numpy as np

        from .. import core, work as w

        m = self.U.S.model if self.U.S is not None else None
        if self.alone or m is None or m.kernel is None or m.force_coeff is None:
            return
        K = np.asarray(m.kernel)
        if K.ndim != 3 or len(K) < 6 or not np.all(np.isfinite(K)) or np.max(np.abs(K)) > 1e6:
            return
        before = self.answers()
        cls = w.vb.Integrator_gle_const_kernel if type(m).__name__ == "Pos_gle_const_kernel" else w.vb.Integrator_gle
        x0 = self.U.ds[0][["x", "v"]].isel(time=slice(0, 2)).assign_coords(time=np.arange(2) * m.dt).compute()
        try:
            I = cls(m, coeffs_noise_kernel=np.eye(K.shape[1]), trunc_kernel=len(K) - 1 - k % 3, rng=np.random.RandomState(k).normal, verbose=False)
            go = lambda: np.concatenate([I.run(8, x0=x0, set_noise_to_zero=True)[q].values for q in ("x", "v")])
            r = go()
        except (core.Violation, core.NoProgress):
            raise
        except Exception as e:
            I, r = None, type(e).__name__
        self.same(before, self.answers(), "an integrator made from the model, with a shorter kernel,")
        if I is not None:
            self.derived = (go, {"run of an integrator made before": r})
            self.sim.reached["integrator-made"] += 1

    def rerun(self):
        """at the end of the history the integrator made before still gives the same run"""
        if self.derived is not None and self.U is not None:
            self.same(self.derived[1], {"run of an integrator made before": self.derived[0]()}, "the later steps of the user or of the others")
            self.sim.reached["integrator-run-again"] += 1

    def settled(self, before, what):
        from .. import core

        for n in core.settings_changed(before) if before else ():
            raise core.Violation("influenced", "%s changed %s for all objects of the process" % (what, n))

    def attempt(self, step):
        import numpy as np

        from .. import core

        try:
            return self.value(step, self.U.prepare(step)())
        except (core.Violation, core.NoProgress):
            raise
        except np.linalg.LinAlgError:
            return ("singular", None)
        except Exception as e:
            return ("err", type(e).__name__ + ": " + str(e)[:100])

    def value(self, step, r):
        import numpy as np

        from .. import flat, work as w

        if step[0] == "new":
            m = self.U.S.model
            x = self.U.arrs[0]["x"]
            return ("ok", flat.flatten({"n": int(m.N_basis_elt), "trunc": int(m.trunc_ind), "w": np.asarray(self.U.S.est.weights), "B": np.asarray(self.U.basis.basis(x.copy())), "dim": int(m.dim_obs), "L": str(m.L_obs), "method": str(m.method)}), 1e-9)
        if "seed" not in step[1]:
            v = w.read(self.U.S, step, r)
            return ("read", {k: ((np.array(x[0]) if isinstance(x[0], np.ndarray) else x[0]),) + tuple(x[1:]) for k, x in v.items()})
        return ("ok", flat.flatten(r), 1e-9)


def alone(plan, d, sched):
    """the values of a user alone in a process of its own"""
    import os
    import pickle

    from .. import core

    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                sim = core.Sim(sched)
                core.CUR = sim
                A = Actor(plan, sim, d)
                A.alone = True
                with core.pool(core.Pool(sim)), core.Dask(sim):
                    while not A.done():
                        A.step()
                res = ("ok", A.out)
            except BaseException as e:
                import traceback

                res = ("exc", "".join(traceback.format_exception(e))[-1500:])
            with os.fdopen(wr, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("exc", "died")


def run(plan, sim, d):
    import gc

    from .. import core, work as w
    from ..core import Violation
    from .c12 import compare

    want = []
    for k, u in enumerate(plan["users"]):
        r = alone(u, d, 1000 + k)
        if r[0] != "ok":
            raise RuntimeError("alone: " + r[1])
        want.append(r[1])
    acts = []
    for k, u in enumerate(plan["users"]):
        share = plan["share"] and k > 0 and u["cfg"]["data"] == plan["users"][0]["cfg"]["data"] and u["lazy"] == plan["users"][0]["lazy"]
        acts.append(Actor(u, sim, d, acts[0] if share else None))
    switches = 0
    if plan["threads"]:
        sch = core.ThreadSched(sim, plan["quanta"])

        for a in acts:
            a.threads = True
        set0 = core.process_settings()

        def body(a):
            while not a.done():
                k = a.pos
                b = a.plan["bad"].get(str(k))
                if b and a.U is not None:
                    a.th.kill_at = a.th.nlines + b[1]
                    step = a.plan["steps"][k]
                    try:
                        if a.U.S is not None or (step[0] not in NEEDS and "seed" in step[1]):
                            a.U.prepare(step)()
                    except (Violation, core.NoProgress):
                        raise
                    except Exception as e:
                        sim.ev("failed", k, type(e).__name__)
                    a.th.kill_at = None
                a.step()

        for k, a in enumerate(acts):
            a.th = sch.spawn(lambda a=a: body(a), "u%d" % k)
        sch.run_all()
        switches = sch.switches
        for n in core.settings_changed(set0):
            if "warning" in n:  # catch_warnings of the libraries is not made for threads
                continue
            raise Violation("influenced", "the steps of the users changed %s for all objects of the process" % n)
        for a in acts:
            if a.th.exc is not None:
                raise a.th.exc
    else:
        last = None
        with core.pool(core.Pool(sim)), core.Dask(sim):
            while not all(a.done() for a in acts):
                live = [k for k, a in enumerate(acts) if not a.done()]
                k = live[sim.choose(len(live), "user")]
                for _ in range(plan["burst"]):
                    if acts[k].done():
                        break
                    sim.step()
                    switches += last is not k
                    last = k
                    acts[k].step(acts[k].plan["bad"].get(str(acts[k].pos)))
                if acts[k].done():
                    acts[k].rerun()
                if acts[k].done() and acts[k].plan["drop"] and not plan["share"]:
                    acts[k].U = None
                    gc.collect()
                    sim.ev("destroyed", k)
                    sim.reached["destroyed"] += 1
    n = 0
    for k, a in enumerate(acts):
        tail = "(user %d of %d: %s; the others: %s; %s)" % (k, len(acts), w.describe_cfg(a.plan["cfg"]), "; ".join(w.describe_cfg(b.plan["cfg"]) for b in acts if b is not a), "threads" if plan["threads"] else "one thread")
        for j, (x, y) in enumerate(zip(want[k], a.out)):
            step = a.plan["steps"][j]
            if "singular" in (x[0], y[0]):
                break
            e = compare(x, y)
            if e:
                raise Violation("influenced", "%s next to others: %s %s" % (w.op_name([step[0], {} if "seed" in step[1] else step[1]]), e, tail))
            n += x[0] in ("ok", "read")
            sim.reached["%s-%s" % (step[0], x[0])] += 1
    return {"counts": {"results_compared": n, "switches": switches}, "nontrivial": n >= 4 and switches >= 3}
