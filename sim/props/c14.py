"""C14: concurrent evaluations of a shared model equal sequential ones."""
RUNS = {"quick": 1300, "thorough": 40000}
WALL = {"quick": 48, "thorough": 1500}
RULE = "one run estimates a model, then lets 2-4 threads evaluate it, a model loaded from its coefficients with the same basis, the basis itself and the estimator's trajectories (force, friction, free energy, kernel, masses, noise, noise and projected correlations, basis values, volterra check, coefficients, private integrators and loads) in a seeded interleaving with switches at library source lines or (a quarter of the schedules) single bytecode instructions, half of the time before anything has been evaluated, at times all of them entering the same function at once; some calls are wrong and raise, some threads get an exception in the middle of a call; every result is compared with that of the same call alone on an untouched twin and with a later call alone on the same objects, and the state of the model is compared before and after; nontrivial when at least 4 switches happened inside calls and 2 results were compared; distinct by hash of the interleaving"
REAL = ["VolterraBasis models, bases, estimators, integrators, correlation, Fortran kernels"]
STUB = ["thread scheduling: real threads, one released at a time, switched at library source lines or bytecode instructions", "lazy task scheduler (simulated)"]
ASSUME = ["switches happen between source lines or bytecode instructions of the library (each numpy, xarray or Fortran call is atomic)", "tolerance of rounding as in C01, 1e-11 against a later call on the same objects"]

KINDS = ["force_eval", "friction_eval", "pmf_eval", "kernel_eval", "inv_mass_eval", "noise", "corrs_noise", "proj_corrs", "basis_values", "save_model", "check_inv", "bcall", "bcall", "load", "bad", "laplace", "const_part"]


def gen_op(rng, cfg, kind, method):
    from .. import gens as g

    if kind == "bcall":
        fs = ["basis", "deriv"]
        if cfg["basis"]["type"] != "fem":
            fs.append("hessian")
        if g.has_pmf(cfg):
            fs.append("antiderivative")
        return ["bcall", {"f": rng.choice(fs), "x": g.gen_points(rng, cfg)}]
    if kind == "inv_mass_eval":
        return [kind, {"x": g.gen_points(rng, cfg)}]
    if kind == "check_inv":
        return [kind, {"return_diff": rng.random() < 0.5}]
    if kind in ("load", "bad"):
        return [kind, {"x": g.gen_points(rng, cfg), "k": rng.randrange(3)}]
    if kind == "evolve":
        return [kind, {"n": rng.randint(6, 14), "method": rng.choice(["rect", "trapz", "trapz_stab"])}]
    if kind == "integrate":
        return [kind, {"n": rng.randint(3, 9), "n0": rng.randint(1, 5), "i": rng.randrange(8), "seed": rng.randrange(1 << 30), "noise": rng.random() < 0.5}]
    return g.gen_eval(rng, cfg, what=kind, method=method)


def gen(rng, tier, i):
    from .. import gens as g

    integ = rng.random() < 0.2
    cfg = g.gen_int_cfg(rng) if integ else g.gen_cfg(rng, ntraj=rng.choice([1, 2, 2, 3]), small=True)
    c = g.gen_corrs(rng)
    method = rng.choice(g.NOISE_METHODS if c.get("second_order_method", True) else ["rect", "trapz"])
    hist = [["mean_force", {}], ["pos_mass", {}], ["corrs", c], ["kernel", {"method": method}]]
    kinds = [k for k in KINDS if not (k == "friction_eval" and cfg["model"] != "Pos_gle_with_friction") and not (k == "const_part" and cfg["model"] != "Pos_gle_hybrid") and not (k == "pmf_eval" and not g.has_pmf(cfg)) and not (k == "kernel_eval" and cfg["model"] == "Pos_gle_hybrid" and cfg["dim"] > 1)]
    if integ:
        kinds += ["integrate"] * 6
    if cfg["model"] == "Pos_gle_overdamped":
        kinds += ["evolve"] * 2
    nth = rng.choice([2, 2, 2, 3, 4])
    same = rng.choice(kinds) if rng.random() < 0.6 else None
    lazy = not integ and rng.random() < 0.06
    threads = []
    for t in range(nth):
        ops = [gen_op(rng, cfg, same if same and rng.random() < 0.8 else rng.choice(kinds), method) for _ in range(rng.randint(1, 3))]
        threads.append({"ops": [[o, rng.random() < 0.25] for o in ops], "kill": rng.randint(1, 200) if rng.random() < 0.1 else None})
    if rng.random() < 0.4:  # all threads make their first call of one kind at the same time
        k = rng.choice([x for x in kinds if x not in ("bad", "save_model", "load")])
        first = [gen_op(rng, cfg, k, method) for _ in threads]
        L = rng.random() < 0.25
        for t, o in zip(threads, first):
            if k == "bcall":
                o[1]["f"] = first[0][1]["f"]
            elif k == "basis_values":
                o[1]["for"] = first[0][1]["for"]
            t["ops"] = [[o, L]]
    return {"cold": rng.random() < 0.5, "cfg": cfg, "hist": hist, "threads": threads, "lazy": lazy, "mass": rng.random() < 0.5, "quanta": rng.choice([None, [1, 2, 3], [1, 1, 2, 4, 8, 20], [2, 5, 11, 30]])}


def shrink(p):
    T = p["threads"]
    for i in range(len(T)):
        if len(T) > 2:
            yield dict(p, threads=T[:i] + T[i + 1 :])
        if T[i]["kill"] is not None:
            yield dict(p, threads=T[:i] + [dict(T[i], kill=None)] + T[i + 1 :])
        for j in range(len(T[i]["ops"])):
            if len(T[i]["ops"]) > 1:
                yield dict(p, threads=T[:i] + [dict(T[i], ops=T[i]["ops"][:j] + T[i]["ops"][j + 1 :])] + T[i + 1 :])
            if T[i]["ops"][j][1]:
                yield dict(p, threads=T[:i] + [dict(T[i], ops=T[i]["ops"][:j] + [[T[i]["ops"][j][0], False]] + T[i]["ops"][j + 1 :])] + T[i + 1 :])
    if p["lazy"]:
        yield dict(p, lazy=False)


class Handle:
    """what w.act and w.read need"""

    def __init__(self, S, model):
        self.est, self.model, self.ds, self.cfg, self.basis = S.est, model, S.ds, S.cfg, S.basis
        self.kr, self.mr = S.kr, w_mass(S)


def w_mass(S):
    from .. import work as w

    return w.mass_rtol(S)


def act(H, op):
    import numpy as np

    from .. import work as w

    k, o = op
    if k == "bcall":
        return getattr(H.basis, o["f"])(np.array(o["x"], float))
    if k == "load":
        L = type(H.model).load_model(H.basis, H.model.save_model())
        return L.force_eval(np.array(o["x"], float))
    if k == "bad":
        if o["k"] == 0:
            return H.model.force_eval(np.ones((3, H.cfg["dim"] + 2, 2)))
        if o["k"] == 1:
            return H.model.compute_noise(H.ds[0].drop_vars("a"))
        return H.model.compute_corrs_w_noise(H.ds[0], "nothing")
    if k == "integrate":
        cls = w.vb.Integrator_gle_const_kernel if H.cfg["model"] == "Pos_gle_const_kernel" else w.vb.Integrator_gle
        rs = np.random.RandomState(o["seed"])
        cn = np.asarray(H.model.inv_mass_coeff.values)
        I = cls(H.model, coeffs_noise_kernel=cn, rng=rs.normal, verbose=False)
        x0 = H.ds[o["i"] % len(H.ds)].isel(time=slice(0, o["n0"])).assign_coords(time=np.arange(o["n0"]) * H.cfg["dt"])
        return I.run(o["n"] + o["n0"], x0=x0, set_noise_to_zero=not o["noise"])
    return w.act(H, op)


def read(H, op, ret):
    from .. import flat, work as w

    k = op[0]
    if k in ("bcall", "load", "bad", "integrate", "save_model"):
        fr = w.force_rtol(H.model)
        rt = {"bcall": 1e-10, "load": None if fr is None else 10 * fr}.get(k, None if fr is None or H.kr is None else 1e3 * (fr + H.kr))
        return {p or "result": (v, rt) for p, v in flat.flatten(ret)}
    return w.read(H, op, ret)


def run(plan, sim, d):
    from .. import core, flat, work as w
    from ..core import Violation

    cfg = plan["cfg"]
    tail = "(%s)" % w.describe_cfg(cfg)

    def make():
        ds = w.datasets(cfg)
        if plan["lazy"]:
            ds = [x.chunk({"time": 17}) for x in ds]
        S = w.Session(cfg, ds=ds)
        for op in plan["hist"]:
            if op[0] == "pos_mass" and not plan["mass"] and not any(o[0][0] == "integrate" for t in plan["threads"] for o in t["ops"]):
                continue
            s, v = w.run_op(S, op)
            if s == "err":
                if op[0] == "pos_mass":
                    continue
                return None
        S.H = [Handle(S, S.model), Handle(S, type(S.model).load_model(S.basis, S.model.save_model()))]
        return S

    def one(S, op, L):
        try:
            return "ok", act(S.H[int(L)], op)
        except (Violation, core.NoProgress):
            raise
        except Exception as e:
            return "err", e

    def final(S, op, L, r):
        return ("ok", read(S.H[int(L)], op, r[1])) if r[0] == "ok" else r

    n = 0
    with core.Dask(sim):
        A, B = make(), make()
        if A is None or B is None:
            sim.reached["history-raises"] += 1
            return {"counts": {"results_compared": 0}, "nontrivial": False}
        # alone, on the twin
        def alone():
            return [[final(A, op, L, one(A, op, L)) for op, L in t["ops"]] for t in plan["threads"]]

        want = None if plan.get("cold") else alone()
        before = flat.flatten(B.model.save_model())
        sch = core.ThreadSched(sim, plan["quanta"])

        def body(t):
            out = []
            for op, L in t["ops"]:
                try:
                    out.append(one(B, op, L))
                except core.NoProgress:
                    raise
            return out

        ths = []
        for k, t in enumerate(plan["threads"]):
            th = sch.spawn(lambda t=t: body(t), "u%d" % k)
            th.kill_at = t["kill"]
            ths.append(th)
        sch.run_all()
        for th in ths:
            if th.exc is not None:
                raise th.exc
        want = want or alone()
        for k, (t, th) in enumerate(zip(plan["threads"], ths)):
            for (op, L), a, r in zip(t["ops"], want[k], th.result):
                where = "%s%s in thread %d of %d %s" % (w.op_name(op) if op[0] not in ("bcall", "load", "bad") else op[0] + str(op[1].get("f", op[1].get("k"))), " of the loaded model" if L else "", k, len(ths), tail)
                if r[0] == "err" and t["kill"] is not None and th.kill_at is None:
                    sim.ev("killed", k, op[0])
                    continue
                got = final(B, op, L, r)
                n += w.pair(a[0], a[1], got[0], got[1], where, "concurrent")
                late = final(B, op, L, one(B, op, L))
                n += w.pair(a[0], a[1], late[0], late[1], where + ", repeated alone afterwards", "afterwards")
                if got[0] == "ok" and late[0] == "ok":
                    tight = {q: (v[0], 1e-11) + tuple(v[2:]) for q, v in late[1].items()}
                    n += w.same_values(got[1], tight, where + " compared with a later call alone", "concurrent-differs")
                sim.reached["%s-%s" % (op[0], got[0])] += 1
        after = flat.flatten(B.model.save_model())
        e = flat.difference(before, after)
        if e:
            raise Violation("model-changed", "evaluations by %d threads changed the model: %s %s" % (len(ths), e, tail))
    sim.ev("switches", sch.switches)
    return {"counts": {"results_compared": n, "switches": sch.switches}, "nontrivial": n >= 2 and sch.switches >= 4}
