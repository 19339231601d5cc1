"""C06: the caller's data are never modified."""
import json

RUNS = {"quick": 1500, "thorough": 60000}
WALL = {"quick": 45, "thorough": 1500}
RULE = "one run is a history of 4-14 operations over the whole public interface (building trajectories, estimators, evaluation with given coefficients, noise, fits, saving, loading, integration, drawing initial conditions, bases, meshes), each possibly made to fail at a seeded line or call, interrupted, run in a simulated pool or by two threads in a seeded interleaving of lines or bytecode instructions; user operators may raise; every object the caller passed in since the start is fingerprinted (bytes, type, shape, names, coordinates, attributes, members of lists) and compared after every operation; in half of the runs all arrays are read-only and have to be accepted; nontrivial when at least 3 operations ran and at least one fault, interleaving, pool or read-only input was met; distinct by hash of the event log"
REAL = ["the whole VolterraBasis package, Fortran kernels"]
STUB = ["joblib workers (simulated pool)", "thread scheduling (simulated)", "failures and interrupts at source lines and calls (sys.monitoring)"]
ASSUME = ["to_gfpe, which adds an observable on request, is left out"]

FITS = ["exp", "expnorm", "doubleexpnorm", "sech", "sech_one", "sech_two", "gaussian", "prony"]


def gen(rng, tier, i):
    from .. import gens as g

    integ = rng.random() < 0.3
    cfg = g.gen_int_cfg(rng) if integ else g.gen_cfg(rng, ntraj=rng.choice([1, 2, 2, 3]), small=True)
    h = g.gen_int_history(rng, cfg) if integ else g.gen_history(rng, cfg, n_extra=rng.randint(0, 3), allow_zero=False)
    steps = [["new", {}]] + h
    extra = ["xframe", "compute_va", "compute_va", "describe_fit", "basis_calls", "basis_calls", "correlation", "memory_fit", "prony", "noise_gen", "kl_noise", "mesh", "load", "load", "coeffs_eval", "coeffs_eval", "k0", "left_arr", "left_fn", "left_fn", "fe", "initial", "flux", "concat"]
    if cfg["model"] == "Pos_gle_overdamped":
        extra += ["evolve"]
    if integ:
        extra += ["integrate"] * 8
    for _ in range(rng.randint(2, 7)):
        w = rng.choice(extra)
        o = {"seed": rng.randrange(1 << 30), "i": rng.randrange(8), "n": rng.randint(4, 12), "what": rng.randrange(8), "flag": rng.random() < 0.5, "fit": rng.choice(FITS)}
        steps.insert(rng.randint(1, len(steps)) if w in ("xframe", "compute_va", "basis_calls", "correlation", "memory_fit", "prony", "noise_gen", "kl_noise", "mesh", "describe_fit", "concat") else len(steps), [w, o])
    if rng.random() < 0.3:
        steps.insert(0, ["describe_fit", {"seed": rng.randrange(1 << 30), "i": 0, "n": 5, "what": 0, "flag": rng.random() < 0.5}])
    bad = {}
    for k in range(len(steps)):
        if rng.random() < 0.25:
            bad[str(k)] = [rng.choice(["interrupt", "exception", "call", "threads", "threads"]), rng.random()]
    return {"cfg": cfg, "steps": steps, "bad": bad, "n_jobs": rng.choice([1, 1, 2, 3]), "mode": rng.choice(["process", "thread"]), "ro": rng.random() < 0.5, "saveall": rng.random() < 0.15, "lazy": rng.random() < 0.1}


def shrink(p):
    for k in list(p["bad"]):
        yield dict(p, bad={a: b for a, b in p["bad"].items() if a != k})
    for i in reversed(range(len(p["steps"]))):
        if p["steps"][i][0] != "new":
            yield dict(p, steps=p["steps"][:i] + p["steps"][i + 1 :], bad={str(int(k) - (int(k) > i)): v for k, v in p["bad"].items() if int(k) != i})
    for k in ("ro", "saveall", "lazy"):
        if p[k]:
            yield dict(p, **{k: False})
    if p["n_jobs"] > 1:
        yield dict(p, n_jobs=1)


def fingerprint(o, flags=True):
    """{path: value} of everything reachable a caller can see"""
    import numpy as np
    import xarray as xr

    out = {}

    def walk(p, o, d):
        if isinstance(o, xr.Dataset):
            out[p + ":type"] = "Dataset"
            out[p + ":vars"] = list(map(str, o.variables))
            out[p + ":coords"] = sorted(map(str, o.coords))
            out[p + ":sizes"] = dict(o.sizes)
            walk(p + ".attrs", dict(o.attrs), d + 1)
            for k in o.variables:
                walk(p + "[%s]" % k, o[k].variable, d + 1)
        elif isinstance(o, xr.DataArray):
            out[p + ":name"] = str(o.name)
            walk(p, o.variable, d + 1)
            for k in o.coords:
                walk(p + ".coords[%s]" % k, o.coords[k].variable, d + 1)
        elif isinstance(o, xr.Variable):
            out[p + ":dims"] = o.dims
            walk(p + ".attrs", dict(o.attrs), d + 1)
            if hasattr(o._data, "__dask_graph__"):
                out[p + ":lazy"] = (o.shape, str(o.dtype), o._data.name, o._data.chunks)
            else:
                walk(p, np.asarray(o.values), d + 1)
        elif isinstance(o, np.ndarray):
            out[p] = (o.shape, str(o.dtype), o.tobytes(), o.flags.writeable and flags)
        elif isinstance(o, (list, tuple)):
            out[p + ":seq"] = (type(o).__name__, [id(x) if isinstance(x, (xr.Dataset, np.ndarray)) else None for x in o])
            for i, x in enumerate(o):
                walk(p + "[%d]" % i, x, d + 1)
        elif isinstance(o, dict):
            out[p + ":keys"] = list(map(str, o))
            for k, x in o.items():
                walk(p + "[%s]" % k, x, d + 1)
        else:
            out[p] = repr(o)[:200]

    walk("", o, 0)
    return out


class Registry:
    def __init__(self, ro, flags=True):
        self.items = []
        self.ro = ro
        self.flags = flags  # not with lazy trajectories: the simulated scheduler freezes what its tasks return

    def add(self, name, o):
        """register an input; makes it read-only in the read-only runs; returns it"""
        if self.ro:
            freeze(o)
        self.items.append((name, o, fingerprint(o, self.flags)))
        return o

    def check(self, where):
        from ..core import Violation

        for name, o, fp in self.items:
            now = fingerprint(o, self.flags)
            if now != fp:
                diff = [k for k in list(fp) + [k for k in now if k not in fp] if fp.get(k) != now.get(k)]
                raise Violation("input-modified", "%s modified %s%s (%s -> %s)" % (where, name, diff[0], repr(fp.get(diff[0]))[:80], repr(now.get(diff[0]))[:80]))
        return len(self.items)


def freeze(o):
    import numpy as np
    import xarray as xr

    if isinstance(o, np.ndarray):
        o.flags.writeable = False
    elif isinstance(o, xr.Dataset):
        for k in o.variables:
            freeze(o[k].variable._data)
    elif isinstance(o, xr.DataArray):
        freeze(o.variable._data)
    elif isinstance(o, (list, tuple)):
        for x in o:
            freeze(x)


class Once:
    """an operator of the user that raises at its k-th evaluation (once)"""

    def __init__(self, k):
        self.k = k

    def __call__(self, xva):
        from ..core import SimFault

        self.k -= 1
        r = xva["v"] * 2.0
        if self.k < 0:
            raise SimFault("the user's operator")
        return r


class User:
    def __init__(self, plan, sim, d):
        from .. import work as w
        import numpy as np

        self.np, self.w, self.plan, self.cfg = np, w, plan, plan["cfg"]
        self.reg = Registry(plan["ro"], not plan["lazy"])
        self.arrs = w.arrays(self.cfg)
        ds = w.datasets(self.cfg, self.arrs)
        for k, t in enumerate(ds):
            t["x"].attrs["unit"] = "nm"
            t.attrs["origin"] = "run%d" % k
        if plan["lazy"]:
            ds = [t.chunk({"time": 13}) for t in ds]
        self.ds = ds
        self.arg = w.container(self.cfg, ds)
        self.spec = self.cfg["basis"]
        self.reg.add("trajectories", self.arg)
        self.basis = self.make_basis()
        self.S = None
        self.integ = None

    def make_basis(self, s=None):
        w, np = self.w, self.np
        s = s or self.spec
        if s["type"] == "splfct":
            kn, co = self.reg.add("knots", np.array(s["knots"], float)), self.reg.add("spline coefficients", np.array(s["coeffs"], float))
            return w.vbb.SplineFctFeatures(kn, co, k=s["k"])
        if s["type"] == "si":
            return w.vbb.SmoothIndicatorFeatures(self.reg.add("states", [list(b) for b in s["bounds"]][:: -1 if self.cfg["data"] % 3 == 0 else 1]), boundary_type=w.smoothstep if s["boundary"] == "callable" else s["boundary"], periodic=s.get("periodic", False))
        b = w.raw_basis(s)
        if "fit_on" in s:
            b.fit(self.reg.add("fit data", np.array(s["fit_on"], float)), **({"knots": self.reg.add("knots", np.array(s["fit_knots"], float))} if "fit_knots" in s else {}))
        return b

    def prepare(self, step):
        """returns a function doing the library calls of the step; all inputs are registered"""
        import scipy.stats

        w, np = self.w, self.np
        vb, vbb, xr = w.vb, w.vbb, w.xr
        add = self.reg.add
        name, o = step
        cfg = self.cfg
        dim = cfg["dim"]
        m = None if self.S is None else self.S.model
        if name == "new":
            def f():
                self.S = w.Session(cfg, ds=self.ds, basis=self.basis, n_jobs=self.plan["n_jobs"], saveall=self.plan["saveall"], prefix="o_", arg=self.arg)
                return self.S
            return f
        if "seed" not in o:
            if name in ("force_eval", "friction_eval", "pmf_eval", "kernel_eval", "inv_mass_eval"):
                x = w.points(o)
                add("points", x)
                h = self.S.est if o.get("via") == "est" and self.S.est.model is m else m
                fn = {"force_eval": h.force_eval, "pmf_eval": h.pmf_eval, "kernel_eval": h.kernel_eval, "inv_mass_eval": m.inv_mass_eval}.get(name) or h.friction_force_eval
                kw = {k: v for k, v in o.items() if k in ("kT", "set_zero")}
                if "c" in o and (m.kernel if name == "kernel_eval" else m.force_coeff) is not None:
                    c = w.given_coeffs(m, o, name)
                    add("given coefficients", c)
                    if name == "pmf_eval":
                        return lambda: fn(x, coeffs=c, **kw)
                    return lambda: fn(x, c)
                return lambda: fn(x, **kw)
            if name == "kernel" and "k0" in o and w.corr_state(self.S.est) is not None:
                k0 = add("k0", w.make_k0(self.S.est, o["k0"]))
                return lambda: self.S.est.compute_kernel(**dict(o, k0=k0))
            if name == "corrs_noise" and o["left"] == "arr":
                x = self.ds[o["i"] % len(self.ds)]
                left = add("left operand", np.asarray(x["x"].values) ** 2)
                return lambda: m.compute_corrs_w_noise(x, left)
            if name == "kernel" and "k0" in o:
                return lambda: None
            return lambda: w.act(self.S, step)
        rs = np.random.RandomState(o["seed"])
        t = self.arrs[o["i"] % len(self.arrs)]
        n = o["n"]
        if name == "xframe":
            x = t["x"][:, 0].copy() if o["flag"] and dim == 1 else t["x"].copy()
            add("x", x)
            tm = add("time", t["time"].copy())
            if o["what"] % 3 == 0:
                return lambda: vb.xframe(x, tm)
            if o["what"] % 3 == 1:
                return lambda: vb.xframe(x, tm, fix_time=True)
            v, a = add("v", t["v"].copy()), add("a", t["a"].copy())
            return lambda: vb.xframe(x, tm, v=v, a=a)
        if name == "compute_va":
            from VolterraBasis import compute_a, compute_a_from_vel, compute_va_gjf

            k = o["what"] % 5
            xf = xr.Dataset({"x": (["time", "dim_x"], t["x"].copy())}, coords={"time": t["time"].copy()}, attrs={"dt": cfg["dt"]})
            if k in (2, 3):
                xf = xf.assign({"v": (["time", "dim_x"], t["v"].copy())})
            add("frame", xf)
            return [lambda: vb.compute_va(xf), lambda: vb.compute_va(xf, correct_jumps=True, jump=1.0, jump_thr=0.3), lambda: compute_a(xf), lambda: compute_a_from_vel(xf), lambda: compute_va_gjf(xf, correct_jumps=o["flag"], jump=1.0, jump_thr=0.3)][k]
        if name == "concat":
            from VolterraBasis import concat_underdamped

            x = add("trajectory", w.dataset(t, cfg["dt"]))
            return lambda: concat_underdamped(x)
        if name == "describe_fit":
            b = self.make_basis()
            x = t["x"].copy() if o["flag"] else scipy.stats.describe(t["x"])
            add("fit data", x if o["flag"] else tuple(np.array(a) if not isinstance(a, tuple) else a for a in x))
            if not o["flag"]:
                add("description", x)
            return lambda: b.fit(x)
        if name == "basis_calls":
            from .. import gens as g

            spec = self.spec
            if o["seed"] % 3:  # any other basis
                kinds = sorted({json.dumps(q, sort_keys=True) for t in (g.TABLE1, g.TABLE2, g.TABLE3)[dim - 1].values() for q in t})
                spec = json.loads(kinds[o["seed"] % len(kinds)])
            b = self.make_basis(spec)
            b.fit(scipy.stats.describe(np.concatenate([a["x"] for a in self.arrs])))
            X = np.clip(rs.normal(size=(n, dim)), -1.2, 1.2)
            if spec["type"] == "fem" and o["flag"]:
                X[:2, 0] = 8.0, -8.0
            add("points", X)
            calls = [b.basis, b.deriv] + ([b.hessian] if spec["type"] != "fem" else []) + ([b.antiderivative] if spec["type"] not in ("si", "fem", "combine", "tensor") else [])
            calls = calls[o["what"] % len(calls) :] + calls[: o["what"] % len(calls)]
            return lambda: [c(X) for c in calls]
        if name == "correlation":
            a, b = add("a", rs.normal(size=(2, 1, 30))), add("b", rs.normal(size=(3, 30)))
            return [lambda: vb.correlation_fft(a, b, trunc=n), lambda: vb.correlation_direct(a, b, trunc=n), lambda: vb.correlation_fft(a[:, 0], None, trunc=n)][o["what"] % 3]
        if name == "memory_fit":
            tm = add("times", np.arange(40) * 0.1)
            if o["flag"]:
                data = add("data", 2.0 * np.exp(-1.5 * tm) + 1e-6 * rs.normal(size=40))
                return lambda: vb.memory_fit_eval(tm, vb.memory_fit(tm, data, type=o["fit"]))
            ker = add("kernel", 2.0 * np.exp(-1.5 * tm)[:, None, None] * np.array([[1.0], [0.5]])[None] + 1e-6 * rs.normal(size=(40, 2, 1)))
            prm = None
            ty = o["fit"] if o["fit"] in ("exp", "gaussian", "sech_one", "prony") else "exp"

            def f():
                p = vb.memory_fit_kernel(tm, ker, type=ty)
                add("fit parameters", p)
                return vb.memory_kernel_eval(tm, p)
            return f
        if name == "prony":
            tm = add("times", np.arange(31) * 0.1)
            data = add("data", np.exp(-tm) * np.cos(2 * tm) + 1e-4 * rs.normal(size=31))
            ker = add("kernel", (np.exp(-tm) + 0.5 * np.exp(-3 * tm))[:, None, None] * np.ones((1, 2, 1)))
            k = o["what"] % 3
            if k == 0:
                return lambda: vb.prony_inspect_data(data, N_keep=4)
            if k == 1:
                return lambda: vb.prony_series_eval(tm, *vb.prony_fit_times_serie(data, 0.1, N_keep=4))

            def f():
                p = vb.prony_fit_kernel(tm, ker, N_keep=3)
                add("series", p)
                return vb.prony_series_kernel_eval(tm, p)
            return f
        if name == "noise_gen":
            tm = add("times", np.arange(12) * 0.1)
            ker = add("kernel", np.exp(-tm)[:, None, None] * np.eye(1)[None])
            fc = add("force coefficients", np.array([[-1.0]]))
            b = vbb.LinearFeatures().fit(np.zeros((3, 1)))
            r2 = np.random.RandomState(o["seed"] % 1000)

            def f():
                I = vb.Integrator_gle_const_kernel(None, basis=b, force_coeff=fc, kernel=ker, dt=0.1, rng=r2.normal, verbose=False)
                return I.run(n + 3)
            return f
        if name == "kl_noise":
            k1 = add("kernel", np.exp(-np.arange(12) * 0.3))
            r2 = np.random.RandomState(o["seed"] % 1000)

            def f():
                c = vb.KarhunenLoeveNoiseGenerator.generate_stationary_covariancematrix(k1)
                add("covariance", c)
                return vb.KarhunenLoeveNoiseGenerator(c, 0.1, rng=r2.normal).generate(n)
            return f
        if name == "mesh":
            from VolterraBasis.basis import _mesh_utils as mu

            x1 = add("data", rs.normal(size=(60, 1)))
            x2 = add("data", rs.normal(size=(60, 2)))
            bv = add("boundary", np.array([[-4.0, -4.0], [-4.0, 4.0], [4.0, -4.0], [4.0, 4.0]] if o["flag"] else [[-4.0, -4.0], [-3.98, -4.02], [4.0, -4.0], [4.0, 4.0], [-4.0, 4.0]]))
            return [lambda: mu.data_driven_line(x1), lambda: mu.centroid_driven_line(x1, bins=5), lambda: mu.centroid_driven_mesh(x2, bins=5), lambda: mu.centroid_driven_mesh(x2, bins=5, boundary_vertices=bv)][o["what"] % 4]
        if name == "load":
            co = m.save_model()
            if o["flag"]:
                co = co.copy(deep=True)
                add("saved coefficients", co)
            else:
                self.reg.items.append(("saved coefficients", co, fingerprint(co, self.reg.flags)))
            X = add("points", np.clip(rs.normal(size=(n, dim)), -1.2, 1.2))
            trj = self.ds[o["i"] % len(self.ds)]

            def f():
                L = type(m).load_model(self.basis, co)
                r = [L.force_eval(X)]
                if L.method in w.NOISE_METHODS and not self.plan["lazy"]:
                    r.append(L.compute_noise(trj))
                    r.append(L.compute_corrs_w_noise(trj))
                return r
            return f
        if name == "coeffs_eval":
            X = add("points", np.clip(rs.normal(size=(n, dim)), -1.2, 1.2))
            fc, ke = m.force_coeff, m.kernel
            if fc is None:
                return lambda: None
            c = add("coefficients", (2.0 * fc).copy(deep=True))
            k = o["what"] % 3
            if cfg["model"] == "Pos_gle_with_friction":
                c1 = add("coefficients", (2.0 * fc[: m.N_basis_elt]).copy(deep=True))
                return lambda: m.pmf_eval(X, coeffs=c1) if w.has_pmf(cfg) else m.force_eval(X)
            if k == 0:
                return lambda: m.force_eval(X, coeffs=c)
            if k == 1 and w.has_pmf(cfg):
                return lambda: m.pmf_eval(X, coeffs=c, kT=2.0, set_zero=o["flag"])
            if ke is not None and cfg["model"] != "Pos_gle_hybrid":
                q = add("kernel coefficients", (0.5 * ke).copy(deep=True))
                return lambda: m.kernel_eval(X, coeffs_ker=q)
            return lambda: m.force_eval(X, coeffs=c)
        if name == "k0":
            if self.w.corr_state(self.S.est) is None:
                return lambda: None
            k0 = add("k0", w.make_k0(self.S.est, o["seed"] % 1000))
            return lambda: self.S.est.compute_kernel(method="trapz", k0=k0)
        if name == "left_arr":
            trj = self.ds[o["i"] % len(self.ds)]
            left = np.asarray(trj["x"].values) ** 2
            if o["flag"]:
                left = xr.DataArray(left, dims=("time", "dim_x"))
            add("left operand", left)
            if m.kernel is None or m.method not in w.NOISE_METHODS:
                return lambda: None
            return lambda: m.compute_corrs_w_noise(trj, left)
        if name == "left_fn":  # the user's operator gives up
            trj = self.ds[o["i"] % len(self.ds)]
            if m.kernel is None or m.method not in w.NOISE_METHODS:
                return lambda: None
            left = Once(o["what"] % 3)
            if o["flag"] or not self.S.est:
                return lambda: m.compute_corrs_w_noise(trj, left)
            return lambda: self.S.est.compute_projected_corrs(left_op=left)
        if name == "fe":
            if dim > 1 or self.plan["lazy"]:
                return lambda: None
            lst = add("trajectories", [w.dataset(a, cfg["dt"]) for a in self.arrs])
            return lambda: vb.compute_1d_fe(lst, bins=6 + n, hist=o["flag"])
        if name == "evolve":
            if m.kernel is None or m.kernel.shape[1] != m.kernel.shape[2] or m.force_coeff.shape[0] != m.force_coeff.shape[1]:
                return lambda: None
            G0 = add("initial value", rs.normal(size=(m.kernel.shape[-1], m.kernel.shape[-1])))
            return lambda: m.evolve_volterra(G0, n + 4, method=["rect", "trapz", "trapz_stab"][o["what"] % 3])
        if name == "flux":
            if m.kernel is None:
                return lambda: None
            nk = m.kernel.shape[1]
            cf = add("force correlation", rs.normal(size=(m.force_coeff.shape[0], nk, n)))
            ck = add("kernel correlation", rs.normal(size=(nk, nk, n)))
            fc = add("force coefficients", rs.normal(size=(n, 2, m.force_coeff.shape[0])))
            ke = add("kernel", rs.normal(size=(n, nk, nk)))
            mth = ["rect", "trapz", "simpson"][o["what"] % 3]

            def f():
                try:
                    return m.flux_from_volterra(cf, corrs_kernel=ck, force_coeff=fc[0], kernel=ke, method=mth, trunc_ind=n - 1 if o["flag"] else None)
                except ValueError as e:
                    if "read-only" in str(e) or "writ" in str(e):
                        raise
                    return None
            return f
        if name == "integrate":
            if m.kernel is None or m.inv_mass_coeff is None:
                return lambda: None
            trj = self.ds[o["i"] % len(self.ds)]
            if self.plan["lazy"]:
                trj = trj.compute()
            n0 = 1 + o["what"] % 5
            x0 = add("initial conditions", trj.isel(time=slice(0, n0)).assign_coords(time=np.arange(n0) * cfg["dt"]))
            cn = add("noise coefficients", np.asarray(m.inv_mass_coeff.values).copy())
            r2 = np.random.RandomState(o["seed"] % 1000)

            def f():
                cls = vb.Integrator_gle_const_kernel if cfg["model"] == "Pos_gle_const_kernel" else vb.Integrator_gle
                I = cls(m, coeffs_noise_kernel=cn if o["flag"] else None, rng=r2.normal, verbose=False)
                return I.run(n + 5, x0=x0, set_noise_to_zero=o["what"] > 4)
            return f
        if name == "initial":
            lst = self.arg
            b = vbb.LinearFeatures().fit(np.zeros((3, 1)))
            I = vb.Integrator_gle_const_kernel(None, basis=b, force_coeff=np.array([[-1.0]]), kernel=np.exp(-np.arange(8) * 0.1)[:, None, None], dt=cfg["dt"] * (1 if o["flag"] else 2), verbose=False)
            np.random.seed(o["seed"])
            if o["n"] % 3 == 0:  # the window is the whole (shortest) trajectory
                k = int(np.argmin(cfg["lens"]))
                if o["n"] % 2:
                    lst = self.ds[k]
                return lambda: I.initial_conditions(lst, n_mem=self.ds[k].sizes["time"] - 1)
            return lambda: I.initial_conditions(lst, n_mem=o["what"] % 6)
        raise ValueError(name)


def run(plan, sim, d):
    import numpy as np

    from .. import core, work as w
    from ..core import Violation

    U = User(plan, sim, d)
    tail = "(%s%s)" % (w.describe_cfg(plan["cfg"]), ", read-only" if plan["ro"] else "")
    ops = checked = odd = 0
    failed = 0
    p = core.Pool(sim, mode=plan["mode"])
    with core.pool(p), core.Dask(sim, readonly=plan["ro"]):
        for k, step in enumerate(plan["steps"]):
            b = plan["bad"].get(str(k))
            if step[0] != "new" and U.S is None and "seed" not in step[1]:
                break
            if step[0] in ("load", "coeffs_eval", "k0", "left_arr", "left_fn", "flux", "evolve", "integrate") and U.S is None:
                continue
            try:
                f = U.prepare(step)
            except (Violation, core.NoProgress):
                raise
            where = "%s %s" % (w.op_name([step[0], {} if "seed" in step[1] else step[1]]), tail)
            checked += U.reg.check("(harness) preparing " + where)
            if b and b[0] != "threads":
                with core.inject(count_calls=True) as c:
                    try:
                        f()
                    except (Violation, core.NoProgress):
                        raise
                    except Exception:
                        pass
                checked += U.reg.check(where)
                kw = {"call": c.pick_call(b[1])} if b[0] == "call" else {"line": c.pick_line(b[1])}
                inj = core.inject(exc={"interrupt": KeyboardInterrupt, "exception": core.SimFault, "call": MemoryError}[b[0]], **kw)
                try:
                    with inj:
                        f()
                except (Violation, core.NoProgress):
                    raise
                except (Exception, KeyboardInterrupt) as e:
                    sim.ev("failed", step[0], type(e).__name__, inj.where)
                    failed += 1
                checked += U.reg.check(where + ", which failed at %s," % inj.where)
            if b and b[0] == "threads" and step[0] != "new" and U.plan["n_jobs"] == 1 and not plan["lazy"]:
                s = core.ThreadSched(sim)
                ths = [s.spawn(f, "u%d" % j) for j in range(2)]
                s.run_all()
                sim.reached["concurrent-operation"] += 1
                sim.ev("threads", step[0])
                checked += U.reg.check(where + " by two threads")
            try:
                f()
                ops += 1
                sim.ev("op", step[0], "ok")
            except (Violation, core.NoProgress):
                raise
            except Exception as e:
                sim.ev("op", step[0], "err", type(e).__name__)
                sim.reached["raised-%s-%s" % (step[0], type(e).__name__)] += 1
                if "read-only" in str(e) or "not writeable" in str(e) or "WRITEABLE" in str(e):
                    raise Violation("read-only-refused", "%s: %s: %s" % (where, type(e).__name__, str(e)[:200]))
                odd += 1
                if step[0] == "new":
                    break
            checked += U.reg.check(where)
    return {"counts": {"ops": ops, "fingerprints_compared": checked, "raised": odd, "failures": failed}, "nontrivial": ops >= 3 and (failed > 0 or plan["ro"] or plan["n_jobs"] > 1 or sim.reached["concurrent-operation"] > 0)}
