"""Workloads: configurations, data, sessions on the real library, operations, comparison."""
import os

import numpy as np
import xarray as xr

import VolterraBasis as vb
import VolterraBasis.basis as vbb

from . import core, ref
from .core import Violation
from .gens import *  # noqa
from .gens import BSP, FEM, TEN

# ------------------------------------------------------------------ data
def make_x(cfg):
    """raw positions of each trajectory, lens[i]+2 points"""
    rs = np.random.RandomState(cfg["data"] & 0x7FFFFFFF)
    dim, dt = cfg["dim"], cfg["dt"]
    lens = cfg["lens"]
    n = max([L for L in lens if L <= 6000] or [2]) + 2
    nt = len(lens)
    sub = 4
    h = dt / sub
    x = rs.uniform(-1.2, 1.2, (nt, dim))
    v = rs.normal(size=(nt, dim))
    w = rs.normal(size=(n * sub, nt, dim)) * np.sqrt(2 * 1.0 * h)
    out = np.empty((n, nt, dim))
    shift = np.linspace(0.1, 0.3, dim)
    for k in range(n):
        out[k] = x
        for s in range(sub):
            f = 2.0 * (x - shift) - 2.0 * (x - shift) ** 3 - 1.0 * v
            if dim > 1:
                f = f - 0.5 * x[:, ::-1]
            v = v + h * f + w[k * sub + s]
            x = x + h * v
    if cfg.get("near"):  # almost the data of another user
        out = out * (1.0 + cfg["near"])
    return [np.ascontiguousarray(out[: L + 2, i]) if L <= 6000 else long_x(rs, L + 2, dim, dt) for i, L in enumerate(lens)]


def long_x(rs, n, dim, dt):
    """positions of a very long record: a damped oscillator with a soft wall"""
    from scipy.signal import lfilter

    w = rs.normal(size=(n + 200, dim)) * dt * np.sqrt(dt) * 1.5
    return np.ascontiguousarray(1.3 * np.tanh(lfilter([1.0], [1.0, -(2.0 - dt), 1.0 - dt + dt * dt], w, axis=0)[200:]))


def arrays(cfg):
    """list of {"x","v","a","time"} of reference arrays, lens[i] points each"""
    res = []
    t0 = cfg.get("t0") or [0]  # time origins, in steps
    for i, x in enumerate(make_x(cfg)):
        X, v, a = ref.compute_va(x, cfg["dt"])
        res.append({"x": np.ascontiguousarray(X), "v": v, "a": a, "time": (t0[i % len(t0)] + np.arange(1, len(X) + 1)) * cfg["dt"]})
        if cfg.get("gap") and len(X) > cfg["T"] + 8:  # frames are missing
            res[-1]["time"][cfg["T"] + 4 :] += cfg["gap"] * cfg["dt"]
        if cfg.get("form") == "int":  # positions counted in lattice steps
            res[-1]["x"] = np.round(3 * res[-1]["x"])
        if cfg.get("L_obs") == "w":  # an observable of the user
            res[-1]["w"] = observable(cfg, v, a)
    return res


def observable(cfg, v, a):
    """an observable of the user, with as many components as the positions or another number"""
    w = 0.8 * a - 0.4 * v + 0.2
    n = cfg.get("n_obs", w.shape[1])
    return np.ascontiguousarray(np.hstack([w, 0.3 * v[:, ::-1] + 0.5 * a**2 / (1 + a**2), v - a])[:, :n])


def dataset(t, dt):
    return xr.Dataset({k: (["time", "dim_x" if t[k].shape[1] == t["x"].shape[1] else "dim_w"], t[k].copy()) for k in ("x", "v", "a", "w") if k in t}, coords={"time": t["time"].copy()}, attrs={"dt": float(dt)})


def datasets(cfg, arrs=None):
    return [shaped(dataset(t, cfg["dt"]), cfg.get("form")) for t in (arrs or arrays(cfg))]


def shaped(d, form):
    """the same data in other forms a user may have them in"""
    if form == "int":
        return d.assign(x=d["x"].astype(int))
    if form == "fortran":
        return d.assign({k: (d[k].dims, np.asfortranarray(d[k].values)) for k in d.data_vars})
    if form == "frame":  # more coordinates and attributes
        return d.assign_coords(frame=("time", np.arange(d.sizes["time"]) + 7), temperature=300.0).assign_attrs(units="nm", origin="run 3")
    if form == "scalar":  # more variables
        return d.assign(temperature=300.0, flag=("time", np.arange(d.sizes["time"]) % 2 == 0))
    return d


def container(cfg, ds):
    if cfg["container"] == "single" and len(ds) == 1:
        return ds[0]
    return tuple(ds) if cfg["container"] == "tuple" else list(ds)


# ------------------------------------------------------------------ bases
def make_basis(spec):
    b = raw_basis(spec)
    if "fit_on" in spec:
        b.fit(np.array(spec["fit_on"], float), **({"knots": np.array(spec["fit_knots"], float)} if "fit_knots" in spec else {}))
    return b


def raw_basis(spec):
    t = spec["type"]
    if t == "lin":
        return vbb.LinearFeatures(to_center=spec.get("center", False))
    if t == "poly":
        return vbb.PolynomialFeatures(deg=spec["deg"], polynom=getattr(np.polynomial, spec.get("polynom", "Polynomial")), remove_const=spec["rc"])
    if t == "fourier":
        return vbb.FourierFeatures(order=spec["order"], freq=spec["freq"], remove_const=spec["rc"])
    if t == "bspline":
        return vbb.BSplineFeatures(spec["n"], k=spec["k"], periodic=spec.get("periodic", False), remove_const=spec["rc"])
    if t == "splfct":
        return vbb.SplineFctFeatures(np.array(spec["knots"], float), np.array(spec["coeffs"], float), k=spec["k"])
    if t == "combine":
        return vbb.FeaturesCombiner(*[make_basis(s) for s in spec["sub"]])
    if t == "tensor":
        return vbb.TensorialBasis2D(make_basis(spec["sub"][0]), None if spec.get("same") else make_basis(spec["sub"][1]))
    if t == "si":
        return vbb.SmoothIndicatorFeatures([list(b) for b in spec["bounds"]], boundary_type=smoothstep if spec["boundary"] == "callable" else spec["boundary"], periodic=spec.get("periodic", False))
    if t == "fem":
        import skfem

        if "hex" in spec:
            return vbb.FEMScalarFeatures(skfem.CellBasis(ref.tri_mesh(spec), skfem.ElementTriP1()))
        m = skfem.MeshLine(np.array(spec["nodes"], float))
        if spec.get("order") == 2:
            return vbb.FEMScalarFeatures(skfem.CellBasis(m, skfem.ElementLineP2()))
        return vbb.FEMScalarFeatures(skfem.CellBasis(m, skfem.ElementLineP1()))
    raise ValueError(t)


def smoothstep(u, der=0):
    """a boundary function given by the user"""
    return 1 - 3 * u**2 + 2 * u**3 if der == 0 else 6 * u**2 - 6 * u if der == 1 else 12 * u - 6


class FaultyBasis:
    """User-supplied basis around a real one that fails at its k-th evaluation."""

    def __init__(self, inner, exc=core.SimFault):
        self._inner = inner
        self._left = None
        self._exc = exc
        self._n = 0

    def _tick(self):
        self._n += 1
        if self._left is not None:
            self._left -= 1
            if self._left <= 0:
                self._left = None
                if core.CUR is not None:
                    core.CUR.fault("basis-exception")
                raise self._exc("user basis")

    @property
    def const_removed(self):
        return self._inner.const_removed

    @const_removed.setter
    def const_removed(self, v):
        self._inner.const_removed = v

    @property
    def n_output_features_(self):
        return self._inner.n_output_features_

    def fit(self, d):
        self._tick()
        self._inner.fit(d)
        return self

    def basis(self, X):
        self._tick()
        return self._inner.basis(X)

    def deriv(self, X, deriv_order=1):
        self._tick()
        return self._inner.deriv(X, deriv_order)

    def hessian(self, X):
        self._tick()
        return self._inner.hessian(X)

    def antiderivative(self, X, order=1):
        self._tick()
        return self._inner.antiderivative(X, order)


# ------------------------------------------------------------------ sessions
def left_fn(xva):
    return xva["v"] * 2.0


class Session:
    def __init__(self, cfg, ds=None, basis=None, n_jobs=1, saveall=False, prefix="", verbose=False, arg=None):
        self.cfg = cfg
        self.ds = datasets(cfg) if ds is None else ds
        self.basis = make_basis(cfg["basis"]) if basis is None else basis
        self.arg = container(cfg, self.ds) if arg is None else arg
        kw = {}
        if cfg.get("L_obs"):
            kw["L_obs"] = cfg["L_obs"]
        self.est = vb.Estimator_gle(self.arg, getattr(vb, cfg["model"]), self.basis, trunc=(cfg["T"] - 0.5) * cfg["dt"], saveall=saveall, prefix=prefix, verbose=verbose or bool(cfg.get("verbose")), n_jobs=n_jobs, **kw)
        if cfg.get("rank"):  # asked for by the user
            self.est.model.rank_projection = True

    @property
    def model(self):
        return self.est.model


def npy(a):
    if a is None:
        return None
    if isinstance(a, (float, int, np.floating, np.integer)):
        return np.asarray(a)
    return np.asarray(a.values if isinstance(a, xr.DataArray) else a)


def named(a, *dims):
    """array with its axes in the given order of dimension names"""
    if not isinstance(a, xr.DataArray):
        return npy(a)
    have = [d for d in dims if d in a.dims]
    rest = [d for d in a.dims if d not in have]
    return a.transpose(*(have + rest)).values


def P_of(model):
    if not model.rank_projection or model.P_range is None:
        return None
    return npy(model.P_range)


def corr_state(est):
    """current correlation functions as plain arrays (left, right, time), or None"""
    if getattr(est, "bkbkcorrw", None) is None:
        return None
    arrs = [est.bkbkcorrw, est.bkdxcorrw, est.dotbkbkcorrw, est.dotbkdxcorrw]
    lazy = any(getattr(a, "chunks", None) for a in arrs)
    if lazy:  # lazy arrays are immutable: evaluate each only once here
        old = _LAZY.get(id(est))
        if old is not None and all(x is y for x, y in zip(old[0], arrs)):
            return dict(old[1])
    bkbk = named(est.bkbkcorrw, "dim_basis'", "dim_basis")
    bkdx = np.moveaxis(named(est.bkdxcorrw, "time_trunc", "dim_basis"), 0, -1)
    dd = est.dotbkdxcorrw
    dotbkdx = np.moveaxis(named(dd, "time_trunc", "dim_basis"), 0, -1) if isinstance(dd, xr.DataArray) else None
    db = est.dotbkbkcorrw
    dotbkbk = named(db, "dim_basis'", "dim_basis") if isinstance(db, xr.DataArray) else None
    out = {"bkbk": bkbk, "bkdx": bkdx, "dotbkbk": dotbkbk, "dotbkdx": dotbkdx}
    if lazy:
        _LAZY[id(est)] = (arrs, dict(out))
    return out


_LAZY = {}


def lift(P, name, a):
    if P is None or a is None:
        return a
    if name in ("bkbk", "dotbkbk"):
        return np.einsum("ki,klt,lj->ijt", P, a, P)
    if name in ("bkdx", "dotbkdx"):
        return np.einsum("ki,kdt->idt", P, a)
    if name == "kernel":
        return np.einsum("ki,tkd->tid", P, a)
    if name == "gram":
        return np.einsum("ki,kl,lj->ij", P, a, P)


def force_rtol(model):
    g = npy(model.gram_force)
    if g is None or not np.all(np.isfinite(g)):
        return 1e-9
    c = np.linalg.cond(g)
    return None if c > 1e7 else 1e-9 + 1e-13 * c


def lib_method(m):
    return "rect" if m in (None, "rectangular") else m


def kernel_rtol(est, method=None, k0=None):
    """how far rounding of the correlation functions can move the kernel"""
    cs = corr_state(est)
    if cs is None:
        return None
    method = lib_method(method or est.model.method)
    dt = est.dt
    if cs["dotbkdx"] is None or (cs["dotbkbk"] is None and method.startswith("second")):
        return None
    rs = np.random.RandomState(5)
    out = []
    try:
        for k in range(3):
            p = {}
            for n, a in cs.items():
                if a is None:
                    p[n] = None
                else:
                    p[n] = a + (rs.uniform(-1, 1, a.shape) * 1e-11 * np.max(np.abs(a)) if k else 0.0)
            out.append(ref.solve_kernel(method, p["bkbk"], p["bkdx"], p["dotbkbk"], p["dotbkdx"], dt, k0=k0))
    except np.linalg.LinAlgError:
        return None
    s = np.max(np.abs(out[0]))
    if not np.isfinite(s) or s == 0:
        return None
    d = max(np.max(np.abs(o - out[0])) for o in out[1:]) / s
    r = 1e-8 + 300 * d
    return r if r < 1e-3 else None


def snapshot(S):
    """everything a user can read from the estimator and its model, with tolerances: name -> (array, rtol)"""
    est = S.est
    m = est.model
    P = P_of(m)
    fr = force_rtol(m)
    out = {}
    out["force"] = (npy(m.force_coeff), fr)
    out["gram_force"] = (npy(m.gram_force), 1e-9)
    out["eff_mass"] = (npy(m.eff_mass), 1e-8)
    out["inv_mass"] = (npy(m.inv_mass_coeff), mass_rtol(S))
    gk = m.gram_kernel
    out["gram_kernel"] = (npy(gk) if P is None or gk is None or gk.shape[0] != P.shape[0] else lift(P, "gram", npy(gk)), 1e-8)
    cs = corr_state(est)
    if cs is not None:
        cr = None if fr is None else 10 * fr
        for k in cs:
            out[k] = (lift(P, k, cs[k]) if cs[k] is not None and (P is None or P.shape[0] == cs[k].shape[0]) else cs[k], 1e-9 if k in ("bkbk", "dotbkbk") else cr)
    out["method"] = (m.method, 0)
    if m.kernel is not None:
        K = named(m.kernel, "time_kernel", "dim_basis")
        out["kernel"] = (lift(P, "kernel", K) if P is None or P.shape[0] == K.shape[1] else K, getattr(S, "kr", None))
        out["kernel_time"] = (npy(m.kernel["time_kernel"]), 1e-12)
    if P is not None:
        out["P"] = (P.T @ P, 1e-6)
    out["trunc_ind"] = (int(m.trunc_ind), 0)
    out["rank_projection"] = (bool(m.rank_projection), 0)
    return out


def mass_rtol(S):
    if getattr(S, "mr", "unset") != "unset":
        return S.mr
    try:
        arrs = getattr(S, "arrs", None) or arrays(S.cfg)
        rm = ref.RModel(S.cfg["model"], S.cfg["basis"], arrs, S.cfg.get("L_obs"))
        c = np.linalg.cond(ref.gram(rm, arrs, "kernel"))
        S.mr = None if not np.isfinite(c) or c > 1e7 else 1e-9 + 1e-13 * c
    except Exception:
        S.mr = None
    return S.mr


def points(o):
    """points of evaluation in the form the user gives them"""
    form = o.get("as")
    x = np.array(o["x"], int if form == "int" else float)
    if form in (None, "int"):
        return x
    return {"list": x.tolist, "flat": x.flatten, "fortran": lambda: np.asfortranarray(x), "strided": lambda: np.repeat(x, 2, axis=0)[::2], "ds": lambda: xr.Dataset({"x": (["time", "dim_x"], x)})}[form]()


def act(S, op):
    """the library calls of one operation, nothing else"""
    w, o = op
    est, m = S.est, S.model
    if w == "mean_force":
        return est.compute_mean_force()
    if w == "zero_force":
        return est.set_zero_force()
    if w == "gram_force":
        return est.compute_gram_force()
    if w == "gram_kernel":
        return est.compute_gram_kernel()
    if w == "eff_mass":
        return est.compute_effective_mass()
    if w == "pos_mass":
        return est.compute_pos_effective_mass()
    if w == "basis_mean":
        return est.compute_basis_mean(**o)
    if w == "corrs":
        return est.compute_corrs(**o)
    if w == "kernel":
        o = dict(o)
        if "k0" in o:
            o["k0"] = make_k0(est, o["k0"])
        return est.compute_kernel(**o)
    if w == "check_inv":
        return est.check_volterra_inversion(**o)
    if w == "proj_corrs":
        return est.compute_projected_corrs(left_op=left_of(o["left"], None, S))
    if w == "corrs_noise":
        xva = S.ds[o["i"] % len(S.ds)]
        return m.compute_corrs_w_noise(xva, left_of(o["left"], xva, S))
    if w == "noise":
        xva = S.ds[o["i"] % len(S.ds)]
        kw = {k: v for k, v in o.items() if k != "i"}
        if kw.get("end_point") is not None and kw["end_point"] > 0:
            kw["end_point"] = min(kw["end_point"], xva.sizes["time"])
        return m.compute_noise(xva, **kw)
    if w == "basis_values":
        return m.basis_vector(S.ds[o["i"] % len(S.ds)], compute_for=o["for"])
    x = points(o) if "x" in o else None
    h = est if o.get("via") == "est" and est is not None and est.model is m else m
    if w == "force_eval":
        return h.force_eval(x) if "c" not in o else h.force_eval(x, given_coeffs(m, o, w))
    if w == "friction_eval":
        return h.friction_force_eval(x)
    if w == "pmf_eval":
        return h.pmf_eval(x, kT=o["kT"], set_zero=o["set_zero"], **({"coeffs": given_coeffs(m, o, w)} if "c" in o else {}))
    if w == "kernel_eval":
        return h.kernel_eval(x) if "c" not in o else h.kernel_eval(x, given_coeffs(m, o, w))
    if w == "laplace":
        return m.laplace_transform_kernel(**o)
    if w == "correl":
        t = S.ds[o["i"] % len(S.ds)]
        a, b = (np.ascontiguousarray(np.asarray(t[k].values).T) for k in ("x", "v"))
        return (vb.correlation_fft if o["fn"] == "fft" else vb.correlation_direct)(a[:, None, :], b, trunc=o["trunc"])
    if w == "const_part":
        return m.get_const_kernel_part()
    if w == "inv_mass_eval":
        return m.inv_mass_eval(x)
    if w == "save_model":
        return m.save_model()
    if w == "to_gfpe":
        return est.to_gfpe()
    if w == "evolve":
        n = m.kernel.shape[-1]
        return m.evolve_volterra(np.eye(n), o["n"], method=o["method"], trunc_ind=o.get("trunc"))
    raise ValueError(w)


def read(S, op, ret):
    """the results of an operation as {name: (array, rtol[, scale])}"""
    w, o = op
    est, m = S.est, S.model
    if w == "mean_force":
        return {"force": (npy(m.force_coeff), force_rtol(m)), "gram_force": (npy(m.gram_force), 1e-9)}
    if w == "zero_force":
        return {"force": (npy(m.force_coeff), 1e-12)}
    if w == "gram_force":
        return {"gram_force": (npy(m.gram_force), 1e-9)}
    if w == "gram_kernel":
        return {"gram_kernel": (lift(P_of(m), "gram", npy(m.gram_kernel)), 1e-9)}
    if w == "eff_mass":
        return {"eff_mass": (npy(m.eff_mass), 1e-8)}
    if w == "pos_mass":
        return {"inv_mass": (npy(m.inv_mass_coeff), mass_rtol(S))}
    if w == "basis_mean":
        return {"basis_mean": (npy(ret), 1e-9, 1.0)}
    if w == "corrs":
        fr = force_rtol(m)
        P = P_of(m)
        out = {}
        for k, a in corr_state(est).items():
            out[k] = (lift(P, k, a), 1e-9 if k in ("bkbk", "dotbkbk") else (None if fr is None else 10 * fr))
        return out
    if w == "kernel":
        S.kr = kernel_rtol(est, k0=make_k0(est, o["k0"]) if "k0" in o else None)
        K = named(m.kernel, "time_kernel", "dim_basis")
        return {"kernel": (lift(P_of(m), "kernel", K), S.kr), "kernel_time": (npy(m.kernel["time_kernel"]), 1e-12), "method": (m.method, 0)}
    if w == "check_inv":
        r = npy(ret)
        P = P_of(m)
        if P is not None and o.get("return_diff"):
            return {"check_inv_shape": (np.array(r.shape), 0)}
        kr = getattr(S, "kr", None)
        return {"check_inv": (lift(P, "bkdx", np.asarray(r)), None if kr is None else 10 * kr, float(np.max(np.abs(npy(est.bkdxcorrw)))))}
    kr = getattr(S, "kr", None)
    fr = force_rtol(m)
    dr = None if kr is None or fr is None else 30 * (kr + fr)
    if w == "proj_corrs":
        return {"time": (npy(ret[0]), 1e-9), "proj_corrs": (npy(ret[1]), dr)}
    if w == "corrs_noise":
        return {"time": (npy(ret[0]), 1e-9), "corrs_noise": (npy(ret[1]), dr)}
    if w == "noise":
        t, n, a, f, mem = ret
        sc = max(np.max(np.abs(npy(x))) for x in (n, a, f, mem))
        return {"time": (npy(t), 1e-9), "noise": (npy(n), dr, sc), "obs": (npy(a), 1e-12), "force_t": (npy(f), None if fr is None else 10 * fr, sc), "memory": (npy(mem), dr, sc)}
    if w == "basis_values":
        r = ret if isinstance(ret, tuple) else (ret,)
        return {"E%d" % i: (npy(e.transpose("time", ...)), 1e-10) for i, e in enumerate(r)}
    if w in ("force_eval", "friction_eval"):
        return {w: (npy(ret), 1e-9 if "c" in o else None if fr is None else 10 * fr)}
    if w == "pmf_eval":
        return {"pmf_eval": (npy(ret), 1e-8 if "c" in o else None if fr is None else 100 * fr)}
    if w == "kernel_eval":
        return {"kernel_eval": (named(ret, "time_kernel", "time"), None if P_of(m) is not None and "c" in o else 1e-9 if "c" in o else None if kr is None else 10 * kr)}
    if w == "laplace":
        L = npy(ret[1])
        return {"s": (npy(ret[0]), 1e-12), "laplace": (lift(P_of(m), "kernel", L), None if kr is None else 10 * kr, float(np.max(np.abs(npy(m.kernel)))))}
    if w == "correl":
        return {"correl": (npy(ret), 1e-9)}
    if w == "const_part":
        return {"const_part": (named(ret, "time_kernel"), kr)}
    if w == "inv_mass_eval":
        return {"inv_mass_eval": (npy(ret), mass_rtol(S) and 10 * mass_rtol(S))}
    if w == "save_model":
        return {"saved": (sorted(str(k) for k in ret.variables), 0)}
    if w == "to_gfpe":
        return {"L_obs": (m.L_obs, 0), "dim_obs": (int(m.dim_obs), 0)}
    if w == "evolve":
        return {"evolve": (npy(ret[1]), None if dr is None else 100 * dr)}
    raise ValueError(w)


def do(S, op):
    """execute one operation on a session; returns {name: (array, rtol)}"""
    return read(S, op, act(S, op))


def given_coeffs(m, o, w):
    """coefficients given by the user, named like those of the model"""
    rs = np.random.RandomState(o["c"])
    if w == "kernel_eval":
        n = 3 + o["c"] % 5
        return xr.DataArray(rs.normal(size=(n,) + m.kernel.shape[1:]), dims=m.kernel.dims, coords={"time_kernel": np.arange(n) * 0.1})
    n = m.N_basis_elt if w == "pmf_eval" else m.N_basis_elt_force
    return xr.DataArray(rs.normal(size=(n, m.dim_obs)), dims=m.force_coeff.dims)


def make_k0(est, seed):
    rs = np.random.RandomState(seed)
    k0 = rs.normal(size=(est.bkbkcorrw.shape[0], est.bkdxcorrw.shape[1]))
    return 0.0 * k0 if seed % 4 == 0 else k0


def left_of(l, xva, S=None):
    if l == "fn" and isinstance(getattr(S, "basis", None), FaultyBasis):  # the user's operator may fail as well

        def fn(xva):
            S.basis._tick()
            return left_fn(xva)

        return fn
    if l == "fn":
        return left_fn
    if l == "arr":
        return np.asarray(xva["x"].values) ** 2
    return l


def run_op(S, op):
    """('ok', values) or ('err', exception)"""
    try:
        return "ok", do(S, op)
    except (Violation, core.NoProgress):
        raise
    except Exception as e:
        return "err", e


def same(name, got, want, where, kind="different-result"):
    """want: (array, rtol[, scale])"""
    a, rt = want[0], want[1]
    b = got[0] if isinstance(got, tuple) else got
    if a is None or b is None or isinstance(a, (str, bool, int, list)):
        if isinstance(a, list) and isinstance(b, list) or type(a) is type(b) or a is None or b is None:
            if (a is None) != (b is None) or (a is not None and a != b):
                raise Violation(kind, "%s: %s is %s instead of %s" % (where, name, short(b), short(a)))
            return True
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(kind, "%s: %s has shape %s instead of %s" % (where, name, b.shape, a.shape))
    if rt is None or a.size == 0:
        return False
    if a.dtype.kind not in "fciu" or b.dtype.kind not in "fciu":
        if not np.array_equal(a, b):
            raise Violation(kind, "%s: %s is %s instead of %s" % (where, name, short(b), short(a)))
        return True
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        raise Violation(kind, "%s: %s is not finite at different places" % (where, name))
    if not fa.all():
        a, b = a[fa], b[fa]
        if a.size == 0:
            return False
    sc = max(want[2] if len(want) > 2 else 0.0, float(np.max(np.abs(a))))
    d = float(np.max(np.abs(a - b)))
    if d > rt * sc + 1e-300:
        raise Violation(kind, "%s: %s differs by %.3g (values up to %.3g, allowed %.2g)" % (where, name, d, sc, rt * sc))
    return True


def short(a):
    return repr(a)[:120]


def same_values(got, want, where, kind="different-result"):
    n = 0
    for k in want:
        if k not in got:
            raise Violation(kind, "%s: %s is missing" % (where, k))
        n += bool(same(k, got[k], want[k], where, kind))
    for k in got:
        if k not in want:
            raise Violation(kind, "%s: %s appeared" % (where, k))
    return n


def op_name(op):
    return op[0] + ("(%s)" % ",".join("%s=%s" % (k, v) for k, v in sorted(op[1].items(), key=str) if k != "x") if op[1] else "")


def describe_cfg(cfg):
    return "%s %s%s dim %d, %d trajectories" % (cfg["model"], cfg["basis"]["type"], "" if cfg["basis"].get("rc", True) else "(with constant)", cfg["dim"], len(cfg["lens"]))


def warm(scratch):
    """touch every code path once so that imports and caches do not happen inside runs"""
    import dask.array as da

    d = os.path.join(scratch, "warm%d" % os.getpid())
    os.makedirs(d)
    cwd = os.getcwd()
    os.chdir(d)
    import contextlib
    import io

    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for model, b, dim in (("Pos_gle", BSP, 1), ("Pos_gle_overdamped", FEM, 1), ("Pos_gle_const_kernel", TEN, 2)):
                cfg = {"model": model, "basis": b, "dim": dim, "lens": [60, 50], "T": 8, "dt": 0.1, "data": 3, "container": "list"}
                S = Session(cfg, saveall=True)
                for op in (["mean_force", {}], ["corrs", {}], ["kernel", {"method": "trapz"}], ["proj_corrs", {"left": None}], ["noise", {"i": 0}], ["kernel_eval", {"x": [[0.1] * dim]}]):
                    do(S, op)
                do(S, ["save_model", {}])
                xr.load_dataset("corrs.nc")
                ds = [x.chunk({"time": 20}) for x in datasets(cfg)]
                L = Session(cfg, ds=ds)
                do(L, ["mean_force", {}])
                do(L, ["corrs", {}])
            x = vb.xframe(da.from_array(np.arange(30.0).reshape(-1, 1) ** 2, chunks=(10, 1)), np.arange(30) * 0.1)
            vb.compute_va(x).compute()
            core.CUR = core.Sim(1)
            with core.pool(core.Pool(core.CUR)):
                S = Session(dict(cfg), n_jobs=2)
                do(S, ["mean_force", {}])
            core.CUR = None
    finally:
        os.chdir(cwd)
        import shutil

        shutil.rmtree(d, ignore_errors=True)


def pair(sa, va, sb, vb_, where, kind):
    """compare the outcome of an operation with the outcome it should have; returns the number of arrays compared"""
    if sa != sb:
        e = va if sa == "err" else vb_
        # exactly or only nearly singular depends on rounding, unless the other side found the problem well conditioned
        if isinstance(e, np.linalg.LinAlgError) and not (sa == "ok" and va and all(isinstance(v, tuple) and v[1] is not None and v[1] < 1e-4 for v in va.values())):
            raise Unstable()
        if sb == "err":
            raise Violation(kind + "-raises", "%s: raises %s: %s" % (where, type(vb_).__name__, str(vb_)[:200]))
        raise Violation(kind + "-accepts", "%s: works but should raise %s: %s" % (where, type(va).__name__, str(va)[:200]))
    if sa == "ok":
        return same_values(vb_, va, where, kind + "-differs")
    return 0


class Unstable(Exception):
    """the run hit a numerically singular problem whose outcome depends on rounding: nothing can be concluded from here on"""
