"""What every operation of a history should return, from the reference model (ref.py) and the history alone."""
import numpy as np

from . import ref, work as w
from .core import Violation


class Oracle:
    def __init__(self, cfg, arrs=None):
        self.cfg = cfg
        self.arrs = w.arrays(cfg) if arrs is None else arrs
        self.rm = ref.RModel(cfg["model"], cfg["basis"], self.arrs, cfg.get("L_obs"))
        self.obs = self.rm.L_obs
        self.rank = self.rm.rank_projection or bool(cfg.get("rank"))
        self.T = min([cfg["T"]] + [len(t["x"]) for t in self.arrs])
        self.dt = cfg["dt"]
        self.force = None
        self.gram_force = None
        self.eff_mass = None
        self.skipped = 0

    # -- helpers
    def E_proj(self, S, E):
        P = w.P_of(S.model)
        return E if P is None else E @ P.T

    def traj(self, i):
        return self.arrs[i % len(self.arrs)]

    def noise0(self, t):
        return t[self.obs] - self.rm.E_force(t) @ self.force

    def left(self, l, t):
        if l is None:
            return self.noise0(t)
        if l == "fn":
            return 2.0 * t["v"]
        if l == "arr":
            return t["x"] ** 2
        return t[l]

    def expect(self, op, S):
        """{name: array}; called after the operation succeeded on the session S"""
        name, o = op
        rm, arrs, m = self.rm, self.arrs, S.model
        K = w.named(m.kernel, "time_kernel", "dim_basis") if m.kernel is not None else None
        if name == "mean_force":
            self.gram_force = ref.gram(rm, arrs)
            rhs = ref.force_rhs(rm, arrs, self.obs)
            try:
                self.force = np.linalg.solve(self.gram_force, rhs)
            except np.linalg.LinAlgError:
                raise w.Unstable()
            return {"force": self.force, "gram_force": self.gram_force}
        if name == "zero_force":
            self.force = np.zeros((rm.E_force(arrs[0]).shape[1], arrs[0][self.obs].shape[1]))
            return {"force": self.force}
        if name == "gram_force":
            self.gram_force = ref.gram(rm, arrs)
            return {"gram_force": self.gram_force}
        if name == "gram_kernel":
            G = ref.gram(rm, arrs, "kernel")
            P = w.P_of(m)
            return {"gram_kernel": G if P is None else w.lift(P, "gram", P @ G @ P.T)}
        if name == "eff_mass":
            self.eff_mass = np.linalg.inv(ref.wavg(arrs, lambda t: ref.mean(t["v"], t["v"])))
            return {"eff_mass": self.eff_mass}
        if name == "pos_mass":
            def f(t):
                return np.einsum("nkd,nd,ne->ke", rm.E_kernel(t["x"]), t["v"], t["v"]) / len(t["x"])

            try:
                self.inv_mass = np.linalg.solve(ref.gram(rm, arrs, "kernel"), ref.wavg(arrs, f))
                return {"inv_mass": self.inv_mass}
            except np.linalg.LinAlgError:
                raise w.Unstable()
        if name == "basis_mean":
            if o.get("basis_type", "force") == "kernel":
                return {"basis_mean": ref.wavg(arrs, lambda t: rm.E_kernel(t["x"]).mean(0))}
            return {"basis_mean": ref.wavg(arrs, lambda t: rm.E_force(t).mean(0))}
        if name == "corrs":
            bkdx, dotbkdx, bkbk, dotbkbk = ref.corrs(rm, arrs, self.obs, self.force, self.T)
            if o.get("second_order_method", True) is False:
                dotbkdx, dotbkbk = dotbkdx[:, :, :1], None
            P = w.P_of(m)
            out = {"bkbk": bkbk, "bkdx": bkdx, "dotbkbk": dotbkbk, "dotbkdx": dotbkdx}
            if P is not None:
                Q = P.T @ P
                if Q.shape[0] != bkbk.shape[0]:
                    raise Violation("definition", "%s: range projection has %d columns for a basis of %d" % (name, Q.shape[0], bkbk.shape[0]))
                if np.max(np.abs(P @ P.T - np.eye(len(P)))) > 1e-8:
                    raise Violation("definition", "the range projection is not orthonormal")
                S0 = np.linalg.eigvalsh(bkbk[:, :, 0])
                tol = o.get("rank_tol")
                if tol is None:
                    tol = S0.max() * len(S0) * np.finfo(float).eps
                slack = 1.1 if tol > 1e-5 * S0.max() else 3
                for r, f in ((np.count_nonzero(S0 > slack * tol), np.greater), (np.count_nonzero(S0 > tol / slack), np.less)):
                    if f(r, len(P)):
                        raise Violation("definition", "the range projection keeps %d directions, the correlation matrix has rank %d" % (len(P), r))
                if abs(np.trace(P @ bkbk[:, :, 0] @ P.T) - np.sort(S0)[len(S0) - len(P) :].sum()) > 1e-7 * S0.max():
                    raise Violation("definition", "the range projection keeps other directions than those of largest correlation")
                out = {k: None if a is None else w.lift(P, k, np.einsum("ij,j...->i...", P, a) if k in ("bkdx", "dotbkdx") else np.einsum("ij,jkt,lk->ilt", P, a, P)) for k, a in out.items()}
            return out
        if name == "kernel":
            method = o.get("method", "rectangular")
            cs = w.corr_state(S.est)
            k0 = w.make_k0(S.est, o["k0"]) if "k0" in o else None
            try:
                Kr = ref.solve_kernel(w.lib_method(method), cs["bkbk"], cs["bkdx"], cs["dotbkbk"], cs["dotbkdx"], self.dt, k0=k0)
            except np.linalg.LinAlgError:
                raise w.Unstable()
            return {"kernel": w.lift(w.P_of(m), "kernel", Kr), "kernel_time": ref.kernel_times(method, self.T, self.dt), "method": method}
        if name == "check_inv":
            P = w.P_of(m)
            cs = w.corr_state(S.est)
            n = min(len(K), cs["bkdx"].shape[2])
            r = np.zeros(cs["bkdx"].shape)
            for i in range(n):
                for j in range(1, i + 1):
                    r[:, :, i] -= 0.5 * self.dt * (cs["bkbk"][:, :, i - j] @ K[j] + cs["bkbk"][:, :, i - j + 1] @ K[j - 1])
            if o.get("return_diff"):
                if P is not None:
                    return {"check_inv_shape": np.array(r.shape)}
                return {"check_inv": np.abs(r - cs["bkdx"])}
            return {"check_inv": w.lift(P, "bkdx", r)}
        if name in ("proj_corrs", "corrs_noise"):
            def one(t):
                return ref.projected_corrs(m.method, K, self.E_proj(S, rm.E(t)), self.noise0(t), self.left(o["left"], t), self.dt)

            tr = m.method in ("trapz", "second_kind_trapz")
            c = one(self.traj(o["i"])) if name == "corrs_noise" else ref.wavg(arrs, one)
            return {"time": w.npy(m.kernel["time_kernel"])[: len(K) - int(tr)], name: c}
        if name == "noise":
            t = self.traj(o["i"])
            n = len(t["x"])
            e = o.get("end_point")
            if e is not None and e > 0:
                e = min(e, n)
            s = slice(o.get("start_point", 0), e)
            tt = {k: v[s] for k, v in t.items()}
            tk = o.get("trunc_kernel")
            Kt = K[: self.T if tk is None else tk]
            f = rm.E_force(tt) @ self.force
            mem = ref.memory(m.method, Kt, self.E_proj(S, rm.E(tt)), self.dt)
            return {"time": tt["time"] - t["time"][0], "noise": tt[self.obs] - f - mem, "obs": tt[self.obs], "force_t": f, "memory": mem}
        if name == "basis_values":
            t = self.traj(o["i"])
            if o["for"] == "force":
                return {"E0": rm.E_force(t)}
            if o["for"] == "kernel":
                return {"E0": rm.E_kernel(t["x"])}
            return {"E0": rm.E_force(t), "E1": rm.E(t), "E2": rm.dE(t)}
        if name == "save_model":
            return None
        if name == "to_gfpe":
            for t in self.arrs:
                t["dE"] = rm.dE(t)
            self.obs = "dE"
            self.rank = False
            return {"L_obs": "dE", "dim_obs": int(self.arrs[0]["dE"].shape[1])}
        if name == "evolve":
            nf = w.npy(m.force_coeff)
            return {"evolve": ref.evolve(o["method"], K[: max(o.get("trunc") or 0, 0) or len(K)], np.eye(K.shape[-1]), nf, o["n"], self.dt)}
        if name == "correl":
            t = self.traj(o["i"])
            return {"correl": ref.corr(t["x"], t["v"], o["trunc"] or len(t["x"]))}
        if name == "laplace":
            import scipy.integrate

            t = w.npy(m.kernel["time_kernel"])
            s = np.linspace(o.get("s_start", 0.0), o.get("s_end", 1.0 / self.dt), o.get("n_points", self.T))
            return {"s": s, "laplace": w.lift(w.P_of(m), "kernel", np.stack([scipy.integrate.simpson(np.exp(-a * t)[:, None, None] * K, x=t, axis=0) for a in s]))}
        if name == "const_part":
            return {"const_part": K[:, 0]}
        X = np.array(o["x"], float)
        nb = rm.b.n
        C = w.given_coeffs(m, o, name).values if "c" in o else None
        if name == "force_eval":
            return {"force_eval": rm.b.B(X) @ (self.force[:nb] if C is None else C)}
        if name == "inv_mass_eval":
            return {"inv_mass_eval": rm.b.B(X) @ self.inv_mass}
        if name == "friction_eval":
            return {"friction_eval": np.einsum("nkd,kl->nld", rm.b.D(X), self.force[nb:])}
        if name == "pmf_eval":
            mass = np.eye(rm.dim) if self.eff_mass is None or rm.name == "Pos_gle_overdamped" else self.eff_mass
            p = -rm.b.A(X) @ (self.force[:nb] if C is None else C) @ mass / o["kT"]
            return {"pmf_eval": p - (np.min(p) if o["set_zero"] else 0.0)}
        if name == "kernel_eval":
            Ek = rm.E_kernel(X)
            P = w.P_of(m)
            if P is not None:
                Ek = np.einsum("ij,njd->nid", P, Ek)
            return {"kernel_eval": np.einsum("tkl,nkd->tnld", C if C is not None else K[:, 1:] if rm.name == "Pos_gle_hybrid" else K, Ek)}
        raise ValueError(name)

    def split(self):
        """a rank tolerance well inside a gap of the spectrum of the correlation matrix"""
        if not self.rank or self.force is None:
            return None
        S = np.linalg.eigvalsh(ref.corrs(self.rm, self.arrs, self.obs, self.force, self.T)[2][:, :, 0])[::-1]
        best = None
        for a, b in zip(S[:-1], S[1:]):
            for t in (a / 1.3, a / 2, np.sqrt(a * max(b, 1e-4 * a)), max(b, 1e-4 * a) * 1.3):
                if a > 1e-5 * S[0] and a > 1.25 * t > 1.25 * 1.25 * max(b, 1e-7 * S[0]):
                    if best is None or np.count_nonzero(S > t * S[0]) != np.count_nonzero(S > t):
                        best = float(t)
        return best

    def singular(self, op, S, e):
        """may this step have failed because its matrix is (nearly) singular?"""
        if not isinstance(e, np.linalg.LinAlgError):
            return False
        name, o = op
        if name == "kernel":
            try:
                return w.kernel_rtol(S.est, o.get("method", "rectangular"), w.make_k0(S.est, o["k0"]) if "k0" in o else None) is None
            except Exception:
                return True
        g = {"mean_force": lambda: ref.gram(self.rm, self.arrs), "pos_mass": lambda: ref.gram(self.rm, self.arrs, "kernel"), "eff_mass": lambda: ref.wavg(self.arrs, lambda t: ref.mean(t["v"], t["v"]))}.get(name)
        return g is not None and not np.linalg.cond(g()) < 1e9

    def check(self, op, S, vals, where, kind="definition"):
        """compare; returns the number of arrays compared"""
        want = self.expect(op, S)
        if want is None:
            return 0
        n = 0
        for k, v in vals.items():
            if k not in want:
                raise Violation(kind, "%s: unexpected %s" % (where, k))
            a = want[k]
            if isinstance(a, np.ndarray) and isinstance(v[0], np.ndarray) and a.shape != v[0].shape and sorted(x for x in a.shape if x > 1) == sorted(x for x in v[0].shape if x > 1):
                a = a.reshape(v[0].shape)
            n += bool(w.same(k, v, (a,) + tuple(v[1:]), where, kind))
        return n
