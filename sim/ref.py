"""Executable reference model: what the library is documented to compute, written as
plain sums over samples with no shared code, no state and no parallelism."""
import numpy as np
import scipy.interpolate as si


# ---------------------------------------------------------------- bases
def tri_mesh(spec):
    import skfem

    cx, cy, r = spec["hex"]  # six triangles around a point
    a = np.arange(6) * np.pi / 3 + 0.2
    p = np.stack([np.append(cx, cx + r * np.cos(a)), np.append(cy, cy + r * np.sin(a))])
    return skfem.MeshTri(p, np.array([[0, i + 1, (i + 1) % 6 + 1] for i in range(6)]).T)


class RBasis:
    """spec: JSON description; lo, hi, mean: description of the data (arrays of size dim)."""

    def __init__(self, spec, lo, hi, mean, rc=None):
        self.spec = spec
        self.t = spec["type"]
        self.dim = len(mean)
        if "fit_on" in spec:
            f = np.asarray(spec["fit_on"], float)
            lo, hi, mean = f.min(0), f.max(0), f.mean(0)
        self.lo, self.hi, self.mean = np.asarray(lo, float), np.asarray(hi, float), np.asarray(mean, float)
        self.rc = bool(spec.get("rc", False)) if rc is None else rc
        if self.t == "lin":
            self.rc = False
        if self.t == "bspline":
            knots = np.asarray(spec["fit_knots"], float) if "fit_knots" in spec else np.linspace(self.lo[0], self.hi[0], spec["n"])
            k = spec.get("k", 3)
            self.tv = si.splrep(knots, np.zeros(len(knots)), k=k, per=spec.get("periodic", False))
            nc = len(self.tv[1])
            self.k = k
            self.spl = [si.BSpline(self.tv[0], np.eye(nc)[i], k) for i in range(spec["n"])]
        elif self.t == "splfct":
            self.spl = [si.BSpline(np.asarray(spec["knots"], float), np.asarray(spec["coeffs"], float), spec["k"])]
        elif self.t == "combine":
            self.sub = [RBasis(s, self.lo, self.hi, self.mean) for s in spec["sub"]]
        elif self.t == "tensor":
            subs = spec["sub"] * 2 if spec.get("same") else spec["sub"]
            self.sub = [RBasis(s, self.lo[i : i + 1], self.hi[i : i + 1], self.mean[i : i + 1], rc=False) for i, s in enumerate(subs)]
            self.rc = False

    def _funcs(self):
        """1D families applied per coordinate: list of functions (x, order) -> value; order -1 is the primitive."""
        s = self.spec
        if self.t == "poly":
            P = getattr(np.polynomial, s.get("polynom", "Polynomial"))

            def mk(n):
                p = P.basis(n)
                return lambda x, o: p(x) if o == 0 else (p.integ(1)(x) if o < 0 else p.deriv(o)(x))

            return [mk(n) for n in range(s["deg"] + 1)]
        if self.t == "fourier":
            f0 = s.get("freq", 1.0)

            def const(x, o):
                return np.ones_like(x) / np.sqrt(2 * np.pi) if o == 0 else (x / np.sqrt(2 * np.pi) if o < 0 else np.zeros_like(x))

            def mks(m, cosine):
                w = m * f0

                def f(x, o):
                    ph = np.pi / 2 if cosine else 0.0
                    # derivative of order o of sin(w x + ph)
                    return w ** float(o) * np.sin(w * x + ph + o * np.pi / 2) / np.sqrt(np.pi)

                return f

            out = [const]
            for m in range(1, s["order"] + 1):
                out += [mks(m, False), mks(m, True)]
            return out
        if self.t in ("bspline", "splfct"):

            def mkb(b):
                def f(x, o):
                    if o == 0:
                        return b(x)
                    if o < 0:
                        return b.antiderivative(1)(x)
                    return b.derivative(o)(x) if o <= b.k else np.zeros_like(x)

                return f

            return [mkb(b) for b in self.spl]
        if self.t == "lin":
            mean = self.mean if s.get("center") else np.zeros(self.dim)

            def lin(x, o, i):
                if o == 0:
                    return x - mean[i]
                if o < 0:
                    return 0.5 * x * x - mean[i] * x
                return np.ones_like(x) if o == 1 else np.zeros_like(x)

            return lin
        if self.t == "si":
            shape = s.get("boundary", "tricube")
            bnd = s["bounds"]

            def step(n, x, o):
                a, b = min(bnd[n]), max(bnd[n])
                u = (x - a) / (b - a)
                p = {"tricube": np.poly1d([-1, 0, 0, 1]) ** 3, "triweight": np.poly1d([-1, 0, 1]) ** 3, "quartic": np.poly1d([-1, 0, 1]) ** 2, "callable": np.poly1d([2, -3, 0, 1])}[shape]
                if o == 0:
                    return np.where(u < 0, 1.0, np.where(u > 1, 0.0, p(u)))
                return np.where((u < 0) | (u > 1), 0.0, p.deriv(o)(u) / (b - a) ** o)

            n = len(bnd)

            def mk(i):
                def f(x, o):
                    one = 1.0 if o == 0 else 0.0
                    r = step(i, x, o) if i < n else one * np.ones_like(x)
                    if i > 0:  # boundaries do not overlap: products reduce to differences
                        r = r - step(i - 1, x, o)
                    if i == 0 and s.get("periodic"):
                        r = r + one - step(n - 1, x, o)
                    return r

                return f

            return [mk(i) for i in range(n + (0 if s.get("periodic") else 1))]
        if self.t == "fem" and s.get("order") == 2:  # vertices, then the middle of the cells
            nodes = np.asarray(s["nodes"], float)
            m = len(nodes) - 1

            def quad(j):
                def f(x, o):
                    c = np.clip(np.searchsorted(nodes, x, side="right") - 1, 0, m - 1)
                    h = nodes[c + 1] - nodes[c]
                    u = (x - nodes[c]) / h
                    left, right, mid = np.poly1d([2, -3, 1]), np.poly1d([2, -1, 0]), np.poly1d([-4, 4, 0])
                    P = [(mid, c == j - m - 1)] if j > m else [(left, c == j), (right, c == j - 1)]
                    return sum(np.where(w, p.deriv(o)(u) if o else p(u), 0.0) for p, w in P) / h**o

                return f

            return [quad(j) for j in range(2 * m + 1)]
        if self.t == "fem":
            nodes = np.asarray(s["nodes"], float)

            def hat(i):
                y = np.zeros(len(nodes))
                y[i] = 1.0

                def f(x, o):
                    if o == 0:
                        return np.interp(x, nodes, y)
                    c = np.clip(np.searchsorted(nodes, x, side="right") - 1, 0, len(nodes) - 2)
                    return (y[c + 1] - y[c]) / (nodes[c + 1] - nodes[c]) if o == 1 else np.zeros_like(x)

                return f

            return [hat(i) for i in range(len(nodes))]
        raise ValueError(self.t)

    def _eval(self, X, o):
        """o=0 values (N,nb); o=-1 primitives (N,nb); o=1 gradient (N,nk,dim); o=2 hessian"""
        X = np.asarray(X, float)
        N, dim = X.shape
        if self.t == "combine":
            return np.concatenate([b._eval(X, o) for b in self.sub], axis=1)
        if self.t == "fem" and "hex" in self.spec:
            return self._triangles(X, o)
        if self.t == "tensor":
            a, b = self.sub
            xa, xb = X[:, :1], X[:, 1:]
            na, nb = a.n, b.n
            if o == 0:
                return np.stack([a.B(xa)[:, i] * b.B(xb)[:, j] for i in range(na) for j in range(nb)], axis=1)
            A0, B0, A1, B1 = a.B(xa), b.B(xb), a.D(xa)[:, :, 0], b.D(xb)[:, :, 0]
            if o == 1:
                return np.stack([np.stack([A1[:, i] * B0[:, j], A0[:, i] * B1[:, j]], axis=-1) for i in range(na) for j in range(nb)], axis=1)
            A2, B2 = a.H(xa)[:, :, 0, 0], b.H(xb)[:, :, 0, 0]
            out = np.zeros((N, na * nb, 2, 2))
            for i in range(na):
                for j in range(nb):
                    k = i * nb + j
                    out[:, k, 0, 0] = A2[:, i] * B0[:, j]
                    out[:, k, 1, 1] = A0[:, i] * B2[:, j]
                    out[:, k, 0, 1] = out[:, k, 1, 0] = A1[:, i] * B1[:, j]
            return out
        if self.t == "lin":
            f = self._funcs()
            cols = [[(lambda x, o, i=i: f(x, o, i)) for i in range(dim)]]
        else:
            cols = [[g] * dim for g in self._funcs()]
            if o > 0 and self.rc:  # constant removed from the derivatives
                cols = cols[:-1] if self.t == "bspline" else cols[1:]
        if o <= 0:
            return np.stack([fs[i](X[:, i], o) for fs in cols for i in range(dim)], axis=1)
        out = np.zeros((N, len(cols) * dim) + (dim,) * o)
        for n, fs in enumerate(cols):
            for i in range(dim):
                out[(slice(None), n * dim + i) + (i,) * o] = fs[i](X[:, i], o)
        return out

    def _triangles(self, X, o):
        """linear functions on triangles, searched one by one"""
        m = tri_mesh(self.spec)
        p, t = m.p.T, m.t.T
        N = len(X)
        best = np.full(N, -np.inf)
        out = np.zeros((N, len(p)) + (2,) * o)
        for tri in t:
            A = np.concatenate([p[tri], np.ones((3, 1))], axis=1)
            C = np.linalg.inv(A)  # column j: coefficients of the j-th barycentric coordinate
            lam = np.concatenate([X, np.ones((N, 1))], axis=1) @ C
            take = lam.min(axis=1) > best
            best = np.where(take, lam.min(axis=1), best)
            out[take] = 0.0
            for j in range(3):
                out[take, tri[j]] = lam[take, j] if o == 0 else (C[:2, j] if o == 1 else 0.0)
        return out

    @property
    def n(self):
        return self.B(np.asarray(self.mean)[None, :]).shape[1]

    def B(self, X):
        return self._eval(X, 0)

    def D(self, X):
        return self._eval(X, 1)

    def H(self, X):
        return self._eval(X, 2)

    def A(self, X):
        return self._eval(X, -1)


# ---------------------------------------------------------------- models
RANK_MODELS = ("Pos_gle", "Pos_gle_with_friction")
NO_CONST = ("Pos_gle_no_vel_basis", "Pos_gle_hybrid", "Pos_gle_overdamped")


class RModel:
    def __init__(self, name, basis_spec, trajs, L_obs=None):
        self.name = name
        lens = np.array([len(t["x"]) for t in trajs], float)
        lo = np.min([t["x"].min(0) for t in trajs], axis=0)
        hi = np.max([t["x"].max(0) for t in trajs], axis=0)
        mean = sum(t["x"].mean(0) * n for t, n in zip(trajs, lens)) / lens.sum()
        self.b = RBasis(basis_spec, lo, hi, mean, rc=False if name in NO_CONST else None)
        if self.b.t == "combine" and name in NO_CONST:
            for s in self.b.sub:
                pass
        self.dim = len(mean)
        self.L_obs = L_obs or ("v" if name in ("Pos_gle_no_vel_basis", "Pos_gle_overdamped") else "a")
        self.rank_projection = name in RANK_MODELS and not self._rc()

    def _rc(self):
        if self.b.t == "combine":
            return any(s.rc for s in self.b.sub)
        return self.b.rc

    def E_force(self, t):
        bk = self.b.B(t["x"])
        if self.name == "Pos_gle_with_friction":
            return np.concatenate([bk, np.einsum("nkd,nd->nk", self.b.D(t["x"]), t["v"])], axis=1)
        return bk

    def E(self, t):
        n = self.name
        if n in RANK_MODELS:
            return np.einsum("nkd,nd->nk", self.b.D(t["x"]), t["v"])
        if n == "Pos_gle_const_kernel":
            return t["v"]
        if n == "Pos_gle_hybrid":
            return np.concatenate([t["v"], self.b.B(t["x"])], axis=1)
        return self.b.B(t["x"])

    def dE(self, t):
        n = self.name
        if n in RANK_MODELS:
            return np.einsum("nkd,nd->nk", self.b.D(t["x"]), t["a"]) + np.einsum("nkde,nd,ne->nk", self.b.H(t["x"]), t["v"], t["v"])
        if n == "Pos_gle_const_kernel":
            return t["a"]
        d = np.einsum("nkd,nd->nk", self.b.D(t["x"]), t["v"])
        if n == "Pos_gle_hybrid":
            return np.concatenate([t["a"], d], axis=1)
        return d

    def E_kernel(self, X):
        """(N, nk, dim_x) used to evaluate the kernel"""
        n = self.name
        if n in RANK_MODELS:
            return self.b.D(X)
        if n == "Pos_gle_const_kernel":
            return np.repeat(np.eye(self.dim)[None], len(X), axis=0)
        return np.repeat(self.b.B(X)[:, :, None], self.dim, axis=2)


# ---------------------------------------------------------------- estimates
def wavg(trajs, f):
    n = [len(t["x"]) for t in trajs]
    tot = float(sum(n))
    return sum(f(t) * (m / tot) for t, m in zip(trajs, n))


def mean(a, b):
    """<a_i b_j> over the samples"""
    return np.einsum("n...,nj->...j", a, b) / len(a)


def corr(a, b, T):
    """C[i,j,t] = sum_s a_i(s) b_j(s+t) / (N-t)"""
    N = len(a)
    T = min(N, T)
    out = np.zeros((a.shape[1], b.shape[1], T))
    for t in range(T):
        out[:, :, t] = a[: N - t].T @ b[t:] / (N - t)
    return out


def gram(rm, trajs, what="force"):
    f = rm.E_force if what == "force" else (lambda t: rm.E_kernel(t["x"]))
    if what == "force":
        return wavg(trajs, lambda t: mean(f(t), f(t)))
    # E_kernel keeps the spatial index: summed over, as in xr.dot over common dims
    return wavg(trajs, lambda t: np.einsum("nkd,nld->kl", f(t), f(t)) / len(t["x"]))


def force_rhs(rm, trajs, obs):
    return wavg(trajs, lambda t: mean(rm.E_force(t), t[obs]))


def corrs(rm, trajs, obs, coeff, T):
    def one(t):
        xi = t[obs] - rm.E_force(t) @ coeff
        E, dE = rm.E(t), rm.dE(t)
        return corr(E, xi, T), corr(dE, xi, T), corr(E, E, T), corr(dE, E, T)

    n = [len(t["x"]) for t in trajs]
    res = [one(t) for t in trajs]
    tot = float(sum(n))
    return [sum(r[i] * (m / tot) for r, m in zip(res, n)) for i in range(4)]


def volterra_residual(method, K, k0, bkbk, bkdx, dotbkbk, dotbkdx, dt):
    """Residual of the discretised Volterra equation and its scale, per time index.
    bkbk (nb,nb,T) first index is the left one; bkdx (nb,dim,T)."""
    T = bkbk.shape[2]
    res = []

    def term(B, Kj, w=1.0):
        return w * (B @ Kj), abs(w) * (np.abs(B) @ np.abs(Kj))

    def acc(terms, rhs):
        r = sum(a for a, _ in terms) - rhs
        s = sum(b for _, b in terms) + np.abs(rhs)
        res.append(np.max(np.abs(r)) / (np.max(s) + 1e-300))

    if method in ("rect", "rectangular"):
        # sum_{j<=i} dt B(i+1-j) K(j) = -DxB(i+1); the entry beyond the last equation is not determined
        for i in range(min(len(K), T - 1)):
            acc([term(bkbk[:, :, i + 1 - j], K[j], dt) for j in range(i + 1)], -bkdx[:, :, i + 1])
    elif method == "midpoint":
        for i in range(min(len(K), T // 2)):
            ts = [term(bkbk[:, :, 1], K[i], 2 * dt)]
            ts += [term(bkbk[:, :, 2 * (i - j)], K[j], 2 * dt) for j in range(i)]
            acc(ts, -bkdx[:, :, 2 * i + 1])
    elif method == "trapz_raw":
        for i in range(1, min(len(K), T)):
            ts = [term(bkbk[:, :, i], K[0], 0.5 * dt)]
            ts += [term(bkbk[:, :, i - j], K[j], dt) for j in range(1, i)]
            ts += [term(bkbk[:, :, 0], K[i], 0.5 * dt)]
            acc(ts, -bkdx[:, :, i])
    elif method == "second_kind_rect":
        for i in range(1, min(len(K), T)):
            ts = [term(dotbkbk[:, :, i - j], K[j], -dt) for j in range(i)] + [term(bkbk[:, :, 0], K[i])]
            acc(ts, dotbkdx[:, :, i])
    elif method == "second_kind_trapz":
        for i in range(1, min(len(K), T)):
            ts = [term(dotbkbk[:, :, i], K[0], -0.5 * dt)] + [term(dotbkbk[:, :, i - j], K[j], -dt) for j in range(1, i)]
            ts += [term(bkbk[:, :, 0], K[i]), term(dotbkbk[:, :, 0], K[i], -0.5 * dt)]
            acc(ts, dotbkdx[:, :, i])
    else:
        raise ValueError(method)
    return res


def solve_kernel(method, bkbk, bkdx, dotbkbk, dotbkdx, dt, k0=None):
    """Reference solution of the discretised equation (forward substitution)."""
    T = bkbk.shape[2]
    nb, dx = bkdx.shape[:2]
    if k0 is None and method in ("trapz", "second_kind_rect", "second_kind_trapz"):
        k0 = np.linalg.solve(bkbk[:, :, 0], dotbkdx[:, :, 0])
    if method in ("rect", "rectangular"):
        K = np.zeros((T, nb, dx))
        for i in range(T - 1):
            s = bkdx[:, :, i + 1] + dt * sum((bkbk[:, :, i + 1 - j] @ K[j] for j in range(i)), np.zeros((nb, dx)))
            K[i] = -np.linalg.solve(dt * bkbk[:, :, 1], s)
        return K
    if method == "midpoint":
        n = T // 2
        K = np.zeros((n, nb, dx))
        for i in range(n):
            s = bkdx[:, :, 2 * i + 1] + 2 * dt * sum((bkbk[:, :, 2 * (i - j)] @ K[j] for j in range(i)), np.zeros((nb, dx)))
            K[i] = -np.linalg.solve(2 * dt * bkbk[:, :, 1], s)
        return K
    if method == "midpoint_w_richardson":
        a = solve_kernel("midpoint", bkbk, bkdx, dotbkbk, dotbkdx, dt)
        b = solve_kernel("midpoint", bkbk[:, :, ::3], bkdx[:, :, ::3], None, None, 3 * dt)
        return (9 * a[::3][: len(b)] - b) / 8
    if method in ("trapz", "trapz_raw"):
        K = np.zeros((T, nb, dx))
        K[0] = k0
        for i in range(1, T):
            s = bkdx[:, :, i] + 0.5 * dt * bkbk[:, :, i] @ K[0] + dt * sum((bkbk[:, :, i - j] @ K[j] for j in range(1, i)), np.zeros((nb, dx)))
            K[i] = -np.linalg.solve(0.5 * dt * bkbk[:, :, 0], s)
        if method == "trapz_raw":
            return K
        out = [K[0]] + [0.5 * (K[i] + 0.5 * (K[i - 1] + K[i + 1])) for i in range(1, T - 1)]
        return np.array(out)
    if method == "second_kind_rect":
        K = np.zeros((T, nb, dx))
        K[0] = k0
        for i in range(1, T):
            s = dotbkdx[:, :, i] + dt * sum((dotbkbk[:, :, i - j] @ K[j] for j in range(i)), np.zeros((nb, dx)))
            K[i] = np.linalg.solve(bkbk[:, :, 0], s)
        return K
    if method == "second_kind_trapz":
        K = np.zeros((T, nb, dx))
        K[0] = k0
        for i in range(1, T):
            s = dotbkdx[:, :, i] + 0.5 * dt * dotbkbk[:, :, i] @ K[0] + dt * sum((dotbkbk[:, :, i - j] @ K[j] for j in range(1, i)), np.zeros((nb, dx)))
            K[i] = np.linalg.solve(bkbk[:, :, 0] - 0.5 * dt * dotbkbk[:, :, 0], s)
        return K
    raise ValueError(method)


def kernel_times(method, T, dt):
    t = np.arange(T) * dt
    if method == "midpoint":
        return t[:-1:2]
    if method == "midpoint_w_richardson":
        return t[:-3:6]
    if method == "trapz":
        return t[:-1]
    return t


def memory(method, K, E, dt):
    L, M = len(E), len(K)
    out = np.zeros((L, K.shape[2]))
    trapz = method in ("trapz", "second_kind_trapz")
    for i in range(1, L):
        last = min(i, M - 1)
        for j in range(last + 1):
            w = 1.0
            if trapz:
                w = 0.5 if j in (0, last) else 1.0
            out[i] -= w * dt * (E[i - j] @ K[j])
    return out


def projected_corrs(method, K, E, noise, left, dt):
    L, M = len(E), len(K)
    trapz = method in ("trapz", "second_kind_trapz")
    nmax = M - 1 if trapz else M
    out = np.zeros((nmax, left.shape[1], noise.shape[1]))
    for n in range(nmax):
        m = L - n
        ns = noise[n : n + m].copy()
        for j in range(n):
            if trapz:
                ns += 0.5 * dt * (E[n - j : n - j + m] @ K[j] + E[n - j - 1 : n - j - 1 + m] @ K[j + 1])
            else:
                ns += dt * (E[n - j : n - j + m] @ K[j])
        out[n] = left[:m].T @ ns / m
    return out


# ---------------------------------------------------------------- integration
def integrate(bfun, dfun, const_kernel, coeff, K, dt, n_steps, x0, v0, noise):
    """RK4 with trapezoidal memory.  x0, v0: (n0, dim) known points."""
    dim = x0.shape[1]
    x, v = np.zeros((n_steps, dim)), np.zeros((n_steps, dim))
    n0 = len(x0)
    x[:n0], v[:n0] = x0, v0

    def E_of(xx, vv):
        return vv[0] if const_kernel else np.einsum("kd,d->k", dfun(xx)[0], vv[0])

    E = [E_of(x[i : i + 1], v[i : i + 1]) for i in range(n0)]
    M = len(K)

    def mem(i):  # memory of the points before i, without the current one
        if i == 0:
            return np.zeros(dim)
        last = min(i, M - 1)
        s = sum((E[i - j] @ K[j] for j in range(1, last)), np.zeros(dim))
        return dt * s + 0.5 * dt * (E[i - last] @ K[last])

    for i in range(n0, n_steps):
        now, before, lastE = mem(i), mem(i - 1), E[i - 1]

        def acc(xx, vv, al):
            m = al * (before + 0.5 * dt * lastE @ K[0]) + (1 - al) * (now + 0.5 * dt * E_of(xx, vv) @ K[0])
            return bfun(xx) @ coeff + noise[i] - m

        X, V = x[i - 1 : i], v[i - 1 : i]
        k1x, k1 = V, acc(X, V, 1.0)
        k2x, k2 = V + k1 * dt / 2, acc(X + k1x * dt / 2, V + k1 * dt / 2, 0.5)
        k3x, k3 = V + k2 * dt / 2, acc(X + k2x * dt / 2, V + k2 * dt / 2, 0.5)
        k4x, k4 = V + k3 * dt, acc(X + k3x * dt, V + k3 * dt, 0.0)
        x[i] = (X + dt * (k1x + 2 * k2x + 2 * k3x + k4x) / 6)[0]
        v[i] = (V + dt * (k1 + 2 * k2 + 2 * k3 + k4) / 6)[0]
        E.append(E_of(x[i : i + 1], v[i : i + 1]))
    return x, v


def colored_noise(K, dt, white):
    """white: (dim, size).  Valid for kernels with a positive spectrum."""
    M, dim = K.shape[0], K.shape[2]
    size = white.shape[1]
    out = np.zeros((max(size, 2 * M - 1), dim))
    for d in range(dim):
        ks = np.concatenate([K[:0:-1, d, d], K[:, d, d]])
        n = len(ks)
        t = np.arange(-(M - 1), M) * dt
        w = 2 * np.pi * np.fft.fftfreq(n) / dt
        S = np.array([np.sum(ks * np.cos(wi * t)) for wi in w]) * dt
        if np.min(S) < 1e-9 * np.max(np.abs(S)):
            return None
        sq = np.array([np.sum(np.sqrt(S) * np.cos(w * ti)) for ti in t]) / (n * dt)
        full = np.convolve(white[d], sq, mode="same")
        out[: len(full), d] = full
    return out[:size] * np.sqrt(dt)


# ---------------------------------------------------------------- frames
def compute_va(x, dt, lamb=0.5):
    d = x[1:] - x[:-1]
    v = (lamb * d[1:] + (1 - lamb) * d[:-1]) / dt
    a = (d[1:] - d[:-1]) / dt**2
    return x[1:-1], v, a


def wrapped(x, share):
    """positions folded into one period, longer than twice the largest step; returns (positions, period, threshold)"""
    p = max(3 * np.abs(np.diff(x, axis=0)).max(), share * np.ptp(x), 1e-3)
    return x - p * np.floor(x / p + 0.5), p, 0.55 * p


def compute_va_gjf(x, dt):
    d = x[1:] - x[:-1]
    return x[1:-1], d[:-1] / dt, (d[1:] - d[:-1]) / dt**2


def evolve(method, K, G0, f, n, dt):
    """the discretised evolution dE/dt = E f - int K E, implicit in the instantaneous part of the memory"""
    m = len(K) - 1
    half = 1.0 if method == "rect" else 0.5
    inv = np.linalg.inv(np.eye(K.shape[1]) + half * dt**2 * K[0])
    E = [np.array(G0, float)]
    for i in range(1, n):
        past = min(i, m) - (method == "rect")
        mem = sum((dt * E[i - j] @ K[j] for j in range(1, past)), np.zeros(E[0].shape))
        e = (E[-1] + dt * (E[-1] @ f - mem)) @ inv
        if method == "trapz_stab":
            e = np.maximum(e, 0.0)
            e = e / e.sum()
        E.append(e)
    return np.stack(E, -1)
