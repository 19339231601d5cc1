"""Generators of configurations and histories (plain python: also used by the runner process)."""

# ------------------------------------------------------------------ configurations (pure python, used by the runner too)
LIN = {"type": "lin"}
LINC = {"type": "lin", "center": True}
BSP = {"type": "bspline", "n": 5, "k": 3, "rc": True}
BSPF = {"type": "bspline", "n": 5, "k": 3, "rc": False}
BSP4 = {"type": "bspline", "n": 4, "k": 2, "rc": True}
POLY = {"type": "poly", "deg": 2, "rc": True}
POLYF = {"type": "poly", "deg": 2, "rc": False}
POLYC = {"type": "poly", "deg": 3, "polynom": "Chebyshev", "rc": True}
FOU = {"type": "fourier", "order": 1, "freq": 1.0, "rc": True}
FOU2 = {"type": "fourier", "order": 2, "freq": 0.8, "rc": True}
FOUF = {"type": "fourier", "order": 1, "freq": 0.9, "rc": False}
SI = {"type": "si", "bounds": [[-1.0, -0.4], [0.2, 0.9]], "boundary": "tricube"}
SIQ = {"type": "si", "bounds": [[-0.7, 0.3]], "boundary": "triweight"}
SPL = {"type": "splfct", "knots": [-9, -8, -7, -6, 0, 6, 7, 8, 9], "coeffs": [3.0, -2.5, 4.0, -1.0, 2.0], "k": 3}
COMB = {"type": "combine", "sub": [LIN, SPL]}
COMB3 = {"type": "combine", "sub": [LIN, SPL, {"type": "fourier", "order": 1, "freq": 1.1, "rc": True}]}
COMB3F = {"type": "combine", "sub": [LIN, SPL, {"type": "fourier", "order": 1, "freq": 1.1, "rc": False}]}
FEM = {"type": "fem", "nodes": [-8.0, -1.2, -0.4, 0.4, 1.2, 8.0]}
TEN = {"type": "tensor", "sub": [{"type": "poly", "deg": 1, "rc": False}, {"type": "poly", "deg": 1, "rc": False}]}
TENB = {"type": "tensor", "sub": [{"type": "poly", "deg": 1, "rc": False}, {"type": "fourier", "order": 1, "freq": 0.7, "rc": False}]}
BSPP = {"type": "bspline", "n": 6, "k": 3, "rc": False, "periodic": True}
BSP1 = {"type": "bspline", "n": 5, "k": 1, "rc": True}
POLYL = {"type": "poly", "deg": 2, "polynom": "Legendre", "rc": True}
POLYH = {"type": "poly", "deg": 3, "polynom": "Hermite", "rc": True}
SIR = {"type": "si", "bounds": [[-0.9, -0.3], [1.0, 0.3]], "boundary": "quartic"}
SIP = {"type": "si", "bounds": [[-1.0, -0.5], [0.4, -0.1], [1.1, 0.7]], "boundary": "triweight", "periodic": True}
SIC = {"type": "si", "bounds": [[0.5, -0.5]], "boundary": "callable"}
FEMP2 = {"type": "fem", "nodes": [-4.0, 0.2, 4.0], "order": 2}
FEM2 = {"type": "fem", "hex": [0.2, 0.1, 6.0]}
TENN = {"type": "tensor", "sub": [{"type": "poly", "deg": 1, "rc": False}], "same": True}
TENS = {"type": "tensor", "sub": [{"type": "bspline", "n": 4, "k": 2, "rc": False}, {"type": "lin"}]}
TENI = {"type": "tensor", "sub": [{"type": "poly", "deg": 1, "rc": False}, {"type": "si", "bounds": [[-0.7, 0.3]], "boundary": "quartic"}]}
FOU4 = {"type": "fourier", "order": 4, "freq": 0.6, "rc": True}
POLY5 = {"type": "poly", "deg": 5, "polynom": "Chebyshev", "rc": True}
BSP9 = {"type": "bspline", "n": 9, "k": 3, "rc": True}
BSPK4 = {"type": "bspline", "n": 6, "k": 4, "rc": False}
BSPK5 = {"type": "bspline", "n": 7, "k": 5, "rc": True}
COMBP = {"type": "combine", "sub": [POLY, {"type": "bspline", "n": 4, "k": 3, "rc": True}]}
COMBS = {"type": "combine", "sub": [SI, LIN]}
TENF = {"type": "tensor", "sub": [{"type": "fourier", "order": 1, "freq": 0.7, "rc": False}, {"type": "bspline", "n": 4, "k": 3, "rc": False}]}

TABLE1 = {
    "Pos_gle": [LIN, LINC, BSP, BSPF, BSP4, BSP1, POLY, POLYC, POLYL, POLYH, FOU, FOU2, COMB, POLYF, FOUF, FOU4, POLY5, BSP9, BSPK4, BSPK5],
    "Pos_gle_with_friction": [LIN, LINC, BSP, BSP4, POLY, POLYL, FOU],
    "Pos_gle_no_vel_basis": [LIN, LINC, BSP, BSPF, POLY, FOU, SI, SIQ, SIR, SIP, FEM, FEMP2, COMB, COMB3F, FOU4, BSPK5],
    "Pos_gle_const_kernel": [LIN, LINC, BSP, BSPF, POLY, POLYF, FOU, FOUF, SI, SIC, SPL, FEM, FEMP2, BSPP, COMB, COMB3, COMBP, FOU4, POLY5, BSP9, BSPK4],
    "Pos_gle_hybrid": [LIN, LINC, BSP, BSPF, POLY, FOU, SI, SIR, FEM, FOU4, BSPK4],
    "Pos_gle_overdamped": [LIN, LINC, BSP, BSPF, POLY, FOU, FOUF, SI, SIQ, SIP, SIC, FEM, FEMP2, POLYH, COMB, COMBS, FOU4],
}
TABLE2 = {
    "Pos_gle": [LIN, LINC, TEN, TENB],
    "Pos_gle_with_friction": [LIN, LINC],
    "Pos_gle_no_vel_basis": [LIN, LINC, TEN, TENB, TENN, TENI, TENF, FEM2],
    "Pos_gle_const_kernel": [LIN, LINC, TEN, TENB, TENN, TENS, FEM2],
    "Pos_gle_hybrid": [LIN],
    "Pos_gle_overdamped": [LIN, LINC, TEN, TENB, TENS, TENI, FEM2],
}
TABLE3 = {m: [LIN, LINC] for m in TABLE2}
MODELS = list(TABLE1)
METHODS = ["rect", "rectangular", "midpoint", "midpoint_w_richardson", "trapz", "second_kind_rect", "second_kind_trapz"]
NOISE_METHODS = ["rect", "rectangular", "trapz", "second_kind_rect", "second_kind_trapz"]
NO_PMF = ("si", "fem", "combine", "tensor")


def gen_cfg(rng, models=None, dim=None, ntraj=None, small=False, bases=None, short=True, huge=0.0):
    r = rng.random()
    dim = dim or (3 if r < 0.03 else 2 if r < 0.28 else 1)
    model = rng.choice(models or MODELS)
    tab = (TABLE1, TABLE2, TABLE3)[dim - 1][model]
    if bases:
        tab = [b for b in tab if b["type"] in bases] or tab
    n = ntraj or rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 9])
    T = rng.randint(6, 14)
    lens = []
    for _ in range(n):
        r = rng.random()
        if r < 0.2:
            L = rng.choice([32, 64, 128, 33, 65, 63])
        elif r < 0.3:
            L = rng.randint(T + 3, T + 8)
        else:
            L = rng.randint(30, 70 if small else 110)
        lens.append(L)
    if max(lens) < 40:
        lens[rng.randrange(n)] = rng.randint(60, 110)
    if short and n > 1 and rng.random() < 0.12:  # one trajectory shorter than the truncation
        T = rng.randint(12, 16)
        lens[rng.randrange(n)] = rng.randint(9, 11)
    cfg = {"model": model, "basis": rng.choice(tab), "dim": dim, "lens": lens, "T": T, "dt": rng.choice([0.05, 0.1, 0.1, 0.2, 0.125]), "data": rng.randrange(1 << 30), "container": rng.choice(["list", "list", "tuple"])}
    if n == 1:
        cfg["container"] = rng.choice(["single", "list", "tuple"])
    if model in ("Pos_gle_no_vel_basis", "Pos_gle_overdamped") and rng.random() < 0.15:
        cfg["L_obs"] = "a"
    elif rng.random() < 0.07:
        cfg["L_obs"] = "w"
        if rng.random() < 0.5 and model != "Pos_gle_const_kernel":  # that kernel lives on the positions
            cfg["n_obs"] = rng.choice([n for n in (1, 2, 3) if n != dim])
    if model == "Pos_gle_overdamped" and rng.random() < 0.15:
        cfg["rank"] = True
    if rng.random() < 0.12:
        cfg["verbose"] = True
    r = rng.random()
    if r < 0.12 and cfg["basis"]["type"] not in ("fem", "splfct"):  # the basis was fitted by the user before, on other data
        cfg["basis"] = dict(cfg["basis"], fit_on=[[round(rng.uniform(*q), 2) for _ in range(dim)] for q in ((-2.2, -1.2), (1.2, 2.4), (-0.5, 1.0))])
        if cfg["basis"]["type"] == "bspline" and dim == 1 and rng.random() < 0.5:  # with knots of his choice
            n = cfg["basis"]["n"]
            cfg["basis"]["fit_knots"] = [round(-1.6 + 3.3 * (k + rng.uniform(-0.3, 0.3)) / (n - 1), 3) for k in range(n)]
    elif r < 0.14 and short:  # a record much longer than the others
        lens[rng.randrange(n)] = rng.choice([600, 1023, 2050, 4200])
    elif r < 0.155 and n > 2 and short:  # many
        cfg["lens"] = lens + [rng.randint(T + 3, T + 12) for _ in range(rng.choice([9, 14, 24]))]
    if rng.random() < huge and cfg["basis"]["type"] != "fem":
        lens = list(lens[:3])
        lens[rng.randrange(len(lens))] = rng.choice([9000, 17000, 33000, 33000])
        cfg["lens"] = lens
    if rng.random() < 0.12:
        cfg["form"] = rng.choice(["fortran", "frame", "scalar"] + ["int"] * (cfg["basis"]["type"] != "fem"))
    if rng.random() < 0.08:
        cfg["gap"] = rng.randint(1, 60)
    if rng.random() < 0.35:  # pieces of longer records: each with its own time origin
        cfg["t0"] = [rng.choice([0, rng.randint(1, 12), rng.randint(20, 3000)]) for _ in lens]
    return cfg


def has_pmf(cfg):
    return cfg["basis"]["type"] not in NO_PMF and "n_obs" not in cfg


def gen_corrs(rng, second=None):
    o = {}
    if rng.random() < 0.7:
        o["method"] = rng.choice(["fft", "direct"])
    if rng.random() < 0.4:
        o["vectorize"] = True
    if second is False or (second is None and rng.random() < 0.2):
        o["second_order_method"] = False
    if rng.random() < 0.7:
        o["rank_tol"] = 1e-9
    return o


def gen_points(rng, cfg):
    n = rng.choice([1, 2, 5, 9])
    return [[round(rng.uniform(-1.3, 1.3), 3) for _ in range(cfg["dim"])] for _ in range(n)]


EVALS = ["force_eval", "pmf_eval", "kernel_eval", "basis_values", "noise", "corrs_noise", "proj_corrs", "save_model"]


def gen_eval(rng, cfg, what=None, method=None):
    """an evaluation possible once force, corrs and kernel are there"""
    b = cfg["basis"]["type"]
    opts = ["force_eval", "basis_values", "save_model"]
    if has_pmf(cfg):
        opts.append("pmf_eval")
    if not (cfg["model"] == "Pos_gle_hybrid" and cfg["dim"] > 1):
        opts.append("kernel_eval")
    if method in NOISE_METHODS:
        opts += ["noise", "noise", "corrs_noise", "proj_corrs", "proj_corrs"]
    if cfg["model"] == "Pos_gle_with_friction":
        opts.append("friction_eval")
    if cfg["model"] == "Pos_gle_hybrid":
        opts.append("const_part")
    opts.append("laplace")
    w = what or rng.choice(opts)
    if w in ("force_eval", "kernel_eval", "friction_eval", "pmf_eval"):
        o = {"x": gen_points(rng, cfg)}
        if w == "pmf_eval":
            o.update(kT=rng.choice([1.0, 2.5]), set_zero=rng.random() < 0.5)
        r = rng.random()
        if r < 0.4:  # the points as a dataset, a list, through the estimator
            o["as"] = rng.choice(["ds", "list", "flat", "fortran", "strided"])
        elif r < 0.48 and cfg["basis"]["type"] != "fem":  # given as integers
            o["x"] = [[round(2 * a) for a in p] for p in o["x"]]
            o["as"] = "int"
        if rng.random() < 0.2:
            o["via"] = "est"
        has = {"force_eval": cfg["model"] != "Pos_gle_with_friction", "pmf_eval": True, "kernel_eval": cfg["model"] != "Pos_gle_hybrid", "friction_eval": False}[w]
        if has and rng.random() < 0.35:  # given coefficients
            o["c"] = rng.randrange(1000)
        return [w, o]
    if w == "laplace":
        o = {}
        if rng.random() < 0.5:
            o = {"s_start": rng.choice([0.0, 0.3]), "s_end": rng.choice([1.0, 4.0]), "n_points": rng.randint(2, 9)}
        return [w, o]
    if w == "basis_values":
        return [w, {"i": rng.randrange(64), "for": rng.choice(["force", "corrs", "kernel"])}]
    if w == "noise":
        o = {"i": rng.randrange(64)}
        if rng.random() < 0.4:
            o["trunc_kernel"] = rng.randint(2, 9)
        if rng.random() < 0.4:
            o["start_point"] = rng.randint(0, 4)
        if rng.random() < 0.4:
            o["end_point"] = rng.choice([-1, -2, 25, None])
        return [w, o]
    if w == "corrs_noise":
        return [w, {"i": rng.randrange(64), "left": rng.choice([None, "x", "v", "a", "fn", "arr"])}]
    if w == "proj_corrs":
        return [w, {"left": rng.choice([None, "x", "v", "a", "fn"])}]
    return [w, {}]


def gen_history(rng, cfg, n_extra=None, evals=True, masses=True, allow_zero=True, first_order=True):
    """a valid history of estimation steps, with repeats in any order"""
    ops = []
    if masses:
        pre = ["gram_force", "eff_mass", "pos_mass", "basis_mean"]
        for p in pre:
            if rng.random() < 0.35:
                ops.append(gen_simple(rng, cfg, p))
    if allow_zero and rng.random() < 0.1:
        ops.append(["zero_force", {}])
    else:
        ops.append(["mean_force", {}])
    c = gen_corrs(rng, None if first_order else True)
    tol = c.get("rank_tol")
    ops.append(["corrs", c])
    ops.append(gen_kernel(rng, c))
    method = ops[-1][1].get("method", "rectangular")
    n = rng.randint(0, 6) if n_extra is None else n_extra
    for _ in range(n):
        r = rng.random()
        if r < 0.12:
            ops.append(["mean_force", {}])
        elif r < 0.26:
            c = gen_corrs(rng, None if first_order else True)
            c.pop("rank_tol", None)
            if tol is not None:
                c["rank_tol"] = tol
            ops.append(["corrs", c])
        elif r < 0.42:
            ops.append(gen_kernel(rng, c))
            method = ops[-1][1].get("method", "rectangular")
        elif r < 0.52 and masses:
            ops.append(gen_simple(rng, cfg, rng.choice(["gram_force", "gram_kernel", "eff_mass", "pos_mass", "basis_mean", "check_inv"])))
        elif evals:
            ops.append(gen_eval(rng, cfg, method=method))
    return ops


def gen_simple(rng, cfg, w):
    if w == "basis_mean":
        return [w, {"basis_type": rng.choice(["force", "kernel"])}]
    if w == "check_inv":
        return [w, {"return_diff": rng.random() < 0.5}]
    return [w, {}]


def gen_kernel(rng, corr_opts, methods=None):
    second = corr_opts.get("second_order_method", True)
    ms = methods or METHODS
    if not second:
        ms = [m for m in ms if not m.startswith("second")]
    o = {"method": rng.choice(ms)}
    if o["method"] == "rectangular" and rng.random() < 0.5:
        del o["method"]
    if o.get("method") in ("trapz", "second_kind_rect", "second_kind_trapz") and rng.random() < 0.25:
        o["k0"] = rng.randrange(1000)
    return ["kernel", o]


INT_TABLE = {"Pos_gle": [LIN, LINC, BSP, POLY], "Pos_gle_const_kernel": [LIN, LINC, BSP, POLY, POLYF, FOU]}


def gen_int_cfg(rng, ntraj=None, small=True):
    """configurations whose model can be integrated"""
    r = rng.random()
    dim = 3 if r < 0.04 else 2 if r < 0.28 else 1
    cfg = gen_cfg(rng, models=list(INT_TABLE), dim=dim, ntraj=ntraj or rng.choice([1, 2, 3]), small=small, short=False)
    tab = INT_TABLE[cfg["model"]] if dim == 1 else [LIN, LINC]
    cfg["basis"] = rng.choice(tab)
    cfg.pop("L_obs", None)
    cfg.pop("n_obs", None)
    return cfg


def gen_int_history(rng, cfg, methods=None):
    c = gen_corrs(rng)
    return [["mean_force", {}], ["pos_mass", {}], ["corrs", c], gen_kernel(rng, c, methods=methods or ["rect", "rectangular", "trapz", "second_kind_rect", "second_kind_trapz"])]
