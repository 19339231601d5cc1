"""Reading result files back and comparing them with the results they should hold."""
import os

import numpy as np

from . import work as w
from .core import Violation


def tree(d):
    """all files below d"""
    out = []
    for root, dirs, files in os.walk(d):
        out += [os.path.relpath(os.path.join(root, f), d) for f in files]
    return sorted(out)


def corrs_content(S):
    """{variable: ({dim: size}, array with dims sorted)} of the correlation functions in memory"""
    e = S.est
    out = {"bkbk": e.bkbkcorrw, "bkdx": e.bkdxcorrw}
    if isinstance(e.dotbkbkcorrw, w.xr.DataArray):
        out.update({"dotbkbk": e.dotbkbkcorrw, "dotbkdx": e.dotbkdxcorrw})
    r = {k: canon(v) for k, v in out.items()}
    r["time_trunc"] = ({"time_trunc": e.bkbkcorrw.sizes["time_trunc"]}, np.arange(e.bkbkcorrw.sizes["time_trunc"]) * e.dt)
    return r


def kernel_content(S):
    k = S.model.kernel
    return {"kernel": canon(k), "time_kernel": ({"time_kernel": k.sizes["time_kernel"]}, w.npy(k["time_kernel"]).copy())}


def canon(a):
    a = a.transpose(*sorted(a.dims))
    return dict(a.sizes), np.array(a.values)


def content(S, name):
    return corrs_content(S) if name == "corrs" else kernel_content(S)


def read_file(path):
    ds = w.xr.load_dataset(path)
    return {str(k): canon(ds[k]) for k in ds.variables}


def diff(have, want, name, lazy=False):
    """None or a description; have: contents of the file, want: results"""
    for k in want:
        if k not in have:
            if k == "dotbkdx" and "dotbkbk" not in want:
                continue
            return "%s is missing" % k
        if have[k][0] != want[k][0]:
            return "%s has dimensions %s instead of %s" % (k, have[k][0], want[k][0])
        a, b = have[k][1], want[k][1]
        if k.startswith("time") or lazy:
            ok = a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9 * (np.max(np.abs(b[np.isfinite(b)])) if np.isfinite(b).any() else 0), equal_nan=True)
        else:
            ok = np.array_equal(a, b, equal_nan=True)
        if not ok:
            return "%s differs" % k
    for k in have:
        if k not in want and k in ("dotbkbk", "dotbkdx") and name == "corrs":
            return "%s is a leftover" % k
    return None
