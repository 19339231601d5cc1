"""Any result of the library as a list of (path, array or plain value)."""
import numpy as np
import xarray as xr


def flatten(o):
    out = []

    def walk(p, o, d):
        if d > 8:
            return
        if isinstance(o, xr.Dataset):
            for k in sorted(o.variables, key=str):
                walk("%s[%s]" % (p, k), o.variables[k], d + 1)
            for k in sorted(o.attrs, key=str):
                walk("%s.attrs[%s]" % (p, k), o.attrs[k], d + 1)
        elif isinstance(o, xr.DataArray):
            walk(p, o.variable, d + 1)
            for k in sorted(o.coords, key=str):
                walk("%s.coords[%s]" % (p, k), o.coords[k].variable, d + 1)
        elif isinstance(o, xr.Variable):
            out.append((p + ":dims", list(map(str, o.dims))))
            walk(p, np.asarray(o.values), d + 1)
        elif isinstance(o, np.ndarray):
            if o.dtype.kind in "fciub":
                out.append((p, np.array(o)))
            else:
                out.append((p, [str(x) for x in o.ravel()]))
        elif isinstance(o, (bool, str)) or o is None:
            out.append((p, o))
        elif isinstance(o, (int, float, np.number)):
            out.append((p, np.asarray(o)))
        elif isinstance(o, dict):
            for k in sorted(o, key=str):
                walk("%s[%s]" % (p, k), o[k], d + 1)
        elif isinstance(o, (list, tuple)):
            for i, x in enumerate(o):
                walk("%s[%d]" % (p, i), x, d + 1)
        else:
            out.append((p + ":type", type(o).__name__))

    walk("", o, 0)
    return out


def difference(a, b, rtol=0.0, scale=0.0):
    """None when equal, otherwise a description"""
    if [p for p, _ in a] != [p for p, _ in b]:
        pa, pb = [p for p, _ in a], [p for p, _ in b]
        x = [p for p in pa if p not in pb] + [p for p in pb if p not in pa]
        return "parts differ: %s" % x[:3]
    for (p, x), (_, y) in zip(a, b):
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            if x.shape != y.shape:
                return "%s has shape %s instead of %s" % (p, y.shape, x.shape)
            if x.dtype.kind in "fc":
                fx, fy = np.isfinite(x), np.isfinite(y)
                if not np.array_equal(fx, fy):
                    return "%s is not finite at different places" % p
                if fx.any():
                    d = float(np.max(np.abs(x[fx] - y[fx])))
                    s = max(scale, float(np.max(np.abs(x[fx]))))
                    if d > rtol * s:
                        return "%s differs by %.3g (values up to %.3g)" % (p, d, s)
            elif not np.array_equal(x, y):
                return "%s is %s instead of %s" % (p, y.ravel()[:4], x.ravel()[:4])
        elif type(x) is not type(y) or x != y:
            return "%s is %r instead of %r" % (p, y, x)
    return None
