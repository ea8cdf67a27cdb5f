"""Arrays reachable from a caller's object or a result; deep snapshots of caller's data."""
import numpy as np

from .digest import observables, snap


def arrays_of(o, depth=0, out=None):
    """Every ndarray a caller can reach from a value petrofit takes or returns."""
    from astropy.modeling import Model
    from astropy.nddata import CCDData, Cutout2D
    from astropy.table import Table
    from photutils.segmentation import SegmentationImage, SourceCatalog

    if out is None:
        out = []
    if depth > 4 or o is None:
        return out
    if isinstance(o, np.ma.MaskedArray):
        out.append(np.asarray(o.data))
        if o.mask is not np.ma.nomask:
            out.append(np.asarray(o.mask))
    elif isinstance(o, np.ndarray):
        out.append(np.asarray(o))
    elif isinstance(o, (list, tuple)):
        for x in o:
            arrays_of(x, depth + 1, out)
    elif isinstance(o, dict):
        for x in o.values():
            arrays_of(x, depth + 1, out)
    elif isinstance(o, Table):
        for c in o.colnames:
            out.append(np.asarray(o[c]))
    elif isinstance(o, CCDData):
        arrays_of([o.data, o.mask], depth + 1, out)
    elif isinstance(o, Cutout2D):
        out.append(np.asarray(o.data))
    elif isinstance(o, SegmentationImage):
        out.append(np.asarray(o.data))
    elif isinstance(o, SourceCatalog):
        arrays_of(getattr(o, "_data", None), depth + 1, out)
    elif isinstance(o, Model):
        out.append(np.asarray(o._parameters))
        for a in ("psf",):
            arrays_of(getattr(o, a, None), depth + 1, out)
        if hasattr(o, "_model"):
            out.append(np.asarray(o._model._parameters))
    elif type(o).__module__.startswith("petrofit"):
        for v in observables(o).values():
            arrays_of(v, depth + 1, out)
    return out


def base_of(a):
    while isinstance(a, np.ndarray) and isinstance(a.base, np.ndarray):
        a = a.base
    return a


def deep_snap(inputs):
    """Every input, and for views the whole buffer they look into."""
    out = {}
    for k, v in inputs.items():
        if hasattr(v, "param_names"):
            from . import fitkit as fk

            out[k] = fk.model_snap(v)
        else:
            bases = [snap(base_of(a)) for a in arrays_of(v) if isinstance(a.base, np.ndarray)]
            flags = [a.flags.writeable for a in arrays_of(v)]
            out[k] = (snap(v), bases, flags)
    return out


def changed(before, after):
    return [k for k in before if before[k] != after[k]]


def freeze(inputs):
    """Make the caller's plain arrays read-only; returns how many."""
    from astropy.nddata import CCDData

    n = 0

    def rec(v, depth=0):
        nonlocal n
        if isinstance(v, np.ndarray) and not isinstance(v, np.ma.MaskedArray):
            if v.flags.writeable:
                v.flags.writeable = False
                n += 1
        elif isinstance(v, CCDData):
            rec(v.data, depth + 1)
        elif isinstance(v, (list, tuple)) and depth < 3:
            for x in v:
                rec(x, depth + 1)

    for v in inputs.values():
        rec(v)
    return n


def shares(result, inputs):
    """Names of inputs whose memory is reachable from the result."""
    bad = []
    ra = arrays_of(result)
    for k, v in inputs.items():
        for a in arrays_of(v):
            if a.size and any(r.size and np.may_share_memory(r, a) and np.shares_memory(r, a, max_work=10000) for r in ra):
                bad.append(k)
                break
    return bad


def scribble(result):
    """Overwrite everything writable in a result handed to the caller."""
    n = 0
    for a in arrays_of(result):
        if a.flags.writeable and a.size:
            try:
                a[...] = -7 if a.dtype.kind in "iuf" else (True if a.dtype.kind == "b" else a)
                n += 1
            except (ValueError, TypeError):
                pass
    if isinstance(result, (list, tuple)):
        for x in result:
            if isinstance(x, list):
                x[:] = [-7] * len(x)
    if isinstance(result, list):
        result[:] = [-7] * len(result)
    return n
