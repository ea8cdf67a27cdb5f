"""Canonical snapshots: bit-for-bit comparable descriptions of the values petrofit handles."""
import hashlib
import inspect
import struct

import numpy as np


def _h(b):
    return hashlib.sha256(b).hexdigest()[:24]


def snap(o, depth=0):
    """A nested tuple of plain values; equal iff the observable content is identical."""
    from astropy.modeling import Model
    from astropy.nddata import CCDData, Cutout2D
    from astropy.table import Table, Row
    from photutils.aperture import Aperture
    from photutils.segmentation import SegmentationImage, SourceCatalog

    if depth > 8:
        return ("deep",)
    if o is None or isinstance(o, (bool, str, bytes)):
        return (type(o).__name__, o)
    if isinstance(o, int):
        return ("int", o)
    if isinstance(o, float) and type(o) is float:
        return ("float", "nan" if o != o else o.hex())
    if isinstance(o, np.ma.MaskedArray):
        return ("ma", snap(np.asarray(o.data), depth + 1), snap(np.ma.getmaskarray(o), depth + 1))
    if isinstance(o, np.generic):
        return ("npscalar", o.dtype.str, _canon(np.asarray(o)))
    if isinstance(o, Table):
        return ("table", tuple(o.colnames), tuple(snap(np.asarray(o[c]), depth + 1) for c in o.colnames))
    if isinstance(o, Row):
        return ("row", tuple(o.colnames), tuple(snap(v, depth + 1) for v in o.as_void().tolist()))
    if isinstance(o, np.ndarray):
        a = np.asarray(o)
        if a.dtype == object:
            return ("objarr", a.shape, tuple(snap(x, depth + 1) for x in a.ravel()))
        return ("arr", a.dtype.str, a.shape, _canon(a))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(snap(x, depth + 1) for x in o)
    if isinstance(o, (set, frozenset)):
        return ("set",) + tuple(sorted(repr(snap(x, depth + 1)) for x in o))
    if isinstance(o, dict):
        return ("dict",) + tuple((repr(k), snap(v, depth + 1)) for k, v in o.items())
    if isinstance(o, CCDData):
        return ("ccd", snap(o.data, depth + 1), snap(o.mask, depth + 1), str(o.unit),
                snap(getattr(o.uncertainty, "array", None), depth + 1), repr(dict(o.meta)))
    if isinstance(o, Cutout2D):
        return ("cutout", snap(o.data, depth + 1), snap(tuple(o.origin_original), depth + 1))
    if isinstance(o, SegmentationImage):
        return ("segm", snap(np.asarray(o.data), depth + 1), snap(np.asarray(o.labels), depth + 1))
    if isinstance(o, SourceCatalog):
        return ("cat", snap(np.asarray(o.labels), depth + 1), snap(np.asarray(o._data), depth + 1))
    if isinstance(o, Model):
        return snap_model(o, depth)
    if isinstance(o, Aperture):
        return ("aperture", type(o).__name__, snap(np.asarray(o.positions), depth + 1)) + tuple((k, repr(getattr(o, k))) for k in o._params if k != "positions")
    if type(o).__name__ == "Header" and hasattr(o, "tostring"):
        return ("header", o.tostring())
    if callable(o) and hasattr(o, "__qualname__"):
        return ("callable", getattr(o, "__module__", ""), o.__qualname__)
    if hasattr(o, "__dict__"):
        return ("obj", type(o).__name__, snap(observables(o), depth + 1))
    return ("repr", type(o).__name__, repr(o))


def observables(o):
    """What a caller can see of a plain object: its public attributes, and what it was made from.  What a class keeps to itself is its own business."""
    out = {k: v for k, v in vars(o).items() if not k.startswith("_")}
    try:
        made = inspect.signature(type(o).__init__).parameters
    except (TypeError, ValueError):
        made = ()
    for k in made:
        if k not in out and k != "self" and not k.startswith("_") and hasattr(o, k):
            out[k] = getattr(o, k)
    return {k: out[k] for k in sorted(out)}


def _canon(a):
    """Content hash; all NaNs alike (payload bits are not an observable)."""
    if a.dtype.kind == "f":
        b = a.astype(a.dtype.newbyteorder("="), copy=True)
        b[np.isnan(b)] = np.nan
        b = np.ascontiguousarray(b)
        return _h(b.tobytes())
    return _h(np.ascontiguousarray(a).tobytes())


def snap_model(m, depth=0):
    """Observable state of a model: parameters, constraints, sampling settings, sub-model."""
    out = ["model", type(m).__name__, tuple(m.param_names), snap(np.array(m.parameters), depth + 1),
           snap(dict(m.fixed), depth + 1), snap({k: tuple(v) for k, v in dict(m.bounds).items()}, depth + 1),
           snap({k: bool(v) for k, v in dict(m.tied).items()}, depth + 1),
           ("name", repr(m.name)), ("meta", snap(dict(m.meta), depth + 1))]
    for a in ("psf", "oversample", "psf_oversample", "cache_grid"):
        if hasattr(m, a):
            out.append((a, snap(getattr(m, a), depth + 1)))
    return tuple(out)


def short(s):
    return hashlib.sha256(repr(s).encode()).hexdigest()[:16]
