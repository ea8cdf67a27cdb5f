"""Petrosian profile workload: specs (JSON), measurements, settings and the quantities to read."""
import numpy as np

from . import env
from .digest import snap

SETTINGS = ("eta", "epsilon", "epsilon_fraction", "total_flux_fraction", "interp_kind", "interp_num")
DEFAULTS = {"eta": 0.2, "epsilon": 2.0, "epsilon_fraction": 0.99, "total_flux_fraction": 0.99, "interp_kind": "cubic",
            "interp_num": 5000}

SCALARS = ("r_petrosian", "r_petrosian_err", "r_epsilon", "r_epsilon_in_range", "r_total_flux", "r_total_flux_err",
           "total_flux", "total_flux_err", "half_flux", "half_flux_err", "r_half_light", "r_half_light_err", "r_50",
           "r_50_err", "c2080", "c5090")
ARRAYS = ("r_list", "area_list", "flux_list", "area_err", "flux_err", "petrosian_list", "petrosian_err", "has_petrosian_err")


def gen_profile(rng, good=False):
    kind = rng.choice(["sersic"] * 6 + ([] if good else ["noisy", "short", "flat", "dup", "rising", "far", "tiny"]))
    return {"kind": kind, "n": rng.choice([0.5, 1.0, 2.0, 4.0, round(rng.uniform(0.5, 5), 3)]),
            "r_eff": round(rng.uniform(3, 20), 3), "amp": rng.choice([1.0, 1e-20, 1e5, 100.0]),
            "num": rng.choice([8, 12, 20, 40, 60]), "reach": rng.choice([4, 8, 8, 15]),
            "log": rng.random() < 0.2, "err": rng.choice([None, None, "flux", "flux", "both", "area"]),
            "relerr": rng.choice([0.0, 0.001, 0.01, 0.1]), "seed": rng.randrange(1 << 30),
            "dtype": rng.choice(["f8", "f8", "f8", "list", "f4", "ro"])}


def gen_near(rng, s):
    """A profile that has almost everything in common with profile `s`: what identifies that one may identify this one."""
    u = rng.random()
    if u < 0.7:
        return dict(s, bump={"what": rng.choice(["flux", "flux", "flux", "area", "ferr", "r"]), "at": [round(rng.random(), 3) for _ in range(rng.choice([1, 1, 2, 6]))],
                             "rel": rng.choice([0.02, -0.02, 1e-3, 1e-5])})
    if u < 0.8:
        return dict(s, err=rng.choice([None, "flux", "both", "area"]))
    if u < 0.9:
        return dict(s, relerr=rng.choice([0.0, 0.001, 0.01, 0.1]), seed=rng.randrange(1 << 30))
    return dict(s, dtype=rng.choice(["f8", "list", "f4", "ro"]))


def measurements(s):
    """(r, area, flux, area_err, flux_err) as float arrays; never calls petrofit."""
    from scipy.special import gammainc, gammaincinv

    rs = np.random.RandomState(s["seed"])
    num = s["num"] if s["kind"] not in ("short", "tiny") else (4 if s["kind"] == "short" else 3)
    top = s["r_eff"] * s["reach"]
    r = np.logspace(0, np.log10(max(top, 2.0)), num) if s["log"] else np.arange(1, num + 1) * top / num
    b = gammaincinv(2 * s["n"], 0.5)
    flux = gammainc(2 * s["n"], b * (r / s["r_eff"]) ** (1 / s["n"])) * s["amp"] * 1e3
    if s["kind"] == "noisy":
        flux = flux * (1 + 0.02 * rs.standard_normal(num))
    elif s["kind"] == "flat":
        flux = np.minimum(flux, flux[num // 3])
    elif s["kind"] == "rising":
        flux = r ** 2 * s["amp"]
    elif s["kind"] == "far":
        flux = flux - 0.3 * flux[-1] * (r > 0.7 * r[-1]) * (r - 0.7 * r[-1]) / r[-1]
    area = np.pi * r ** 2
    if s["kind"] == "dup" and num > 6:
        area[num // 2] = area[num // 2 - 1]
        flux[num // 2] = flux[num // 2 - 1]
    ferr = np.abs(flux) * s["relerr"] * (0.5 + rs.uniform(size=num)) + s["amp"] * 1e-3 if s["err"] in ("flux", "both") else None
    aerr = area * s["relerr"] * 0.1 * rs.uniform(size=num) if s["err"] in ("area", "both") else None
    if s.get("bump"):   # the first three and last three values stay
        b = s["bump"]
        a = {"flux": flux, "area": area, "ferr": ferr, "r": r}[b["what"]]
        for v in b["at"] if a is not None and num > 6 else ():
            a[3 + int(v * (num - 6))] *= 1 + (b["rel"] if b["what"] == "flux" or b["what"] == "ferr" else 0.1 * b["rel"])
    if s.get("nan") is not None:   # a measurement is missing
        flux[int(s["nan"] * num)] = np.nan
    return r, area, flux, aerr, ferr


def inputs(s):
    """Measurements in the container type of the spec."""
    out = []
    for a in measurements(s):
        if a is None:
            out.append(None)
        elif s["dtype"] == "list":
            out.append([float(v) for v in a])
        elif s["dtype"] == "f4":
            out.append(a.astype("f4"))
        else:
            a = a.copy()
            if s["dtype"] == "ro":
                a.flags.writeable = False
            out.append(a)
    return out


def build(s, settings, arrays=None):
    r, area, flux, aerr, ferr = arrays if arrays is not None else inputs(s)
    return env.pf.Petrosian(r, area, flux, area_err=aerr, flux_err=ferr, **settings)


CLOSE = {"eta": [0.2, 0.2, 0.5], "epsilon": [2.0, 2.0, 1.0], "epsilon_fraction": [0.99], "total_flux_fraction": [0.99]}


def gen_settings(rng):
    d = dict(DEFAULTS)
    if rng.random() < 0.5:
        for k in rng.sample(SETTINGS, rng.choice([1, 2, 3])):
            d[k] = gen_setting(rng, k)
    return d


def gen_setting(rng, k):
    if k in CLOSE and rng.random() < 0.2:   # next to a common value
        return rng.choice(CLOSE[k]) + rng.choice([4e-4, -4e-4, 4e-5, 3e-7, 1e-9])
    if k == "eta":
        return rng.choice([0.2, 0.3, 0.4, 0.5, round(rng.uniform(0.05, 0.9), 3)])
    if k == "epsilon":
        return rng.choice([2.0, 1.0, 3.0, round(rng.uniform(0.5, 4), 3)])
    if k == "epsilon_fraction":
        return rng.choice([0.99, 0.8, 0.5, 0.9])
    if k == "total_flux_fraction":
        return rng.choice([0.99, 0.9, 0.8, 0.5])
    if k == "interp_kind":
        return rng.choice(["cubic", "cubic", "linear", "quadratic", None, "nearest", 2])
    return rng.choice([5000, 1000, 333, 50, 5001])


def gen_read(rng):
    u = rng.random()
    if u < 0.7:
        return [rng.choice(SCALARS)]
    if u < 0.8:
        return ["concentration_index", rng.choice([0.2, 0.5, 0.1, 0.2004]), rng.choice([0.8, 0.9, 0.75, 0.80003])]
    if u < 0.9:
        return [rng.choice(["fraction_flux_to_r", "fraction_flux_to_r_err"]), rng.choice([0.1, 0.2, 0.5, 0.8, 0.95, 0.5004, 0.2 + 1e-7])]
    if u < 0.96:
        return [rng.choice(["r_half_light_arcsec", "r_total_flux_arcsec"])]
    return [rng.choice(ARRAYS)]


_wcs = None


def wcs():
    global _wcs
    if _wcs is None:
        from astropy.wcs import WCS

        w = WCS(naxis=2)
        w.wcs.cdelt = [-1e-5, 1e-5]
        w.wcs.ctype = ["RA---TAN", "DEC--TAN"]
        w.wcs.cunit = ["deg", "deg"]
        _wcs = w
    return _wcs


def read(p, q):
    """The value, as a snapshot, or the exception it raises."""
    name, args = q[0], q[1:]
    if name.endswith("arcsec"):
        args = [wcs()]
    v = getattr(p, name)
    if args:
        v = v(*args)
    return v


def read_snap(p, q):
    try:
        return ("ok", norm(read(p, q)))
    except Exception as e:
        return ("raised", type(e).__name__)


def norm(v):
    """Numbers as plain floats (container and scalar types are not the observable), arrays hashed."""
    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, (tuple, list)):
        return tuple(norm(x) for x in v)
    if isinstance(v, np.ndarray) and v.ndim:
        return snap(v)
    f = float(v)
    return "nan" if f != f else float.__repr__(f)


def visible(p):
    """Every public attribute that is not computed."""
    out = [("set", k, repr(getattr(p, k))) for k in SETTINGS]
    for k in ARRAYS:
        out.append((k, snap(getattr(p, k))))
    return out


def fresh_many(items):
    """Judge: [(spec, settings, reads)] -> snapshots, each item from a profile built in this fresh process."""
    out = []
    for s, settings, q in items:
        out.append(fresh(s, settings, q))
    return out


def fresh(s, settings, q):
    import warnings

    warnings.simplefilter("ignore")
    try:
        p = build(s, settings)
    except Exception as e:
        return ("raised", type(e).__name__)
    return read_snap(p, q)
