"""Fitting workload: models to fit (with constraints), fit calls and their results as plain data."""
import inspect

import numpy as np

from . import env
from . import imgkit as ik
from . import modelkit as mk
from .digest import snap, snap_model

FITTERS = ("TRFLSQFitter", "TRFLSQFitter", "LevMarLSQFitter", "LMLSQFitter", "DogBoxLSQFitter")


def same_as_x(m):
    return m.y_0.value


def _tie(m, names):
    if "x_0" in names and "y_0" in names:
        m.x_0.tied = same_as_x


def gen_fit(rng, call=None):
    """A fit; with `call`, by that function."""
    u = {None: 0, "fit_model": 0, "fit_background": 0.62, "fit_gaussian2d": 0.9}[call]
    u += rng.random() * {None: 1.0, "fit_model": 0.62, "fit_background": 0.28, "fit_gaussian2d": 0.1}[call]
    img = ik.gen_single(rng, sizes=(6, 8, 10, 10, 12, 12, 15, 15), big=0.3 if u >= 0.62 else 0.03)
    if u < 0.62:
        s = {"call": "fit_model", "image": img, "wrap": rng.random() < 0.5, "fitter": rng.choice(FITTERS), "off": [round(rng.uniform(0.9, 1.1), 3) for _ in range(14)],
             "fixed": [rng.randrange(20) for _ in range(rng.choice([0, 0, 1]))], "bounds": rng.random() < 0.3, "tied": rng.random() < 0.15,
             "weights": rng.choice([None, None, None, "one", "ramp", "ramp", "errors", "large", "small", "holes", "bad"]), "was": rng.choice(["f8", "f4", "ro"]), "maxiter": rng.choice([3, 8, 20]),
             "cov": rng.random() < 0.3, "jac": rng.random() < 0.3,
             "psf": {"seed": rng.randrange(1 << 20), "n": 3, "m": 0} if rng.random() < 0.5 else None,
             "oversample": rng.choice([None, 1, 2, ["C", "C", 4, 3]])}
        return s
    if u < 0.9:
        return {"call": "fit_background", "image": dict(img, bg=rng.choice([1.5, 0.3])), "model": rng.choice([None, None, None, "planar", "poly", "const"]),
                "sigma": rng.choice([3.0, None, 2.0]), "cov": rng.random() < 0.2, "fitter": rng.choice([None, None, None, "TRFLSQFitter", "LevMarLSQFitter"]), "start": [round(rng.uniform(-3, 3), 2) for _ in range(6)]}
    return {"call": "fit_gaussian2d", "image": dict(img, nan=0, **{"as": "f8"})}


def gen_near(rng, s):
    """[`s`, a fit that has almost everything in common with it]; `s` itself may change a little, too."""
    how = rng.choice(["twist", "twist", "image", "weights", "start", "maxiter", "psf", "as", "fixed", "nan", "setup", "setup"])
    img = s["image"]
    if how == "twist":
        s = dict(s, image=dict(img, twist="quant"))
        return s, dict(s, image=dict(img, twist=rng.choice(["mirror", "turn", "swap", "swap"])))
    if how == "image":
        return s, dict(s, image=dict(img, seed=rng.randrange(1 << 30), noise=img["noise"] or 0.01))
    if how == "nan":
        return s, dict(s, image=dict(img, nan=0 if img["nan"] else 3))
    if how == "as":
        return s, dict(s, image=dict(img, **{"as": rng.choice(ik.CONTAINERS)}))
    if how == "weights" and "weights" in s:
        return s, dict(s, weights=rng.choice([None, "one", "ramp", "errors", "large", "small", "holes"]))
    if how == "start" and "off" in s:
        return s, dict(s, off=[round(v + rng.choice([0, 1e-3, 0.05]), 4) for v in s["off"]])
    if how == "maxiter" and "maxiter" in s:
        return s, dict(s, maxiter=s["maxiter"] + rng.choice([1, 2, 10]))
    if how == "psf" and s.get("psf"):
        return s, dict(s, psf=dict(s["psf"], seed=rng.randrange(1 << 20)))
    if how == "setup" and "fixed" in s:
        k = rng.choice(["bounds", "bounds", "fitter", "tied", "cov", "jac", "oversample", "wrap", "tol"])
        v = {"bounds": [0.05, 0.3, True, False], "fitter": FITTERS, "oversample": [None, 1, 2, 4, ["C", "C", 4, 3], ["C", "C", 6, 3]],
             "tol": [None, {"acc": 1e-3}, {"acc": 1e-9}, {"epsilon": 1e-4}]}.get(k, [True, False])
        return s, dict(s, **{k: rng.choice([a for a in v if a != s.get(k)])})
    if how == "fixed" and "fixed" in s:
        return s, dict(s, fixed=[] if s["fixed"] else [rng.randrange(20)])
    if "sigma" in s:
        return s, dict(s, sigma=rng.choice([2.5, 2.0, None, 3.5]))
    return s, dict(s, image=dict(img, seed=rng.randrange(1 << 30), bg=img["bg"] + 0.25))


def build_inputs(s):
    """Fresh (image, model, weights) of a fit spec."""
    from astropy.modeling import models

    img = ik.wrap(ik.single(s["image"]), s["image"]["as"])
    model = None
    weights = None
    if s["call"] == "fit_model":
        sub = mk.build_sub(s["image"]["sub"])
        names = list(sub.param_names)
        for i, n in enumerate(names):
            v = float(getattr(sub, n).value) * s["off"][i % len(s["off"])]
            setattr(sub, n, v)
        for i in s["fixed"]:
            sub.fixed[names[i % len(names)]] = True
        if s["bounds"]:
            for n in names:
                v = float(getattr(sub, n).value)
                d = 0.5 if s["bounds"] is True else s["bounds"]
                sub.bounds[n] = (v - abs(v) * d - d, v + abs(v) * d + d)
        model = sub
        if s["wrap"]:
            o = s["oversample"]
            if isinstance(o, list):
                cx, cy = mk.center_names(s["image"]["sub"])
                o = (cx, cy, o[2], o[3])
            model = env.pf.PSFConvolvedModel2D(sub, psf=mk.build_psf(s["psf"]), oversample=o)
        if s["tied"]:
            _tie(model, names)
        h, w = s["image"]["shape"]
        if s["weights"] == "one":
            weights = np.ones((h, w))
        elif s["weights"] == "ramp":
            weights = 1 + 0.01 * np.arange(h * w, dtype=float).reshape(h, w)
        elif s["weights"] in ("errors", "large", "small", "holes"):   # as from an error image
            weights = {"errors": 1.0, "large": 3e5, "small": 1e-4, "holes": 30.0}[s["weights"]] / (1 + 0.1 * np.sin(np.arange(h * w, dtype=float)).reshape(h, w))
            if s["weights"] == "holes":
                weights[::5, ::3] = 0
        elif s["weights"] == "bad":
            weights = np.ones((h, w + 1))
        if weights is not None:
            weights = ik.wrap(weights, s["was"])
    elif s["call"] == "fit_background" and s["model"]:
        st = s["start"]
        model = {"planar": lambda: models.Planar2D(st[0], st[1], st[2]),
                 "poly": lambda: models.Polynomial2D(2, c0_0=st[0], c1_0=st[1]),
                 "const": lambda: models.Polynomial2D(0, c0_0=st[0])}[s["model"]]()
    return img, model, weights


def call(s, img, model, weights):
    from astropy.modeling import fitting

    pf = env.pf
    if s["call"] == "fit_model":
        return pf.fit_model(img, model, weights=weights, fitter=getattr(fitting, s["fitter"]), maxiter=s["maxiter"],
                            calc_uncertainties=s["cov"], estimate_jacobian=s["jac"], **(s.get("tol") or {}))[0]
    if s["call"] == "fit_background":
        k = {} if model is None else {"model": model}
        if s.get("fitter"):
            k["fitter"] = getattr(fitting, s["fitter"])
        return pf.fit_background(img, sigma=s["sigma"], calc_uncertainties=s["cov"], **k)[0]
    return pf.modeling.fitting.fit_gaussian2d(img)


def result(m):
    """Parameters and constraints of a fitted model, plain."""
    return {"type": type(m).__name__, "names": list(m.param_names), "par": [float(v) for v in m.parameters],
            "fixed": {k: bool(v) for k, v in m.fixed.items()}, "bounds": {k: tuple(v) for k, v in m.bounds.items()},
            "tied": {k: bool(v) for k, v in m.tied.items()}}


def outcome(s, img, model, weights):
    try:
        return ("ok", result(call(s, img, model, weights)))
    except Exception as e:
        return ("raised", type(e).__name__)


def fresh(s):
    """Judge: the outcome in an untouched process."""
    import warnings

    warnings.simplefilter("ignore")
    return outcome(s, *build_inputs(s))


def differs(a, b, rel=1e-9):
    """None when two outcomes agree."""
    if a[0] != b[0]:
        return "%s instead of %s" % (a[:2] if a[0] == "raised" else "a model", b[:2] if b[0] == "raised" else "a model")
    if a[0] == "raised":
        return None if a[1] == b[1] else "%s instead of %s" % (a[1], b[1])
    a, b = a[1], b[1]
    for k in ("type", "names", "fixed", "bounds", "tied"):
        if a[k] != b[k]:
            return "%s %s instead of %s" % (k, a[k], b[k])
    for n, x, y in zip(a["names"], a["par"], b["par"]):
        if not (x == y or (x != x and y != y) or abs(x - y) <= rel * max(abs(x), abs(y))):
            return "%s=%r instead of %r" % (n, x, y)
    return None


def default_background():
    """The default background model, when fit_background has a shared one."""
    d = inspect.signature(env.pf.fit_background).parameters["model"].default
    return d if hasattr(d, "param_names") else None


def inputs_snap(img, model, weights):
    return {"image": snap(img), "model": None if model is None else model_snap(model), "weights": snap(weights)}


def model_snap(m):
    out = [snap_model(m), {n: bool(getattr(m, n).tied) for n in m.param_names},
           {n: (bool(getattr(m, n).fixed), tuple(getattr(m, n).bounds), float(getattr(m, n).value)) for n in m.param_names}]
    if hasattr(m, "_model"):
        out.append(snap_model(m.model))
    return repr(out)
