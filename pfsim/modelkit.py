"""Model workload: specs (JSON) for sub-models, PSFs, settings and renders, and the reference
renderer used as oracle.  The reference never calls petrofit's rendering code."""
import numpy as np

from . import env

SUBS = ("sersic", "gen", "gauss", "moffat", "sersic+gauss", "sersic+const", "nuker", "core", "custom")


def _custom():
    from astropy.modeling import custom_model

    def ridge(x, y, amplitude=1.0, x_0=0.0, y_0=0.0, width=3.0):
        return amplitude / (1 + ((x - x_0) / width) ** 2) * np.exp(-np.abs(y - y_0) / width)

    return custom_model(ridge)


_CUSTOM = None


def gen_center(rng, size):
    """A centre that never falls on a sampling point."""
    return round(rng.uniform(0, size), 3) + 0.000371


def gen_sub(rng, size=24, kinds=SUBS):
    k = rng.choice(kinds)
    x0, y0 = gen_center(rng, size), gen_center(rng, size)
    amp = round(rng.choice([1.0, 0.01, 250.0]) * rng.uniform(0.5, 2), 4)
    p = {"kind": k, "x_0": x0, "y_0": y0, "amp": amp, "r": round(rng.uniform(1.5, 8), 3),
         "n": round(rng.uniform(0.5, 3.5), 3), "ellip": round(rng.uniform(0, 0.7), 3), "theta": round(rng.uniform(-3, 3), 3)}
    return p


def build_sub(s):
    from astropy.modeling import models

    pf = env.pf
    k = s["kind"]
    ser = dict(amplitude=s["amp"], r_eff=s["r"], n=s["n"], x_0=s["x_0"], y_0=s["y_0"], ellip=s["ellip"], theta=s["theta"])
    if k == "sersic":
        return models.Sersic2D(**ser)
    if k == "gen":
        return pf.modeling.models.GenSersic2D(c_0=0.3, **ser)
    if k == "gauss":
        return models.Gaussian2D(s["amp"], s["x_0"], s["y_0"], s["r"], s["r"] * (1 - s["ellip"]), theta=s["theta"])
    if k == "moffat":
        return models.Moffat2D(s["amp"], s["x_0"], s["y_0"], s["r"], 1.5 + s["n"])
    if k == "sersic+gauss":
        return models.Sersic2D(**ser) + models.Gaussian2D(s["amp"] * 2, s["y_0"], s["x_0"], 2.0, 3.0)
    if k == "sersic+const":
        return models.Sersic2D(**ser) + models.Const2D(s["amp"] * 0.01)
    if k == "nuker":
        return pf.modeling.models.Nuker2D(amplitude=s["amp"], r_break=s["r"], x_0=s["x_0"], y_0=s["y_0"], alpha=2, betta=4, gamma=0.3)
    if k == "core":
        return pf.modeling.models.CoreSersic2D(amplitude=s["amp"], r_eff=s["r"], n=s["n"], r_break=1.2, x_0=s["x_0"], y_0=s["y_0"])
    if k == "custom":
        global _CUSTOM
        if _CUSTOM is None:
            _CUSTOM = _custom()
        return _CUSTOM(amplitude=s["amp"], x_0=s["x_0"], y_0=s["y_0"], width=s["r"])
    raise KeyError(k)


def center_names(s):
    """Parameter names usable as a window centre."""
    k = s["kind"]
    if k == "gauss":
        return "x_mean", "y_mean"
    if k in ("sersic+gauss", "sersic+const"):
        return "x_0_0", "y_0_0"
    return "x_0", "y_0"


def gen_psf(rng):
    return {"seed": rng.randrange(1 << 30), "n": rng.choice([1, 3, 4, 5, 7, 9]), "m": rng.choice([0, 0, 0, 3, 6]), "sum": rng.choice([1, 1, 1, 0.5, 2.75])}


def build_psf(s):
    if s is None:
        return None
    r = np.random.RandomState(s["seed"])
    shape = (s["n"], s["n"] + s["m"])
    if s.get("flat"):
        return np.full(shape, s["flat"] / (shape[0] * shape[1]))
    a = r.uniform(0.01, 1, shape)
    a[shape[0] // 2, shape[1] // 2] += a.sum()
    return a / a.sum() * s.get("sum", 1)


def gen_oversample(rng, sub, pof, size=24, kinds=("none", "int", "win")):
    """A valid oversample setting (JSON) for PSF factor `pof`."""
    kinds = [k for k in kinds if not (k == "none" and pof > 1)]
    k = rng.choice(kinds)
    if k == "none":
        return None
    f = pof * rng.choice([1, 2, 3] if k == "int" else [1, 2, 3, 5])
    if k == "int":
        return f
    if rng.random() < 0.5:
        cx, cy = center_names(sub)
        if rng.random() < 0.2:
            cx = round(rng.uniform(-3, size + 3), 2)
    else:
        cx, cy = round(rng.uniform(-6, size + 6), 2), round(rng.uniform(-6, size + 6), 2)
    return [cx, cy, rng.choice([1, 2, 3, 5, 6, 9, 40] if rng.random() < 0.7 else [4, 8]), f]


def gen_sibling(rng, o, pof):
    """Another window with one thing in common with window `o`: its corner, its number of samples, its size, its factor or its centre."""
    cx, cy, n, f = o
    num = [isinstance(c, (int, float)) for c in (cx, cy)]
    same = rng.choice(["samples", "samples", "corner", "size", "factor", "swap"])
    n2 = f2 = None
    if same == "samples":   # size * factor, and the corner as well
        pairs = [(n * f // k, k) for k in range(pof, 13, pof) if n * f % k == 0 and k != f and n * f // k <= 60]
        n2, f2 = rng.choice(pairs) if pairs else (n, f)
    elif same == "swap":
        n2, f2 = (f, n) if n % pof == 0 else (n, f)
    elif same == "size":
        n2, f2 = n, pof * rng.choice([1, 2, 3, 4])
    elif same == "factor":
        n2, f2 = rng.choice([1, 2, 3, 4, 5, 8]), f
    else:
        n2, f2 = rng.choice([1, 2, 3, 4, 5, 8]), pof * rng.choice([1, 2, 3])
    shift = n2 // 2 - n // 2 if rng.random() < 0.8 else 0
    return [cx + shift if num[0] else cx, cy + shift if num[1] else cy, n2, f2]


def to_oversample(o):
    return tuple(o) if isinstance(o, list) else o


def gen_render(rng, size=24, big=0.0):
    """A request for an image, sometimes (`big`) a large one."""
    via = rng.choice(["image", "image", "image", "call", "list", "call_t", "eval"])
    base = rng.choice([size, size, 7, 13, 16, 31]) if rng.random() > big else rng.choice([66, 72, 101, 130, 201, 257, 301])
    r = {"via": via, "size": [base, base] if rng.random() < 0.6 else [base, rng.choice([5, 8, 17, 24])]}
    if rng.random() < 0.06:
        r["size"] = [rng.choice([1, 2, 3, base]), rng.choice([1, 2, 3])]
        rng.shuffle(r["size"])
    u = rng.random()
    if u < 0.45:
        r["origin"] = [0, 0]
    elif u < 0.75:
        r["origin"] = [rng.randrange(-6, 12), rng.randrange(-6, 12)]
    else:
        r["origin"] = [rng.randrange(-6, 12) + rng.choice([0, 0.5, 0.25]), rng.randrange(-6, 12) + rng.choice([0, 0.5])]
    r["dtype"] = rng.choice(["f8", "f8", "i8", "f4"]) if via != "image" else "f8"
    if r["dtype"] != "f8":
        r["origin"] = [int(v) for v in r["origin"]]
    if via == "list":
        r["drop"] = rng.randrange(1 << 20)
        r["order"] = rng.choice([None, None, "all", "columns", "shuffled", "some shuffled", "repeated", "flipped"])
    elif via == "call":
        r["order"] = rng.choice([None, None, None, "flipped", "shuffled"])
    elif via == "eval":
        r["change"] = gen_param_change(rng, 0, size) if rng.random() < 0.8 else None
        r["plain"] = rng.random() < 0.5
    return r


def near_render(rng, r):
    """A request that has almost everything in common with request `r`."""
    q = dict(r, size=list(r["size"]), origin=list(r["origin"]))
    u = rng.random()
    if u < 0.5:
        k = rng.choice([[0], [1], [0, 1]])
        d = rng.choice([1, -1, 2] if q["dtype"] != "f8" else [0.25, 0.5, -0.5, 0.125, 1] + ([1e-3, 0.1] if q["via"] != "image" else []))
        for a in k:
            q["origin"][a] += d
    elif u < 0.7:
        q["origin"].reverse()
        if rng.random() < 0.5:
            q["size"].reverse()
    elif u < 0.85:
        k = rng.randrange(2)
        q["size"][k] = max(1, q["size"][k] + rng.choice([-1, 1, 2]))
    else:
        q["origin"] = [-v for v in q["origin"]]
    return q


def coords(r):
    """(x, y) coordinate arrays of a render request."""
    w, h = r["size"]
    ox, oy = r["origin"]
    x = np.arange(w, dtype="f8") + ox
    y = np.arange(h, dtype="f8") + oy
    x, y = np.meshgrid(x, y)
    order = r.get("order")
    if r["via"] == "list":
        rs = np.random.RandomState(r["drop"])
        keep = rs.uniform(size=x.shape) > 0.3
        keep[0, 0] = True
        if order == "columns":
            x, y = x.T.ravel(), y.T.ravel()
        elif order in ("all", "shuffled", "flipped"):
            x, y = x.ravel(), y.ravel()
        else:
            x, y = x[keep], y[keep]
        if order in ("shuffled", "some shuffled", "repeated"):
            pick = rs.permutation(x.size)
            if order == "repeated":
                pick = np.concatenate([pick, pick[:max(1, x.size // 3)]])
            x, y = x[pick], y[pick]
        elif order == "flipped":
            x, y = x[::-1], y[::-1]
    elif r["via"] == "call" and order == "flipped":
        x, y = x[::-1, ::-1], y[::-1, ::-1]
    elif r["via"] == "call" and order == "shuffled":
        pick = np.random.RandomState(x.size).permutation(x.size)
        x, y = x.ravel()[pick].reshape(x.shape), y.ravel()[pick].reshape(x.shape)
    elif r["via"] == "call_t":
        x, y = x.T, y.T
    return np.ascontiguousarray(x).astype(r["dtype"]), np.ascontiguousarray(y).astype(r["dtype"])


def do_render(m, r, keep=None, st=None):
    """Render through the public API.  Explicit parameters are those of state `st`, changed as the request says."""
    if r["via"] == "image":
        w, h = r["size"]
        ox, oy = r["origin"]
        c = None if (ox, oy) == (0, 0) else (ox + w // 2, oy + h // 2)
        return env.pf.model_to_image(m, (w, h), center=c)
    x, y = coords(r)
    if keep is not None:
        keep.append((x, y))
    if r["via"] == "eval":
        # what callers do that keep parameters of their own (fitters, samplers)
        v = explicit(st, r) + [st["pa"]]
        return m.evaluate(x, y, *([float(a) for a in v] if r.get("plain") and st["sub"].n_submodels == 1 else [np.array([a]) for a in v]))
    return m(x, y)


def explicit(st, r):
    """The parameter values request `r` evaluates the model at."""
    v = list(st["params"])
    if r["via"] == "eval" and r.get("change"):
        i, a = changed(st, r["change"])
        v[i] = a
    return v


def reference(st, r):
    """The image a model in state `st` must give for request `r`."""
    sub = st["sub"]
    params = [np.array([v]) for v in explicit(st, r)]
    x, y = coords(dict(r, dtype="f8"))
    return ref_render(sub, params, st["pa"], x, y, st["psf"], st["oversample"], st["pof"])


def _axis(n, f, origin):
    return (np.arange(n * f) + 0.5) / f - 0.5 + origin


def _mean(a, b):
    if b == 1:
        return a
    h, w = a.shape
    return a.reshape(h // b, b, w // b, b).mean(axis=(1, 3))


def ref_render(sub, params, pa, x, y, psf, oversample, pof):
    from scipy import ndimage, signal

    xm, ym = float(x.min()), float(y.min())
    i = np.floor(x - xm + 0.5).astype(int)
    j = np.floor(y - ym + 0.5).astype(int)
    W, H = int(i.max()) + 1, int(j.max()) + 1
    S = max(W, H)
    P = 1 if pof is None else pof
    window = isinstance(oversample, (tuple, list))
    G = P if window else (1 if oversample is None else oversample)

    def sample(n, f, ox, oy):
        gx, gy = np.meshgrid(_axis(n, f, ox), _axis(n, f, oy))
        return np.array(sub.evaluate(gx, gy, *params), dtype=float)

    img = _mean(sample(S, G, xm, ym), G // P)
    if window:
        cx, cy, n, F = oversample
        if F // P > 1:
            if isinstance(cx, str):
                cx = float(np.ravel(params[sub.param_names.index(cx)])[0])
            if isinstance(cy, str):
                cy = float(np.ravel(params[sub.param_names.index(cy)])[0])
            i0 = int(np.round(np.round(cx) - n // 2 - xm))
            j0 = int(np.round(np.round(cy) - n // 2 - ym))
            if n > 0:
                box = _mean(sample(n, F, xm + i0, ym + j0), F // P)
                for jj in range(n * P):
                    J = j0 * P + jj
                    if not 0 <= J < H * P:
                        continue
                    a, b = max(0, i0 * P), min(W * P, (i0 + n) * P)
                    if b > a:
                        img[J, a:b] = box[jj, a - i0 * P:b - i0 * P]
    top = float(np.nanmax(np.abs(img)))
    if psf is not None:
        k = np.asarray(psf, dtype=float)
        if pa != 0:
            k = ndimage.rotate(np.asarray(psf), pa, reshape=False)
        img = signal.fftconvolve(img, k, mode="same")
    scale = max(top, float(np.nanmax(np.abs(img))))
    img = _mean(img, P)
    return img[j, i], scale


def close(got, want, rel=1e-9):
    """None if `got` is the reference image `want` = (image, brightest sample of the field)."""
    want, scale = want
    got = np.asarray(got, dtype=float)
    if got.shape != want.shape:
        return "shape %s instead of %s" % (got.shape, want.shape)
    if not np.array_equal(np.isnan(got), np.isnan(want)):
        return "NaNs in different places"
    d = np.nanmax(np.abs(got - want)) if want.size else 0.0
    if d > rel * scale + 1e-300:
        return "differs by %.3g (brightest sample %.3g)" % (d, scale)
    return None


def gen_model(rng, size=24, kinds=SUBS):
    sub = gen_sub(rng, size, kinds)
    has_psf = rng.random() < 0.7
    pof = rng.choice([None, None, 1, 2, 3]) if has_psf else None
    over = gen_oversample(rng, sub, pof or 1, size)
    return {"sub": sub, "psf": gen_psf(rng) if has_psf else None, "pof": pof, "oversample": over,
            "pa": rng.choice([0, 0, 0, round(rng.uniform(-180, 180), 2)]) if has_psf else 0,
            "cache": rng.random() < 0.85}


def build_model(s):
    """Returns (model, state)."""
    sub = build_sub(s["sub"])
    psf = build_psf(s["psf"])
    m = env.pf.PSFConvolvedModel2D(sub, psf=psf, oversample=to_oversample(s["oversample"]), psf_oversample=s["pof"])
    if s["pa"]:
        m.psf_pa = s["pa"]
    if not s["cache"]:
        m.cache_grid = False
    st = {"sub": build_sub(s["sub"]), "names": list(sub.param_names), "params": [float(v) for v in sub.parameters],
          "psf": None if psf is None else psf.copy(), "pa": s["pa"], "oversample": s["oversample"], "pof": s["pof"],
          "spec": s["sub"]}
    return m, st


def copy_state(st):
    return dict(st, params=list(st["params"]))


def gen_param_change(rng, nparams, size=24):
    tiny = rng.choice([1, 1, 1, 1e-2, 1e-4, 1e-5])   # some changes are hardly any
    return {"i": rng.randrange(1 << 16), "scale": 1 + tiny * round(rng.uniform(-0.2, 0.25), 4), "shift": tiny * (round(rng.uniform(-2, 2), 3) + 0.000113),
            "how": rng.choice(["attr", "value", "array"])}


def changed(st, op):
    """(index, new value) of the parameter that `op` changes."""
    i = op["i"] % len(st["names"])
    name = st["names"][i]
    v = st["params"][i]
    if name.startswith(("x_", "y_")):
        v = v + op["shift"]
    elif name.startswith("ellip"):
        v = min(0.8, v * op["scale"])
    else:
        v = v * op["scale"]
    return i, v


def apply_param_change(m, st, op):
    """Changes one parameter of the real model and of the reference state."""
    i, v = changed(st, op)
    name = st["names"][i]
    if op["how"] == "attr":
        setattr(m, name, v)
    elif op["how"] == "value":
        getattr(m, name).value = v
    else:
        a = np.array(m.parameters)
        a[i] = v
        m.parameters = a
    st["params"][i] = v
