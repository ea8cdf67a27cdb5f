"""One entry per public call of petrofit: JSON spec -> the caller's data -> result."""
import copy

import numpy as np

from . import env
from . import fitkit as fk
from . import gridkit as gk
from . import imgkit as ik
from . import modelkit as mk
from . import profkit as pk

CALLS = {}


class Call:
    def __init__(self, name, gen, build, run, plots=False, files=False, holds=False, weight=2):
        self.name = name
        self.gen = gen        # rng -> JSON spec
        self.build = build    # spec -> {argument name: caller's object}
        self.run = run        # (inputs, spec) -> result
        self.plots = plots    # a plotting call (may create figures, use random colours)
        self.files = files
        self.holds = holds    # the result is documented to wrap an input
        self.weight = weight


def call(name, **k):
    def deco(cls):
        CALLS[name] = Call(name, cls.gen, cls.build, cls.run, **k)
        return cls
    return deco


def gen(rng, names=None):
    names = sorted(names or CALLS)
    w = [CALLS[n].weight for n in names]
    n = rng.choices(names, w)[0]
    return {"call": n, "spec": CALLS[n].gen(rng)}


def build(c):
    return CALLS[c["call"]].build(c["spec"])


def run(c, inputs):
    return CALLS[c["call"]].run(inputs, c["spec"])


def twisted(c, how):
    """The same call with its images quantised, or quantised with their pixels in another order."""
    def walk(o):
        if isinstance(o, dict):
            o = {k: walk(v) for k, v in o.items()}
            return dict(o, twist=how) if "seed" in o and ("src" in o or "sub" in o) else o
        return [walk(v) for v in o] if isinstance(o, list) else o
    return {"call": c["call"], "spec": walk(c["spec"])}


def spiked(c, rng):
    """The same call with images that have some infinite, huge or missing pixels."""
    spike = [rng.choice(["inf", "inf", "-inf", "both", "huge", "nan"]), rng.randrange(1 << 30), rng.choice([1, 1, 2, 10])]

    def walk(o):
        if isinstance(o, dict):
            o = {k: walk(v) for k, v in o.items()}
            return dict(o, spike=spike) if "seed" in o and ("src" in o or "sub" in o) else o
        return [walk(v) for v in o] if isinstance(o, list) else o
    return {"call": c["call"], "spec": walk(c["spec"])}


def sibling(c):
    """The same call with other content of the same shape: what a memo keyed by something less than the content would confuse."""
    def walk(o):
        if isinstance(o, dict):
            return {k: v ^ 1 if k == "seed" and type(v) is int else [x * 1.03125 for x in v] if k == "v" and isinstance(v, list) and all(type(x) is float for x in v)
                    else walk(v) for k, v in o.items()}
        if isinstance(o, list):
            return [walk(v) for v in o]
        return o
    return {"call": c["call"], "spec": walk(c["spec"])}


def variant(c, other, rng, n=1):
    """The same call with `n` of its settings those of `other`, a spec of the same call: what a memo that leaves one out would confuse."""
    spec = copy.deepcopy(c["spec"])
    for _ in range(n):
        a, b = spec, other
        while True:
            keys = [k for k in sorted(a) if k in b and a[k] != b[k] and k not in ("sim", "cpu")]
            if not keys:
                break
            k = rng.choice(keys)
            if isinstance(a[k], dict) and isinstance(b[k], dict) and rng.random() < 0.7:
                a, b = a[k], b[k]
                continue
            a[k] = copy.deepcopy(b[k])
            break
    return {"call": c["call"], "spec": spec}


def refilled(c):
    """Inputs of call `c` in arrays that held the sibling's content when the sibling was called; None when there are none such."""
    from photutils.segmentation import SegmentationImage

    old, new = build(sibling(c)), build(c)
    if old.get("cat", 0) is None or new.get("cat", 0) is None:
        return None
    try:
        run(sibling(c), old)
    except Exception:
        pass
    n = 0
    for k, v in new.items():
        w = old.get(k)
        if type(v) is np.ndarray and type(w) is np.ndarray and v.shape == w.shape and v.dtype == w.dtype and v.strides == w.strides and v.dtype != object and w.flags.writeable and v.flags.writeable:
            w[...] = v
            new[k] = w
            n += 1
        elif isinstance(v, SegmentationImage) and isinstance(w, SegmentationImage) and v.data.shape == w.data.shape and v.data.dtype == w.data.dtype:
            w.data[...] = v.data
            new[k] = SegmentationImage(w.data)
            n += 1
    return new if n else None


def _how(rng):
    return rng.choice(ik.CONTAINERS)


def _opts(rng, **k):
    """A random part of the optional arguments; JSON lists stay lists."""
    return {n: rng.choice(v) for n, v in sorted(k.items()) if rng.random() < 0.3}


AX_OPTS = {"color": ["tab:red", "k"], "err_alpha": [0.0, 0.5], "err_capsize": [0, 5], "show_legend": [True, False], "legend_fontsize": [6, 14], "ax_fontsize": [8, None],
           "tick_fontsize": [7, None], "radius_unit": ["kpc", "", None], "title": ["t", None]}


IM_OPTS = {"position": [[3, 4]], "elong": [1.5], "theta": [0.4], "color": ["r"], "lw": [2]}
GRID_OPTS = {"cmap": ["viridis"], "target_c": ["r"], "cmap_key": ["r_eff", "r_eff", "p02", "p0502", "c_epsilon", "u_c2080", "sersic_L_inf", "n"], "colorbar_label": ["label"], "suptitle": ["s"]}


def _smooth(seed, shape):
    rs = np.random.RandomState(seed)
    return rs.uniform(0, 5, shape) + 10


# -- utils -------------------------------------------------------------------
@call("natural_sort")
class _:
    gen = staticmethod(lambda rng: {"l": [rng.choice(["a", "b10", "b9", "B2", "c"]) + str(rng.randrange(30)) for _ in range(5)]})
    build = staticmethod(lambda s: {"l": list(s["l"])})
    run = staticmethod(lambda i, s: env.pf.utils.natural_sort(i["l"]))


def _vec(rng, lo=0.1, hi=50):
    return {"v": [round(rng.uniform(lo, hi), 3) for _ in range(rng.choice([1, 3, 8]))], "as": _how(rng)}


def _arr(v):
    return ik.wrap(np.array(v["v"]).reshape(1, -1), v["as"])[0] if v["as"] != "strided" else ik.wrap(np.array(v["v"]).reshape(1, -1), "strided")[0]


@call("conversions")
class _:
    gen = staticmethod(lambda rng: dict(_vec(rng, 0.01, 0.9), f=rng.choice(["ellip_to_elong", "elong_to_ellip", "circle_area_to_r"])))
    build = staticmethod(lambda s: {"v": _arr(s)})
    run = staticmethod(lambda i, s: getattr(env.pf.utils, s["f"])(i["v"]))


@call("elliptical_area_to_r")
class _:
    gen = staticmethod(lambda rng: dict(_vec(rng), e=round(rng.uniform(1, 3), 2)))
    build = staticmethod(lambda s: {"v": _arr(s), "e": _arr(dict(s, v=[s["e"]] * len(s["v"])))})
    run = staticmethod(lambda i, s: env.pf.utils.elliptical_area_to_r(i["v"], i["e"]))


@call("hst_flux_to_abmag")
class _:
    gen = staticmethod(lambda rng: dict(_vec(rng, -5, 50), list=rng.random() < 0.4, gone=rng.choice(["PHOTFLAM", "PHOTZPT", "PHOTPLAM"]) if rng.random() < 0.3 else None,
                                           fits=rng.random() < 0.3))

    @staticmethod
    def build(s):
        from astropy.io.fits import Header

        h = {k: v for k, v in {"PHOTFLAM": 1.5e-20, "PHOTZPT": -21.1, "PHOTPLAM": 10552.0}.items() if k != s.get("gone")}
        return {"flux": list(s["v"]) if s["list"] else _arr(s), "header": Header(h) if s.get("fits") else h}

    run = staticmethod(lambda i, s: env.pf.utils.hst_flux_to_abmag(i["flux"], i["header"]))


@call("make_radius_list")
class _:
    gen = staticmethod(lambda rng: {"m": rng.randrange(5, 90), "n": rng.randrange(2, 40), "log": rng.random() < 0.5})
    build = staticmethod(lambda s: {})
    run = staticmethod(lambda i, s: env.pf.utils.make_radius_list(s["m"], s["n"], log=s["log"]))


@call("angular")
class _:
    gen = staticmethod(lambda rng: dict(_vec(rng), f=rng.choice(["a", "p", "pu"])))

    @staticmethod
    def build(s):
        from astropy import units as u

        v = _arr(s)
        return {"v": v * u.arcsec if s["f"] == "a" else v * u.pix if s["f"] == "pu" else v, "wcs": pk.wcs()}

    @staticmethod
    def run(i, s):
        f = env.pf.utils.angular_to_pixel if s["f"] == "a" else env.pf.utils.pixel_to_angular
        return f(i["v"], i["wcs"])


@call("match_catalogs")
class _:
    gen = staticmethod(lambda rng: {"a": [[round(rng.uniform(0, 1), 4) for _ in range(4)] for _ in range(2)],
                                    "b": [[round(rng.uniform(0, 1), 4) for _ in range(6)] for _ in range(2)], "as": _how(rng)})
    build = staticmethod(lambda s: dict(zip(("ra1", "dec1", "ra2", "dec2"), [_arr({"v": v, "as": s["as"]}) for v in s["a"] + s["b"]])))
    run = staticmethod(lambda i, s: env.pf.utils.match_catalogs(i["ra1"], i["dec1"], i["ra2"], i["dec2"]))


@call("get_interpolated_values")
class _:
    gen = staticmethod(lambda rng: {"n": rng.choice([5, 9, 30]), "kind": rng.choice(["cubic", "linear", None, "nearest"]), "num": rng.choice([10, 500]), "as": _how(rng), "seed": rng.randrange(1 << 20)})
    build = staticmethod(lambda s: {"x": _arr({"v": list(np.arange(float(s["n"]))), "as": s["as"]}), "y": _arr({"v": list(_smooth(s["seed"], s["n"])), "as": s["as"]})})
    run = staticmethod(lambda i, s: env.pf.utils.get_interpolated_values(i["x"], i["y"], num=s["num"], kind=s["kind"]))


@call("closest_value_index")
class _:
    gen = staticmethod(lambda rng: dict(_vec(rng), x=round(rng.uniform(0, 50), 2), g=rng.random() < 0.5))
    build = staticmethod(lambda s: {"v": _arr(s)})
    run = staticmethod(lambda i, s: env.pf.utils.closest_value_index(s["x"], i["v"], growing=s["g"]))


@call("cutout_subtract")
class _:
    gen = staticmethod(lambda rng: {"n": rng.choice([12, 20]), "t": rng.choice([2, 4, 6]), "x": rng.randrange(4, 9), "y": rng.randrange(4, 9), "as": _how(rng), "seed": rng.randrange(1 << 20)})
    build = staticmethod(lambda s: {"image": ik.wrap(_smooth(s["seed"], (s["n"], s["n"] + 3)), s["as"]), "target": ik.wrap(_smooth(s["seed"] + 1, (s["t"], s["t"])), s["as"])})
    run = staticmethod(lambda i, s: env.pf.utils.cutout_subtract(i["image"], i["target"], s["x"], s["y"]))


@call("plot_target", plots=True)
class _:
    gen = staticmethod(lambda rng: {"as": rng.choice(["f8", "ro", "f4"]), "size": rng.choice([None, 5, 10]), "seed": rng.randrange(1 << 20), "np": rng.random() < 0.5,
                                    "k": _opts(rng, c=["b"], lw=[2], vmin=[0, -1.5], vmax=[12], marker_base_size=[1, 4])})
    build = staticmethod(lambda s: {"image": ik.wrap(_smooth(s["seed"], (12, 14)), s["as"]), "pos": np.array([5.0, 6.0]) if s["np"] else [5, 6]})
    run = staticmethod(lambda i, s: env.pf.utils.plot_target(i["image"], i["pos"], size=s["size"], **s["k"]))


@call("mpl_tick_frame", plots=True, weight=1)
class _:
    gen = staticmethod(lambda rng: {"m": rng.random() < 0.5, "fs": rng.choice([None, 9])})
    build = staticmethod(lambda s: {})
    run = staticmethod(lambda i, s: env.pf.utils.mpl_tick_frame(minorticks=s["m"], tick_fontsize=s["fs"]))


# -- photometry ----------------------------------------------------------------
def _order(rng, r):
    """Radii mostly from the inside out."""
    u = rng.random()
    return r if u < 0.6 else r[::-1] if u < 0.85 else rng.sample(r, len(r))


def _phot_spec(rng):
    n = rng.choice([14, 20, 20, 14, 14, 20, 90])
    return {"n": n, "v": _opts(rng, vmin=[1, None], vmax=[5.0]), "m": n + rng.choice([0, 3]), "as": _how(rng), "err": rng.choice([None, "f8", "ro", "strided"]),
            "mask": rng.choice([None, None, "some", "ro"]), "nan": rng.random() < 0.1, "elong": rng.choice([1.0, 1.7]),
            "theta": rng.choice([0.0, 0.6]), "method": rng.choice(["exact", "exact", "center", "subpixel"]),
            "r": _order(rng, [round(v * rng.uniform(0.5, 1.2), 2) for v in range(1, rng.choice([4, 8]))]), "ras": rng.choice(["list", "f8", "ro"]),
            "seed": rng.randrange(1 << 20), "plot": rng.random() < 0.15, "pos": rng.choice(["tuple", "array", "list", "frac", "corner"])}


def _phot_inputs(s):
    im = _smooth(s["seed"], (s["n"], s["m"]))
    if s["nan"]:
        im[5, 5] = np.nan
    mask = None
    if s["mask"]:
        mask = np.ones(im.shape, dtype=bool)
        mask[2:5, 3:6] = False
        if s["mask"] == "ro":
            mask.flags.writeable = False
    r = list(s["r"]) if s["ras"] == "list" else ik.wrap(np.array(s["r"]).reshape(1, -1), s["ras"])[0]
    pos = (1, s["n"] - 2) if s["pos"] == "corner" else (s["m"] / 2 + 0.3, s["n"] / 2 - 0.2) if s["pos"] == "frac" else (s["m"] / 2, s["n"] / 2)
    pos = list(pos) if s["pos"] == "list" else pos
    return {"image": ik.wrap(im, s["as"]), "error": None if s["err"] is None else ik.wrap(np.sqrt(im), s["err"]), "mask": mask, "r_list": r,
            "position": np.array(pos) if s["pos"] == "array" else pos}


@call("radial_photometry", plots=None, weight=5)
class _:
    gen = staticmethod(_phot_spec)
    build = staticmethod(_phot_inputs)
    run = staticmethod(lambda i, s: env.pf.radial_photometry(i["image"], i["position"], i["r_list"], error=i["error"], mask=i["mask"], elong=s["elong"],
                                                             theta=s["theta"], method=s["method"], plot=s["plot"], **s["v"]))


@call("plot_apertures", plots=True)
class _:
    gen = staticmethod(_phot_spec)

    @staticmethod
    def build(s):
        d = _phot_inputs(s)
        return {"image": d["image"], "apertures": [env.pf.photometry.radial_elliptical_aperture((5, 5), 3, 1.5, 0.3), env.pf.photometry.radial_elliptical_annulus((5, 5), 3, 1)]}

    run = staticmethod(lambda i, s: env.pf.photometry.plot_apertures(i["image"], i["apertures"], lw=1 + len(s["r"]), color="r" if s["nan"] else "w", **s["v"]))


@call("apertures", weight=1)
class _:
    gen = staticmethod(lambda rng: {"e": rng.choice([1.0, 2.0])})
    build = staticmethod(lambda s: {"pos": np.array([4.0, 5.0])})

    @staticmethod
    def run(i, s):
        a = env.pf.photometry.radial_elliptical_aperture(i["pos"], 3, s["e"], 0.3)
        b = env.pf.photometry.radial_elliptical_annulus(i["pos"], 3, 1, s["e"], 0.3)
        return [np.array(a.positions), a.a, a.b, np.array(b.positions), b.a_in, b.a_out, b.b_out]


# -- segmentation ------------------------------------------------------------------
def _field_spec(rng):
    s = ik.gen_field(rng)
    s["as"] = rng.choice(["f8", "f8", "f8", "ro", "fortran", "strided", "ccd", "f4", "big-endian"])
    return s


def _field(s):
    return ik.wrap(ik.field(s), s["as"])


@call("make_segments")
class _:
    gen = staticmethod(_field_spec)
    build = staticmethod(lambda s: {"image": _field(dict(s, **{"as": "f8" if s["as"] == "ccd" else s["as"]})), "threshold": np.full(s["shape"], s["threshold"] + s["bg"])})
    run = staticmethod(lambda i, s: env.pf.segmentation.make_segments(i["image"], npixels=s["npixels"], threshold=i["threshold"] if s["seed"] % 3 else s["threshold"] + s["bg"]))


@call("deblend_segments", weight=1)
class _:
    gen = staticmethod(_field_spec)

    @staticmethod
    def build(s):
        from photutils.segmentation import detect_sources

        im = ik.field(s)
        return {"image": im if s["as"] == "ccd" else ik.wrap(im, s["as"]), "segm": detect_sources(im, s["threshold"] + s["bg"], npixels=s["npixels"])}

    run = staticmethod(lambda i, s: env.pf.segmentation.deblend_segments(i["image"], i["segm"], npixels=s["npixels"], nlevels=(8, 4, 15)[s["seed"] % 3], contrast=(0.01, 0.3)[s["seed"] % 2]))


@call("make_catalog", plots=None, holds=True, weight=3)
class _:
    gen = staticmethod(lambda rng: dict(_field_spec(rng), plot=rng.random() < 0.15, deblend=rng.random() < 0.7, wcs=rng.random() < 0.2, pix=rng.random() < 0.2,
                                         v=_opts(rng, vmin=[0, -2.0], vmax=[30.0], figsize=[[4, 4]])))
    build = staticmethod(lambda s: {"image": _field(s), "wcs": pk.wcs() if s["wcs"] else None,
                                    "threshold": np.full(s["shape"], s["threshold"] + s["bg"]) if s["pix"] else s["threshold"] + s["bg"]})
    run = staticmethod(lambda i, s: env.pf.make_catalog(i["image"], i["threshold"], wcs=i["wcs"], npixels=s["npixels"], nlevels=8, contrast=0.01, deblend=s["deblend"], plot=s["plot"],
                                                        **s["v"]))


def _seg_inputs(s):
    im = ik.field(s)
    cat, segm = ik.segmentation(s, im)
    return {"image": ik.wrap(im, s["as"]), "cat": cat, "segm": segm}


def _pick(rng):
    return {"mode": rng.choice(["label", "source", "list", "npint", "mixed", "zero"]), "k": rng.randrange(6), "k2": rng.randrange(6)}


def _source(i, p):
    cat = i["cat"]
    n = cat.nlabels
    src = cat[p["k"] % n]
    lab = int(np.atleast_1d(cat.labels)[p["k"] % n])
    lab2 = int(np.atleast_1d(cat.labels)[p["k2"] % n])
    m = p["mode"]
    return {"label": lab, "source": src, "list": [lab, lab2], "npint": np.int64(lab), "mixed": [lab2, lab], "zero": 0}[m]


@call("segm_mask", weight=3)
class _:
    gen = staticmethod(lambda rng: dict(_field_spec(rng), pick=_pick(rng), bgm=rng.random() < 0.4))

    @staticmethod
    def build(s):
        d = _seg_inputs(s)
        if d["cat"] is not None:
            d["source"] = _source(d, s["pick"])
        return d

    run = staticmethod(lambda i, s: env.pf.segmentation.segm_mask(i["source"], i["segm"], mask_background=s["bgm"]))


@call("masked_segm_image", weight=3)
class _:
    gen = staticmethod(lambda rng: dict(_field_spec(rng), pick=_pick(rng), bgm=rng.random() < 0.4, fill=rng.choice([None, 0.0, -5])))

    @staticmethod
    def build(s):
        d = _seg_inputs(s)
        if d["cat"] is not None:
            d["source"] = _source(d, s["pick"])
        return d

    run = staticmethod(lambda i, s: env.pf.segmentation.masked_segm_image(i["source"], i["image"], i["segm"], fill=s["fill"], mask_background=s["bgm"]))


@call("source_photometry", plots=None, weight=6)
class _:
    @staticmethod
    def gen(rng):
        return dict(_field_spec(rng), pick=dict(_pick(rng), mode="source"), bg_sub=rng.random() < 0.6, sigma_type=rng.choice(["clip", "clip", "bound"]),
                    sigma=rng.choice([2.0, 3.0]), mask_bg=rng.random() < 0.3, cut=rng.choice([None, 24, 31, 31, 56]), plot=rng.random() < 0.1,
                    method=rng.choice(["exact", "exact", "center", "subpixel"]), v=_opts(rng, vmin=[0.5], vmax=[20.0], figsize=[[5, 3]]),
                    err=rng.choice([None, "f8", "ro"]), r=_order(rng, [2.0 * v for v in range(1, rng.choice([4, 7]))]), ras=rng.choice(["list", "f8", "ro"]))

    @staticmethod
    def build(s):
        d = _seg_inputs(s)
        if d["cat"] is not None:
            d["source"] = _source(d, s["pick"])
        d["error"] = None if s["err"] is None else ik.wrap(ik.error_map(s), s["err"])
        d["r_list"] = list(s["r"]) if s["ras"] == "list" else ik.wrap(np.array(s["r"]).reshape(1, -1), s["ras"])[0]
        return d

    @staticmethod
    def run(i, s):
        return env.pf.source_photometry(i["source"], i["image"], i["segm"], i["r_list"], error=i["error"], cutout_size=s["cut"], bg_sub=s["bg_sub"],
                                        sigma=s["sigma"], sigma_type=s["sigma_type"], mask_background=s["mask_bg"], plot=s["plot"], method=s["method"], **s["v"])


@call("source_geometry", weight=1)
class _:
    gen = staticmethod(lambda rng: dict(_field_spec(rng), pick=dict(_pick(rng), mode="source"), row=rng.random() < 0.5))

    @staticmethod
    def build(s):
        d = _seg_inputs(s)
        if d["cat"] is not None:
            d["source"] = d["cat"].to_table(columns=["label", "maxval_xindex", "maxval_yindex", "elongation", "ellipticity", "orientation"] if 0 else None)[0] if 0 else _source(d, s["pick"])
        return d

    @staticmethod
    def run(i, s):
        g = env.pf.segmentation
        return [np.array(g.get_source_position(i["source"])), float(g.get_source_elong(i["source"])), float(g.get_source_ellip(i["source"])), float(g.get_source_theta(i["source"]))]


@call("order_cat", weight=1)
class _:
    gen = staticmethod(lambda rng: dict(_field_spec(rng), key=rng.choice(["area", "max_value", "label"]), rev=rng.random() < 0.5))
    build = staticmethod(_seg_inputs)
    run = staticmethod(lambda i, s: [int(v) for v in env.pf.order_cat(i["cat"], key=s["key"], reverse=s["rev"])])


@call("get_amplitude_at_r", weight=2)
class _:
    gen = staticmethod(lambda rng: {"img": ik.gen_single(rng, sizes=(24,)), "as": rng.choice(["f8", "ro", "ccd", "f4", "fortran"]), "r": rng.choice([3, 5.0, 8, 200, 0.5]),
                                    "ellip": rng.choice([0.1, 0.3, 0.0]), "theta": rng.choice([0.3, 1.2])})
    build = staticmethod(lambda s: {"image": ik.wrap(ik.single(s["img"]), s["as"])})
    run = staticmethod(lambda i, s: env.pf.segmentation.get_amplitude_at_r(s["r"], i["image"], 12, 12, s["ellip"], s["theta"]))


@call("plot_segments", plots=True, weight=1)
class _:
    gen = staticmethod(lambda rng: dict(_field_spec(rng), im=rng.random() < 0.5, res=rng.random() < 0.4, v=_opts(rng, vmin=[0], vmax=[20.0]), alpha=rng.choice([0.5, 0.5, 0.1, 1.0]),
                                         title=rng.choice(["t", None])))
    build = staticmethod(_seg_inputs)

    @staticmethod
    def run(i, s):
        if s["res"]:
            return env.pf.segmentation.plot_segment_residual(i["segm"], i["image"], **s["v"])
        return env.pf.plot_segments(i["segm"], image=i["image"] if s["im"] else None, title=s["title"], alpha=s["alpha"], **s["v"])


# -- models and fits -------------------------------------------------------------------
@call("bounds", weight=1)
class _:
    gen = staticmethod(lambda rng: {"o": {"n": [0.2, 8]}, "g": rng.random() < 0.5, "none": rng.random() < 0.4, "scribble": rng.random() < 0.5})
    build = staticmethod(lambda s: {"override": None if s["none"] else {k: tuple(v) for k, v in s["o"].items()}})

    @staticmethod
    def run(i, s):
        m = env.pf.modeling.models
        f = m.get_default_gen_sersic_bounds if s["g"] else m.get_default_sersic_bounds
        b = f() if i["override"] is None else f(i["override"])
        out = dict(b)
        if s["scribble"]:
            b["n"] = "mine"
            b["extra"] = 1
        return out


@call("make_grid", weight=1)
class _:
    gen = staticmethod(lambda rng: {"n": rng.randrange(1, 12), "o": [rng.randrange(-5, 5), rng.randrange(-5, 5)], "f": rng.randrange(1, 5)})
    build = staticmethod(lambda s: {"origin": list(s["o"])})
    run = staticmethod(lambda i, s: env.pf.modeling.models.make_grid(s["n"], origin=i["origin"], factor=s["f"]))


@call("model_to_image", weight=4)
class _:
    @staticmethod
    def gen(rng):
        return {"model": mk.gen_model(rng, 14), "psf": rng.random() < 0.8, "size": [rng.randrange(3, 20), rng.randrange(3, 20)] if rng.random() < 0.95 else [70, 64], "factor": rng.choice([2, 3, 5]),
                "center": rng.choice([None, [5, 6], [9, 3]]), "mode": rng.choice(["center"] * 6 + ["linear_interp", "oversample"]), "as": rng.choice(["f8", "ro", "fortran"])}

    @staticmethod
    def build(s):
        if not s["psf"]:
            return {"model": mk.build_sub(s["model"]["sub"]), "size": list(s["size"]), "center": s["center"] and list(s["center"])}
        psf = mk.build_psf(s["model"]["psf"])
        psf = None if psf is None else ik.wrap(psf, s["as"])
        sub = mk.build_sub(s["model"]["sub"])
        m = env.pf.PSFConvolvedModel2D(sub, psf=psf, oversample=mk.to_oversample(s["model"]["oversample"]), psf_oversample=s["model"]["pof"])
        if s["model"]["pa"]:
            m.psf_pa = s["model"]["pa"]
        return {"model": m, "sub": sub, "the_psf": psf, "size": list(s["size"]), "center": s["center"] and list(s["center"])}

    @staticmethod
    def run(i, s):
        return env.pf.model_to_image(i["model"], tuple(i["size"]), mode=s["mode"] if not s["psf"] else "center", factor=s["factor"] if s["mode"] == "oversample" else 1, center=i["center"])


@call("model_call", weight=3)
class _:
    gen = staticmethod(lambda rng: {"model": mk.gen_model(rng, 14), "n": rng.randrange(3, 12), "as": _how(rng), "kind": rng.choice(["wrapped", "plain"])})

    @staticmethod
    def build(s):
        sub = mk.build_sub(s["model"]["sub"])
        x, y = np.meshgrid(np.arange(float(s["n"])), np.arange(float(s["n"] + 2)))
        m = sub
        if s["kind"] == "wrapped":
            m = env.pf.PSFConvolvedModel2D(sub, oversample=mk.to_oversample(s["model"]["oversample"]))
        return {"model": m, "sub": sub, "x": ik.wrap(x, s["as"]), "y": ik.wrap(y, s["as"])}

    run = staticmethod(lambda i, s: i["model"](i["x"], i["y"]))


@call("ctor_psf_model", holds=True, weight=1)
class _:
    gen = staticmethod(lambda rng: {"model": mk.gen_model(rng, 14), "as": rng.choice(["f8", "ro"])})

    @staticmethod
    def build(s):
        psf = mk.build_psf(s["model"]["psf"])
        return {"sub": mk.build_sub(s["model"]["sub"]), "psf": None if psf is None else ik.wrap(psf, s["as"]), "over": s["model"]["oversample"]}

    @staticmethod
    def run(i, s):
        m = env.pf.PSFConvolvedModel2D(i["sub"], psf=i["psf"], oversample=i["over"], psf_oversample=s["model"]["pof"])
        k = m.model
        m.psf_pa = 3.0
        return [float(v) for v in k.parameters]


@call("analytic", weight=2)
class _:
    gen = staticmethod(lambda rng: dict(_vec(rng), f=rng.choice(["sersic_enclosed", "sersic_enclosed_inv", "petrosian_profile", "Ie_to_I0", "I0_to_Ie",
                                                                 "sersic_enclosed_model", "petrosian_model", "n_to_epsilon", "u2080", "c2080", "p0502"])))
    build = staticmethod(lambda s: {"v": _arr(s), "n": _arr(dict(s, v=[1.5] * len(s["v"])))})

    @staticmethod
    def run(i, s):
        m = env.pf.modeling.models
        f, v = s["f"], i["v"]
        if f in ("sersic_enclosed", "sersic_enclosed_inv"):
            return getattr(m, f)(v, 10.0, 5.0, i["n"])
        if f == "petrosian_profile":
            return m.petrosian_profile(v, 5.0, i["n"])
        if f in ("Ie_to_I0", "I0_to_Ie"):
            return getattr(m, f)(v, i["n"])
        if f in ("sersic_enclosed_model", "petrosian_model"):
            return getattr(m, f)()(v)
        a = m.PetroApprox
        return {"n_to_epsilon": a.n_to_epsilon, "u2080": a.u2080_to_c2080, "c2080": a.c2080_to_n, "p0502": a.p0502_to_epsilon}[f](v)


@call("fit", weight=6)
class _:
    gen = staticmethod(fk.gen_fit)

    @staticmethod
    def build(s):
        img, model, weights = fk.build_inputs(s)
        return {"image": img, "model": model, "weights": weights}

    run = staticmethod(lambda i, s: fk.call(s, i["image"], i["model"], i["weights"]))


def plot_fit_opts(rng):
    return _opts(rng, center=[[6, 5]], vmin=[0, -3.0], fontsize=[10], figsize=[[9, 3]], flux_label=["Flux"])


@call("plot_fit", plots=True, weight=1)
class _:
    gen = staticmethod(lambda rng: {"img": dict(ik.gen_single(rng), nan=rng.choice([0, 0, 2])), "cbar": rng.random() < 0.5, "v": rng.choice([None, 3.0]), "as": rng.choice(["f8", "ro", "ccd", "cutout", "f4"]), "k": plot_fit_opts(rng)})
    build = staticmethod(lambda s: {"image": ik.wrap(ik.single(s["img"]), s["as"]), "model": env.pf.PSFConvolvedModel2D(mk.build_sub(s["img"]["sub"]))})
    run = staticmethod(lambda i, s: env.pf.plot_fit(i["model"], i["image"], cbar=s["cbar"], vmax=s["v"], **s["k"])[2:])


@call("measure_fwhm", plots=None, weight=2)
class _:
    gen = staticmethod(lambda rng: {"img": dict(ik.gen_single(rng), nan=0, bg=0), "plot": rng.random() < 0.4, "print": rng.random() < 0.5, "as": rng.choice(["f8", "ro", "fortran"])})

    @staticmethod
    def build(s):
        s = dict(s, img=dict(s["img"], sub=dict(s["img"]["sub"], kind="gauss")))
        return {"image": ik.wrap(ik.single(s["img"]), s["as"])}

    run = staticmethod(lambda i, s: env.pf.modeling.fitting.measure_fwhm(i["image"], plot=s["plot"], printout=s["print"]))


@call("print_model_params", weight=1)
class _:
    gen = staticmethod(lambda rng: {"sub": mk.gen_sub(rng)})
    build = staticmethod(lambda s: {"model": mk.build_sub(s["sub"])})
    run = staticmethod(lambda i, s: env.pf.print_model_params(i["model"]))


# -- Petrosian ----------------------------------------------------------------------------
def _prof_spec(rng):
    return {"p": dict(pk.gen_profile(rng), nan=round(rng.random(), 3) if rng.random() < 0.15 else None), "set": pk.gen_settings(rng)}


def _prof_inputs(s):
    return dict(zip(("r_list", "area_list", "flux_list", "area_err", "flux_err"), pk.inputs(s["p"])))


@call("calculate_petrosian", weight=2)
class _:
    gen = staticmethod(_prof_spec)
    build = staticmethod(_prof_inputs)
    run = staticmethod(lambda i, s: env.pf.petrosian.core.calculate_petrosian(i["area_list"], i["flux_list"], area_err=i["area_err"], flux_err=i["flux_err"]))


@call("calculate_petrosian_r", weight=2)
class _:
    gen = staticmethod(_prof_spec)

    @staticmethod
    def build(s):
        d = _prof_inputs(s)
        r, area, flux, aerr, ferr = pk.measurements(s["p"])
        eta = np.concatenate([[np.nan], np.diff(flux) / np.maximum(np.diff(area), 1e-9) / (flux[1:] / area[1:])])
        err = None if ferr is None else 0.05 * np.abs(eta)
        conv = (lambda a: [float(v) for v in a]) if s["p"]["dtype"] == "list" else (lambda a: ik.wrap(a.reshape(1, -1), s["p"]["dtype"])[0])
        return {"r_list": d["r_list"], "petrosian_list": conv(eta), "petrosian_err": None if err is None else conv(err)}

    run = staticmethod(lambda i, s: env.pf.petrosian.core.calculate_petrosian_r(i["r_list"], i["petrosian_list"], petrosian_err=i["petrosian_err"], eta=s["set"]["eta"],
                                                                               interp_kind=s["set"]["interp_kind"], interp_num=s["set"]["interp_num"]))


@call("fraction_to_r", weight=3)
class _:
    gen = staticmethod(lambda rng: dict(_prof_spec(rng), f=rng.choice([0.2, 0.5, 0.9]), rp=round(rng.uniform(3, 40), 2), rpe=rng.choice([None, 0.5]), conc=rng.random() < 0.4))
    build = staticmethod(lambda s: dict(_prof_inputs(s), rpe=None if s["rpe"] is None else np.array(s["rpe"])))

    @staticmethod
    def run(i, s):
        st = s["set"]
        k = dict(flux_err=i["flux_err"], r_petrosian_err=i["rpe"], epsilon=st["epsilon"], epsilon_fraction=st["epsilon_fraction"],
                 interp_kind=st["interp_kind"], interp_num=st["interp_num"])
        c = env.pf.petrosian.core
        if s["conc"]:
            return c.calculate_concentration_index(s["f"], 0.8, i["r_list"], i["flux_list"], s["rp"], **k)
        return c.fraction_to_r(s["f"], i["r_list"], i["flux_list"], s["rp"], **k)


@call("Petrosian", weight=3)
class _:
    gen = staticmethod(lambda rng: dict(_prof_spec(rng), q=pk.gen_read(rng)))
    build = staticmethod(_prof_inputs)

    @staticmethod
    def run(i, s):
        p = pk.build(s["p"], s["set"], [i[k] for k in ("r_list", "area_list", "flux_list", "area_err", "flux_err")])
        return [pk.read(p, s["q"])] + [getattr(p, k) for k in ("r_list", "area_list", "flux_list", "area_err", "flux_err", "petrosian_list")]


@call("plot_petrosian", plots=True, weight=2)
class _:
    gen = staticmethod(lambda rng: {"p": pk.gen_profile(rng, good=True), "set": pk.gen_settings(rng), "w": rng.choice(["plot", "plot_cog", "imshow"]), "k": _opts(rng, **AX_OPTS), "k2": _opts(rng, **IM_OPTS)})
    build = staticmethod(lambda s: {"p": pk.build(s["p"], s["set"])})

    @staticmethod
    def run(i, s):
        getattr(i["p"], s["w"])(**s["k2" if s["w"] == "imshow" else "k"])


# -- corrections ------------------------------------------------------------------------------
@call("correction", weight=3)
class _:
    gen = staticmethod(lambda rng: {"p": dict(pk.gen_profile(rng, good=True), n=rng.choice([1.0, 2.0, 4.0]), r_eff=round(rng.uniform(8, 30), 2), num=40, reach=8, log=False),
                                    "set": dict(pk.DEFAULTS, eta=rng.choice([0.2, 0.3, 0.4, 0.5, 0.25]), epsilon_fraction=rng.choice([0.99, 0.8, 0.5, 0.7])),
                                    "f": rng.choice(["correct", "estimate_n", "estimate_epsilon", "filter", "unique"]), "enforce": rng.random() < 0.7,
                                    "key": rng.choice(["n", "n", "r_eff", "p02"]), "row": rng.randrange(1000)})
    build = staticmethod(lambda s: {"grid": gk.table(), "p": pk.build(s["p"], s["set"])})

    @staticmethod
    def run(i, s):
        c = env.pf.PetrosianCorrection(i["grid"], enforce_range=s["enforce"])
        if s["f"] == "filter":
            return c.filter_grid(s.get("key", "n"), i["grid"][s.get("key", "n")][s.get("row", 0) % len(i["grid"])])
        if s["f"] == "unique":
            return c.unique_grid_values("n")
        v = getattr(c, s["f"])(i["p"])
        return [v.epsilon, v.r_half_light] if s["f"] == "correct" else v


@call("plot_correction", plots=True, weight=1)
class _:
    gen = staticmethod(lambda rng: {"p": dict(pk.gen_profile(rng, good=True), n=2.0, r_eff=12.0, num=40, reach=8, log=False), "set": dict(pk.DEFAULTS),
                                    "rows": {"rows": rng.choice([8, 1000]), "seed": rng.randrange(1 << 20), "shuffle": rng.random() < 0.6} if rng.random() < 0.4 else None, "k": _opts(rng, **GRID_OPTS), "axs": rng.random() < 0.2})
    build = staticmethod(lambda s: {"grid": gk.table(s["rows"]), "p": pk.build(s["p"], s["set"])})

    @staticmethod
    def run(i, s):
        from matplotlib import pyplot as plt

        k = dict(s["k"])
        if s["axs"]:
            k["axs"] = list(plt.figure().subplots(1, 3))
        env.pf.PetrosianCorrection(i["grid"]).plot_correction(i["p"], **k)


@call("generate_correction", plots=None, weight=2)
class _:
    @staticmethod
    def gen(rng):
        s = {"r": rng.choice([[2, 3], [2, 3], [3, 2, 2], [2, -1]]), "n": rng.choice([[1.0], [1.0], [1.5, 1.0]]), "psf": rng.choice([None, {"seed": 3, "n": 3, "m": 0}]),
             "over": rng.choice([2, ["x_0", "y_0", 4, 2]]), "as": rng.choice(["list", "f8", "ro"]), "cpu": rng.choice([None, None, 1, 2, 3]), "out": None, "sim": None, "plot": False}
        if rng.random() < 0.5:
            s["out"] = {"name": rng.choice(["g.csv", "g.ecsv", "g.fits", "g.nonsense"]), "dir": rng.choice([".", ".", "missing"]), "old": rng.random() < 0.4, "overwrite": rng.random() < 0.5}
        if s["cpu"] in (2, 3):
            s["sim"] = {"seed": rng.randrange(1 << 30), "style": rng.choice(["uniform", "lifo", "heavy"]), "faults": []}
            if rng.random() < 0.4:
                s["sim"]["faults"].append({"task": rng.randrange(2), "at": int(10 ** rng.uniform(0, 3)), "kind": rng.choice(["die-before", "die", "die-idle", "error", "memory", "os"])})
        s["plot"] = rng.random() < 0.1
        return s

    @staticmethod
    def build(s):
        import os

        conv = (lambda v: list(v)) if s["as"] == "list" else (lambda v: ik.wrap(np.array(v, dtype=float).reshape(1, -1), s["as"])[0])
        psf = mk.build_psf(s["psf"])
        if psf is not None and s["as"] == "ro":
            psf.flags.writeable = False
        path = None
        if s["out"]:
            path = os.path.join(scratch_dir(), s["out"]["dir"], s["out"]["name"])
            if s["out"]["old"] and s["out"]["dir"] == ".":
                with open(path, "w") as f:
                    f.write("junk")
        return {"r_eff_list": conv(s["r"]), "n_list": conv(s["n"]), "psf": psf, "oversample": list(s["over"]) if isinstance(s["over"], list) else s["over"], "path": path}

    @staticmethod
    def run(i, s):
        import contextlib
        import os

        from . import simpool

        m = s["sim"]
        if i["path"] and not s["out"]["old"] and os.path.exists(i["path"]):
            os.remove(i["path"])  # left by an earlier call with the same inputs
        try:
            with simpool.Sim(m["seed"], m["style"], m["faults"]) if m else contextlib.nullcontext():
                return env.pf.generate_petrosian_sersic_correction(i["path"], psf=i["psf"], r_eff_list=i["r_eff_list"], n_list=i["n_list"], oversample=i["oversample"], n_cpu=s["cpu"],
                                                                   overwrite=bool(s["out"] and s["out"]["overwrite"]), plot=s["plot"])
        except simpool.Stuck as e:
            raise RuntimeError("stuck: %s" % e)  # not this property's concern


# -- files ------------------------------------------------------------------------------------
_serial = [0]


def scratch_dir():
    import os

    _serial[0] += 1
    d = os.path.join(env.scratch_root(), "io-%d-%d" % (os.getpid(), _serial[0]))
    os.mkdir(d)
    return d


@call("correction_write", files=True, holds=True, weight=2)
class _:
    gen = staticmethod(lambda rng: {"name": rng.choice(["g.csv", "g.ecsv", "g.fits", "g.nonsense"]), "old": rng.choice([None, None, "junk"]), "dir": rng.choice([".", ".", "missing"])})

    @staticmethod
    def build(s):
        import os

        d = scratch_dir()
        path = os.path.join(d, s["dir"], s["name"])
        if s["old"] and s["dir"] == ".":
            with open(path, "w") as f:
                f.write("junk")
        return {"grid": gk.table(), "path": path}

    run = staticmethod(lambda i, s: env.pf.PetrosianCorrection(i["grid"]).write(i["path"]))


@call("correction_read", files=True, weight=2)
class _:
    gen = staticmethod(lambda rng: {"name": rng.choice(["g.csv", "g.ecsv", "g.fits"]), "cut": rng.choice([None, None, 0.3, 0.9, 0.0])})

    @staticmethod
    def build(s):
        import os

        d = scratch_dir()
        path = os.path.join(d, s["name"])
        gk.table().write(path)
        if s["cut"] is not None:
            with open(path, "rb+") as f:
                f.truncate(int(os.path.getsize(path) * s["cut"]))
        return {"path": path}

    run = staticmethod(lambda i, s: env.pf.PetrosianCorrection.read(i["path"]).grid)
