"""Image workload: small galaxy fields and single-source images in every container petrofit accepts."""
import numpy as np

from . import env
from . import modelkit as mk

CONTAINERS = ("f8", "f8", "f8", "f4", "ro", "fortran", "strided", "big-endian", "i4")


def wrap(a, how):
    """The array in the given element type / memory layout."""
    if how == "f4":
        return a.astype("f4")
    if how == "i4":
        return np.round(a).astype("i4")
    if how == "ro":
        a = a.copy()
        a.flags.writeable = False
        return a
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.full((a.shape[0] * 2, a.shape[1] * 3), 7.25, dtype=a.dtype)
        b[::2, ::3] = a
        return b[::2, ::3]
    if how == "big-endian":
        return a.astype(a.dtype.newbyteorder(">"))
    if how == "masked":
        return np.ma.MaskedArray(a.copy(), mask=(np.arange(a.size).reshape(a.shape) % 37 == 5))
    if how == "ccd":
        from astropy.nddata import CCDData

        return CCDData(a.copy(), unit="adu")
    if how == "cutout":
        from astropy.nddata import Cutout2D

        b = np.full((a.shape[0] + 4, a.shape[1] + 4), -3.0)
        b[2:-2, 2:-2] = a
        return Cutout2D(b, (b.shape[1] / 2 - 0.5, b.shape[0] / 2 - 0.5), a.shape)
    return np.array(a)


def gen_single(rng, sizes=(10, 12, 15), big=0.0):
    """One source in a small image, for fitting."""
    n = rng.choice(sizes)
    if big and rng.random() < big:
        n = rng.choice([40, 40, 60, 72])
    sub = mk.gen_sub(rng, n, kinds=("sersic", "gauss", "moffat", "gen", "sersic+const", "custom"))
    sub["x_0"] = round(n / 2 + rng.uniform(-1, 1), 3) + 0.000371
    sub["y_0"] = round(n / 2 + rng.uniform(-1, 1), 3) + 0.000371
    sub["r"] = round(rng.uniform(1.5, 3.5), 3)
    sub["amp"] = round(rng.uniform(5, 50), 3)
    return {"sub": sub, "shape": [n, n + rng.choice([0, 0, 2])], "noise": rng.choice([0, 0.01, 0.05]), "seed": rng.randrange(1 << 30),
            "nan": rng.choice([0, 0, 0, 3]), "as": rng.choice(CONTAINERS + ("masked",)), "bg": rng.choice([0, 0, 1.5])}


def single(s):
    """The (plain float) image of a single-source spec; never calls petrofit rendering."""
    sub = mk.build_sub(s["sub"])
    h, w = s["shape"]
    y, x = np.mgrid[:h, :w].astype(float)
    im = np.array(sub.evaluate(x, y, *[np.array([v]) for v in sub.parameters]), dtype=float)
    rs = np.random.RandomState(s["seed"])
    im = im + s["bg"] + 0.01 * s["bg"] * x + s["noise"] * np.nanmax(im) * rs.standard_normal(im.shape)
    for _ in range(s["nan"]):
        im[rs.randint(h), rs.randint(w)] = np.nan
    return spike(twist(im, s.get("twist")), s.get("spike"))


def spike(im, how):
    """The image with a few pixels that no detector should give."""
    if how is None:
        return im
    kind, seed, n = how
    rs = np.random.RandomState(seed)
    for k in range(n):
        im[rs.randint(im.shape[0]), rs.randint(im.shape[1])] = {"inf": np.inf, "-inf": -np.inf, "both": [np.inf, -np.inf][k % 2], "huge": 1e300, "nan": np.nan}[kind]
    return im


def twist(im, how):
    """The image in steps of 1/1024 ("quant"), so that its sum does not depend on the order; the same pixels in another order."""
    if how is None:
        return im
    im = np.round(im * 1024) / 1024
    if how == "mirror":
        im = im[:, ::-1].copy()
    elif how == "turn":
        im = im[::-1, ::-1].copy()
    elif how == "swap":   # two pixels near the middle
        j, i = im.shape[0] // 2 | 1, im.shape[1] // 2 | 1
        im[j, [i, i + 1]] = im[j, [i + 1, i]]
    return im


def gen_field(rng):
    """Several sources on a background, for segmentation and photometry."""
    n = rng.choice([48, 60, 72])
    srcs = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        srcs.append([round(rng.uniform(8, n - 8), 3), round(rng.uniform(8, n - 8), 3), round(rng.uniform(50, 500), 2),
                     round(rng.uniform(1.5, 4), 3), round(rng.uniform(0.5, 1), 3), round(rng.uniform(-1.5, 1.5), 3)])
    return {"shape": [n, n + rng.choice([0, 0, 7])], "src": srcs, "noise": rng.choice([0.5, 1.0]), "seed": rng.randrange(1 << 30),
            "bg": rng.choice([0, 5.0]), "as": rng.choice(["f8", "f8", "f8", "ro", "fortran", "strided"]),
            "threshold": rng.choice([6.0, 10.0]), "npixels": rng.choice([4, 8]), "labels": rng.choice([None, None, "gaps", "shuffled", "first-gone"])}


def field(s):
    h, w = s["shape"]
    y, x = np.mgrid[:h, :w].astype(float)
    im = np.zeros((h, w))
    for cx, cy, amp, sig, q, th in s["src"]:
        c, d = np.cos(th), np.sin(th)
        u, v = (x - cx) * c + (y - cy) * d, -(x - cx) * d + (y - cy) * c
        im += amp * np.exp(-0.5 * (u ** 2 + (v / q) ** 2) / sig ** 2)
    rs = np.random.RandomState(s["seed"])
    return spike(twist(im + s["noise"] * rs.standard_normal(im.shape) + s["bg"] * (1 + 0.002 * x), s.get("twist")), s.get("spike"))


def error_map(s):
    h, w = s["shape"]
    y, x = np.mgrid[:h, :w]
    return s["noise"] * (1 + 0.1 * np.sin(x * 0.3) ** 2 + 0.05 * np.cos(y * 0.2) ** 2)


def segmentation(s, im=None):
    """(catalogue, segmentation map) made directly with photutils."""
    from photutils.segmentation import SourceCatalog, deblend_sources, detect_sources

    im = field(s) if im is None else np.asarray(im, dtype=float)
    segm = detect_sources(im, s["threshold"] + s["bg"], npixels=s["npixels"])
    if segm is None:
        return None, None
    segm = deblend_sources(im, segm, npixels=s["npixels"], nlevels=8, contrast=0.01, progress_bar=False)
    relabel(segm, s.get("labels"))
    return SourceCatalog(im, segm), segm


def relabel(segm, how):
    """Labels as they are after a user removed, merged or renumbered sources."""
    labs = [int(v) for v in segm.labels]
    if how == "gaps":
        _rename(segm, {v: 3 * v + 4 for v in labs})
    elif how == "shuffled":
        _rename(segm, dict(zip(labs, labs[1:] + labs[:1])))
    elif how == "first-gone" and len(labs) > 1:
        segm.remove_label(labs[0])


def _rename(segm, to):
    data = segm.data.copy()
    for a, b in to.items():
        data[segm.data == a] = b
    segm.data = data
