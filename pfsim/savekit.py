"""Saving correction grids: destinations, formats, and reading back what a path holds."""
import os

import numpy as np

FORMATS = [["g.csv", None], ["g.csv", None], ["g.ecsv", None], ["g.fits", None], ["g.fits", None], ["g.txt", "ascii.csv"], ["g.dat", "ascii.ecsv"], ["g.bin", "fits"], ["a grid.v2.csv", None], ["gr\u00fcd \u2603.csv", None], ["gr\udcffd.ecsv", None]]
BAD_FORMATS = [["g.yaml", None], ["g", None], ["g.csv", "nonsense"], ["g.hdf5", None], ["g.parquet", None], ["g.xyz", None], ["g.fits", "ascii.nothing"]]
DESTS = ("plain", "plain", "plain", "plain", "symlink", "dangling", "relative", "pathlib", "home", "nested")
BAD_DESTS = ("missing-dir", "is-dir", "file-as-dir", "empty", "long")

OLD = b"something somebody kept here\n1,2,3\n"


def place(d, o):
    """Builds the destination in directory d (cwd and HOME are set to d by `enter`); (argument, real path)."""
    import pathlib

    name = o["fmt"][0]
    path = os.path.join(d, name)
    dest = o["dest"]
    if dest == "nested":
        os.makedirs(os.path.join(d, "sub", "deeper"), exist_ok=True)
        path = os.path.join(d, "sub", "deeper", name)
    elif dest == "missing-dir":
        path = os.path.join(d, "no", "such", name)
    elif dest == "file-as-dir":
        with open(os.path.join(d, "afile"), "wb") as f:
            f.write(b"x")
        path = os.path.join(d, "afile", name)
    elif dest == "long":
        path = os.path.join(d, "n" * 300 + name)
    elif dest == "is-dir":
        os.makedirs(path, exist_ok=True)
    elif dest in ("symlink", "dangling"):
        os.makedirs(os.path.join(d, "real"), exist_ok=True)
        target = os.path.join(d, "real", "target" + os.path.splitext(name)[1])
        if not os.path.lexists(path):
            os.symlink(os.path.relpath(target, os.path.dirname(path)), path)
    if o.get("old") and dest not in BAD_DESTS and dest != "dangling" and not os.path.exists(path):
        with open(path, "wb") as f:
            f.write(OLD)
    arg = {"relative": name, "pathlib": pathlib.Path(path), "home": os.path.join("~", name), "empty": ""}.get(dest, path)
    return arg, ("" if dest == "empty" else path)


def enter(d):
    os.chdir(d)
    os.environ["HOME"] = d


def content(path):
    """Bytes of the destination, or None when there is no such file."""
    try:
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        return None


def read_own(path, fmt):
    """(names, values) of a stored grid, read without petrofit."""
    import warnings
    from astropy.table import Table

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t = Table.read(path, format=fmt)
    return plain(t)


def plain(t):
    return list(t.colnames), [bits(np.asarray(t[c])) for c in t.colnames]


def bits(a):
    """Kind and exact values of a column."""
    if a.dtype.kind == "f":
        return ["f", [float(v).hex() if v == v else "nan" for v in a.astype(float)]]
    return [a.dtype.kind, [str(v) for v in a]]


def diff(a, b):
    if a[0] != b[0]:
        return "columns %s instead of %s" % (a[0][:6], b[0][:6])
    for n, x, y in zip(a[0], a[1], b[1]):
        if x != y:
            if len(x[1]) != len(y[1]):
                return "%d rows instead of %d" % (len(x[1]), len(y[1]))
            if x[0] != y[0]:
                return "column %s of kind %s instead of %s" % (n, x[0], y[0])
            i = next(i for i, (u, v) in enumerate(zip(x[1], y[1])) if u != v)
            return "%s[%d]=%s instead of %s" % (n, i, x[1][i], y[1][i])
    return None
