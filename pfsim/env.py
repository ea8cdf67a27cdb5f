"""Process environment of every simulated run.

`setup()` pins the ambient sources of nondeterminism (hash seed, BLAS threads, matplotlib
backend), imports petrofit from /repo's working tree and warms up third-party code, without
running any petrofit function: every simulated run starts from a fork of that state.
"""
import os
import sys

REPO = os.environ.get("PFSIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PINNED = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMEXPR_NUM_THREADS": "1",
    "LC_ALL": "C.UTF-8",
    "TZ": "UTC",
}

pf = None  # the petrofit package once imported
PF_DIR = None


def reexec_pinned(argv):
    """Re-execute the interpreter when the pinned environment is not in place."""
    want = dict(PINNED)
    if "PFSIM_HASHSEED" in os.environ:
        want["PYTHONHASHSEED"] = os.environ["PFSIM_HASHSEED"]
    if all(os.environ.get(k) == v for k, v in want.items()) and "PYTHONPATH" not in os.environ:
        return
    env = dict(os.environ)
    env.update(want)
    env.pop("PYTHONPATH", None)
    os.execve(sys.executable, [sys.executable] + argv, env)


def setup():
    """Import everything; returns the petrofit package."""
    global pf, PF_DIR
    if pf is not None:
        return pf
    from . import locks

    locks.install()  # locks created by petrofit at import time must be simulable
    # a private bytecode prefix: no stale .pyc of the code under test is ever read
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch_root(), "pyc-none")
    sys.path.insert(0, REPO)
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _warm_third_party()
        import petrofit

    pf = petrofit
    PF_DIR = os.path.dirname(os.path.realpath(petrofit.__file__)) + os.sep
    if not PF_DIR.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("petrofit imported from %s, not from %s" % (PF_DIR, REPO))
    return pf


_scratch = None


def scratch_root():
    """One scratch directory per check process, removed at exit by the process that made it."""
    global _scratch
    if _scratch is None:
        import atexit
        import shutil
        import tempfile

        _scratch = tempfile.mkdtemp(prefix="pfsim-")
        pid = os.getpid()

        def clean(path=_scratch, pid=pid):
            if os.getpid() == pid and os.path.basename(path).startswith("pfsim-"):
                shutil.rmtree(path, ignore_errors=True)

        atexit.register(clean)
    return _scratch


def _warm_third_party():
    """Trigger the lazy imports and caches of the dependencies (never petrofit's own code)."""
    import numpy as np
    import scipy.interpolate, scipy.ndimage, scipy.signal, scipy.special, scipy.optimize  # noqa
    import astropy.io.ascii, astropy.io.fits, astropy.io.votable, astropy.io.misc  # noqa
    import astropy.nddata, astropy.stats, astropy.table, astropy.wcs, astropy.coordinates  # noqa
    import photutils.aperture, photutils.isophote, photutils.segmentation  # noqa
    import concurrent.futures.process, multiprocessing, multiprocessing.pool  # noqa
    import multiprocessing.context, multiprocessing.connection, multiprocessing.queues  # noqa
    import multiprocessing.synchronize, multiprocessing.popen_fork  # noqa
    import astropy.utils.console  # noqa
    from astropy.modeling import models, fitting
    from astropy.table import Table
    from astropy.nddata import CCDData, Cutout2D, block_reduce
    import matplotlib

    matplotlib.use("Agg")
    from matplotlib import pyplot as plt

    root = scratch_root()
    fig, ax = plt.subplots()
    ax.plot([1, 2], [1, 2], label="$R_{p}$")
    ax.legend()
    ax.imshow(np.zeros((3, 3)))
    fig.savefig(os.path.join(root, "warm.png"))
    plt.close("all")
    t = Table(rows=[[1.0, 2.0], [3.0, 4.0]], names=["a", "b"])
    for name, fmt in (("w.csv", None), ("w.ecsv", None), ("w.fits", None)):
        p = os.path.join(root, name)
        t.write(p, format=fmt, overwrite=True)
        Table.read(p, format=fmt)
        os.unlink(p)
    str(t)
    y, x = np.mgrid[:12, :12]
    g = models.Gaussian2D(10, 6, 6, 2, 2)
    im = g(x, y)
    fitting.TRFLSQFitter()(models.Gaussian2D(9, 6, 6, 2, 2), x, y, im)
    fitting.LevMarLSQFitter()(models.Gaussian2D(9, 6, 6, 2, 2), x, y, im)
    fitting.LinearLSQFitter()(models.Planar2D(), x.ravel(), y.ravel(), im.ravel())
    block_reduce(im, 2)
    scipy.signal.convolve(im, np.ones((3, 3)), mode="same")
    segm = photutils.segmentation.detect_sources(im, 1.0, npixels=3)
    photutils.segmentation.deblend_sources(im, segm, npixels=3, progress_bar=False)
    cat = photutils.segmentation.SourceCatalog(im, segm)
    cat.to_table()
    photutils.aperture.EllipticalAperture((6, 6), 3, 2, theta=0.1).do_photometry(im)
    astropy.stats.sigma_clip(im, 3)
    Cutout2D(im, (6, 6), 4)
    CCDData(im, unit="adu")
    scipy.interpolate.interp1d(np.arange(9.0), np.arange(9.0) ** 2, kind="cubic")(3.3)
    os.unlink(os.path.join(root, "warm.png"))
