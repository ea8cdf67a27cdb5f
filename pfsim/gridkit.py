"""Correction grids for look-up workloads: a stored grid (made once by petrofit) and variations of it."""
import os

import numpy as np

from . import env

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "corr.csv")
_table = None


def table(spec=None):
    """A fresh astropy Table; never read through petrofit."""
    global _table
    if _table is None:
        from astropy.table import Table

        _table = Table.read(DATA, format="ascii.csv")
    t = _table.copy()
    if spec:
        if spec.get("rows"):
            idx = np.random.RandomState(spec["seed"]).permutation(len(t))[: spec["rows"]]
            t = t[idx if spec.get("shuffle") else np.sort(idx)]
        if spec.get("twist"):
            # a grid made with another PSF, say: other values for the same pairs, between the first row and the last
            rs = np.random.RandomState(spec["twist"]["seed"])
            for k in spec["twist"]["cols"]:
                v = np.array(t[k], dtype="f8")
                v[1:-1] *= rs.uniform(*spec["twist"]["by"], size=len(v))[1:-1]
                t[k] = v
    return t


def correction(spec=None, **k):
    return env.pf.PetrosianCorrection(table(spec), **k)
