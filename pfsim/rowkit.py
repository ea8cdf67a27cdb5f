"""Correction-grid generation workload: cheap (index, radius) pairs, settings, and each row computed alone."""
import os
import pickle

import numpy as np

from . import env
from . import modelkit as mk
from .digest import snap
from .faults import die_with_parent, fork_call

A_N = [1.0, 1.5, 2.0, 2.5, 3.0]
A_R = [2, 2.5, 3, 3.3, 4, 5]
B_N = [0.5, 1.0]
B_R = [8, 9.5]
C_N = [0.5, 1.0]   # the smallest and the largest images
C_R = [1, 17]
D_N = [1.5, 1.502, 1.50004]   # pairs that are nearly one another
D_R = [3, 3.001, 3.00002]
CONFIGS = [
    {"psf": None, "over": 1, "pof": None},
    {"psf": None, "over": 4, "pof": None},
    {"psf": None, "over": ["x_0", "y_0", 4, 5], "pof": None},
    {"psf": {"seed": 11, "n": 3, "m": 0}, "over": 2, "pof": None},
    {"psf": {"seed": 12, "n": 5, "m": 0}, "over": 4, "pof": 2},
    {"psf": {"seed": 13, "n": 3, "m": 0}, "over": ["x_0", "y_0", 6, 4], "pof": None},
    # neighbours: each differs from one of the above in a single respect
    {"psf": {"seed": 14, "n": 3, "m": 0}, "over": 2, "pof": None, "small": True},
    {"psf": None, "over": 2, "pof": None, "small": True},
    {"psf": {"seed": 12, "n": 5, "m": 0}, "over": 4, "pof": None, "small": True},
    {"psf": {"seed": 15, "n": 5, "m": 0}, "over": 4, "pof": 2, "small": True},
    {"psf": {"seed": 13, "n": 3, "m": 0}, "over": ["x_0", "y_0", 4, 4], "pof": None, "small": True},
    {"psf": None, "over": ["x_0", "y_0", 40, 2], "pof": None, "small": True},
    # so wide that some pairs have no concentration; not normalised
    {"psf": {"seed": 0, "n": 15, "m": 0, "flat": 1.0}, "over": None, "pof": None, "small": True},
    {"psf": {"seed": 0, "n": 3, "m": 0, "flat": 2.0}, "over": None, "pof": None, "small": True},
]
MEASURED = ("u_r_20", "u_r_80", "u_c2080")   # a pair without these has no correction
SMALL_N = [1.0, 1.5, 2.0]
SMALL_R = [2, 2.5, 3, 3.3]
NEAR = {0: [7, 1], 1: [7, 0], 2: [11, 10], 3: [6, 7], 4: [8, 9], 5: [10, 6], 6: [3, 7], 7: [1, 3], 8: [4, 9], 9: [4, 8], 10: [5, 2], 11: [2, 10], 12: [13, 7], 13: [12, 7]}
MEMO = {}


def known(cfg, ns, rs):
    """Whether the palette has every pair of these lists under these settings."""
    return all(any(n in a and r in b for a, b in palettes(cfg)) for n in ns for r in rs)


def palettes(cfg):
    if CONFIGS[cfg].get("small"):
        return ((SMALL_N, SMALL_R),)
    return ((A_N, A_R), (B_N, B_R)) + (((C_N, C_R),) if cfg == 0 else ()) + (((D_N, D_R),) if cfg in (0, 3) else ())


def settings(cfg, as_list=False):
    c = CONFIGS[cfg]
    o = c["over"]
    return {"psf": mk.build_psf(c["psf"]), "oversample": o if not isinstance(o, list) else list(o) if as_list else tuple(o), "psf_oversample": c["pof"]}


def row_alone(cfg, n, r):
    """The one row of the grid of a single pair, or what it raises.  Run in an untouched process."""
    import warnings

    warnings.simplefilter("ignore")
    try:
        t = env.pf.generate_petrosian_sersic_correction(None, r_eff_list=[r], n_list=[n], **settings(cfg))
    except Exception as e:
        return ("raised", type(e).__name__, list())
    if len(t) != 1:
        return ("rows", len(t), list())
    return ("ok", list(t.colnames), [float(v) for v in t[0]])


def prepare(cfgs=None, nproc=8):
    """Every palette row, each in its own fork of this untouched process."""
    import selectors

    todo = [(c, n, r) for c in (range(len(CONFIGS)) if cfgs is None else cfgs)
            for ns, rs in palettes(c) for n in ns for r in rs]
    todo = list(dict.fromkeys(todo))
    todo.sort(key=lambda k: -k[2])
    sel = selectors.DefaultSelector()
    live = {}
    while todo or live:
        while todo and len(live) < nproc:
            key = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    die_with_parent()
                    os.close(r)
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                    out = row_alone(*key)
                    with os.fdopen(w, "wb") as f:
                        f.write(pickle.dumps(out))
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = [key, pid, b""]
            sel.register(r, selectors.EVENT_READ)
        for k, _ in sel.select():
            d = os.read(k.fd, 1 << 16)
            if d:
                live[k.fd][2] += d
                continue
            key, pid, data = live.pop(k.fd)
            sel.unregister(k.fd)
            os.close(k.fd)
            os.waitpid(pid, 0)
            if not data:
                raise RuntimeError("row %s could not be computed" % (key,))
            MEMO[key] = pickle.loads(data)


def expected(cfg, ns, rs):
    """("ok", names, rows) or ("raised", type) of the grid over the lists."""
    names = None
    rows = []
    for n in ns:
        for r in rs:
            e = MEMO[(cfg, n, r)]
            if e[0] == "raised":
                return e
            if e[0] == "rows":
                return e
            names = e[1]
            rows.append(e[2])
    return ("ok", names, rows)


def same(a, b):
    return a == b or (a != a and b != b)


def differs(table, names, rows):
    """None when the table holds exactly these rows under these names."""
    if list(table.colnames) != list(names):
        return "columns %s" % table.colnames
    if len(table) != len(rows):
        return "%d rows instead of %d" % (len(table), len(rows))
    for i, row in enumerate(rows):
        for name, v in zip(names, row):
            try:
                got = float(table[name][i])
            except (TypeError, ValueError):
                return "row %d %s=%r instead of %r" % (i, name, table[name][i], v)
            if not same(got, v):
                return "row %d (n=%r, r_eff=%r) %s=%r instead of %r" % (i, rows[i][0], rows[i][1], name, got, v)
    return None


def gen_lists(rng, big=0.0, small=False, wide=False, close=False):
    if rng.random() < big:
        n = [rng.choice(A_N[:3]) for _ in range(rng.randrange(21, 24))]
        r = [rng.choice(A_R[:3]) for _ in range(rng.randrange(24, 27))]
        return n, r
    if small:
        ns, rs = SMALL_N, SMALL_R
    elif wide and rng.random() < 0.15:
        return [rng.choice(C_N) for _ in range(rng.choice([1, 2]))], [rng.choice(C_R) for _ in range(rng.choice([1, 2, 3]))]
    elif close and rng.random() < 0.3:
        ns, rs = D_N, D_R
    elif rng.random() < 0.12:
        ns, rs = B_N, B_R
    else:
        ns, rs = (A_N[:4] if rng.random() < 0.85 else A_N), A_R
    n = [rng.choice(ns) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
    r = [rng.choice(rs) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    if rng.random() < 0.4:
        n, r = sorted(set(n)), sorted(set(r))
    return n, r


def as_arg(v, how):
    if how == "list":
        return list(v)
    if how == "tuple":
        return tuple(v)
    if how == "npscalars":
        return [np.float64(x) for x in v]
    a = np.array(v, dtype=float)
    if how == "ro":
        a.flags.writeable = False
    return a


HOWS = ("list", "list", "tuple", "f8", "ro", "npscalars")


class CheapRows:
    """Caches the real per-pair computation by its argument (large grids only).

    The function that computes a row is recognised by what it does: the outermost module-level function of petrofit that
    returns the row while a grid of one pair is made.
    """

    found = None

    @classmethod
    def look(cls):
        import sys

        seen = []

        def prof(frame, event, arg):
            if event == "return" and isinstance(arg, (list, tuple)) and "petrofit" in frame.f_code.co_filename:
                seen.append((frame.f_code, frame.f_globals.get("__name__"), list(arg)))

        old = sys.getprofile()
        sys.setprofile(prof)
        try:
            t = env.pf.generate_petrosian_sersic_correction(None, r_eff_list=[2], n_list=[1.0], oversample=1)
        finally:
            sys.setprofile(old)
        row = list(t[0])
        for code, name, values in reversed(seen):
            m = sys.modules.get(name)
            f = getattr(m, code.co_name, None)
            if getattr(f, "__code__", None) is code and len(values) == len(row) and all(same(a, b) for a, b in zip(values, row)):
                return (m, code.co_name)
        return ()

    def __enter__(self):
        if CheapRows.found is None:
            CheapRows.found = CheapRows.look()
        self.ok = bool(CheapRows.found)
        if self.ok:
            global _REAL, _SEEN
            self.m, self.name = CheapRows.found
            self.real = getattr(self.m, self.name)
            _REAL, _SEEN = self.real, {}
            setattr(self.m, self.name, cheap)
        return self

    def __exit__(self, *a):
        if self.ok:
            setattr(self.m, self.name, self.real)


_REAL = None
_SEEN = {}


def cheap(*args, **k):
    key = repr(snap([args, k]))
    if key not in _SEEN:
        _SEEN[key] = _REAL(*args, **k)
    return list(_SEEN[key]) if isinstance(_SEEN[key], list) else _SEEN[key]
