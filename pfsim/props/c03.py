"""C03: saved correction grids are all-or-nothing."""
import contextlib
import io
import os
import re
import shutil
import sys

import numpy as np

from .. import env
from .. import faults
from .. import gridkit as gk
from .. import rowkit as rk
from .. import savekit as sk
from .. import simfs
from ..digest import short
from ..faults import ChildFailed, fork_call
from ..monitor import Monitor

ID = "C03"
JUDGE = True
RUNS = {"quick": 700, "thorough": 60000}
RULE = ("histories of saves of random grids (rows, values including NaN, infinities, denormals) to the same or different "
        "destinations by PetrosianCorrection.write and by grid generation with and without overwriting, each completed, or killed at a "
        "byte of the data written to any one of the files it writes, at a file operation, or at a numbered point of the code, or failing there (and then meeting a full disk); the destination "
        "is read back afterwards by an untouched process (and by one that has been reading it all along), and at every operation and point by an observer; loads fail at a byte, "
        "or deliver short reads.  distinct_nontrivial counts distinct (way of saving, destination, format, what was there, "
        "fault and where, what is there afterwards) states")
MEASURE = "distinct (writer, destination kind, format, earlier content, fault and operation or point it hit, content afterwards)"
REAL = "all of petrofit, astropy's table readers and writers, the kernel's file system (scratch directory), process death by the kernel"
STUBS = "errors of file operations (audit-hook seam), read errors (raw file object), file size limit (applied by the kernel), the edge of the directory tree as the edge of a device"
ASSUMPTIONS = ["a process crash, not a power failure: what the kernel has accepted stays", "FITS data blocks are read by the same raw file object when read errors are injected"]

ERRNOS = ["ENOSPC", "EIO", "EACCES", "EROFS", "EDQUOT"]
SPECIALS = [float("nan"), float("inf"), float("-inf"), 5e-324, -0.0, 1e308, 1e-300, 0.1 + 0.2, 123456789.12345679]


def gen_grid(rng):
    return {"rows": rng.choice([1, 2, 5, 12, 40, 70, 200]), "seed": rng.randrange(1 << 30), "special": rng.choice([0, 0, 1, 4]), "scale": rng.random() < 0.5,
            "desc": rng.random() < 0.2, "object": rng.random() < 0.1}


def gen_fault(rng):
    u = rng.random()
    if u < 0.15:
        return None
    if u < 0.3:
        return {"how": "observe"}
    if u < 0.5:
        return {"how": "limit", "frac": rng.choice([0.0, 1.0, round(rng.random(), 4), round(rng.random(), 4), round(rng.random(), 4)]), "kill": rng.random() < 0.6,
                "arm": rng.choice([None, 0.0, 0.999, 0.999, round(rng.random(), 4)])}
    if u < 0.75:
        return {"how": "op", "frac": round(rng.random(), 4), "errno": rng.choice(ERRNOS), "sticky": rng.random() < 0.3, "crash": rng.random() < 0.6,
                "then": rng.choice([None, {"frac": round(rng.random(), 4), "kill": rng.random() < 0.6}])}
    return {"how": "point", "frac": round(rng.random(), 4), "kind": rng.choice(["die", "die", "interrupt", "memory", "error", "os"])}


def generate(rng, tier, idx):
    ops = []
    fmt = rng.choice(sk.FORMATS)
    dest = rng.choice(sk.DESTS)
    for k in range(rng.choice([1, 2, 3])):
        u = rng.random()
        if u < 0.22:
            ops.append({"op": "load", "grid": gen_grid(rng), "fmt": rng.choice(sk.FORMATS[:5]), "how": rng.choice(["whole", "fail", "fail", "fail", "pieces", "open"]),
                        "frac": round(rng.random(), 4), "piece": rng.choice([1, 7, 100, 4096]), "err": rng.choice(["EIO", "ESTALE", "EAGAIN", "ETIMEDOUT"])})
            continue
        o = {"op": "save", "via": rng.choice(["write", "write", "write", "generate", "generate"]), "fmt": fmt, "dest": dest, "old": rng.random() < 0.35, "grid": gen_grid(rng),
             "overwrite": rng.random() < 0.75, "fault": gen_fault(rng), "same": rng.random() < 0.7, "reread": rng.random() < 0.6,
             "n": [rng.choice(rk.A_N[:3])], "r": [rng.choice(rk.A_R[:4]) for _ in range(rng.choice([1, 2]))]}
        if rng.random() < 0.3:
            o["fmt"], o["dest"] = rng.choice(sk.FORMATS), rng.choice(sk.DESTS)
        ops.append(o)
    return {"ops": ops}


def make_grid(g):
    """A grid with the columns of a real one and the values of the spec."""
    from astropy.table import Table

    rs = np.random.RandomState(g["seed"])
    base = gk.table()
    cols = {c: np.array(base[c], dtype=float) for c in base.colnames}
    idx = rs.randint(0, len(base), g["rows"])
    out = Table()
    for c in base.colnames:
        v = cols[c][idx]
        if g["scale"]:
            v = v * (1 + 1e-3 * rs.standard_normal(len(v)))
        for _ in range(g["special"]):
            if rs.rand() < 0.3:
                v[rs.randint(len(v))] = SPECIALS[rs.randint(len(SPECIALS))]
        out[c] = v
    if g["object"]:
        out = Table(rows=[list(r) for r in out.as_array().tolist()], names=base.colnames)
    return out


def load(path, fmt):
    """Judge: the grid as petrofit reads it back in an untouched process."""
    import warnings

    warnings.simplefilter("ignore")
    try:
        return ("ok",) + sk.plain(env.pf.PetrosianCorrection.read(path, fmt).grid)
    except Exception as e:
        return ("raised", type(e).__name__ + ": " + re.sub(r"\S*/run-\d+", "SCRATCH", str(e))[:150])


def saver(o, arg):
    pf = env.pf
    if o["via"] == "write":
        c = pf.PetrosianCorrection(make_grid(o["grid"]))
        return lambda: c.write(arg, file_format=o["fmt"][1])
    return lambda: pf.generate_petrosian_sersic_correction(arg, r_eff_list=o["r"], n_list=o["n"], oversample=1, out_format=o["fmt"][1], overwrite=o["overwrite"])


def attempt(d, o, fs, faulter, observe):
    """In a fork: the save under the planned fault."""
    sk.enter(d)
    arg, path = sk.place(d, dict(o, old=False))
    call = saver(o, arg)
    marks = []
    seen = {}

    def look(*a):
        b, fs.blind = fs.blind, True
        try:
            c = sk.content(path)
            seen.setdefault(short(c), c)
        finally:
            fs.blind = b

    if observe:
        fs.on_op = look
    elif faulter is not None:
        fs.on_op = lambda kind: marks.append(faulter.n)
    real, sys.stdout = sys.stdout, io.StringIO()
    try:
        with fs, (Monitor(look, ("start", "cret", "call")) if observe else contextlib.nullcontext()):
            if faulter is not None:
                how, val = faulter.run(call)
            else:
                try:
                    how, val = "ok", call()
                except BaseException as e:
                    how, val = "exc", e
        said = sys.stdout.getvalue().strip()
    finally:
        sys.stdout = real
    return {"how": how, "err": repr(val)[:150] if how == "exc" else "", "said": said, "ops": fs.ops, "fired": fs.fired or (faulter.fired if faulter is not None else None),
            "marks": marks, "seen": list(seen.values()), "n": faulter.n if faulter is not None else 0}


def execute(plan, ctx):
    gen = [o for o in plan["ops"] if o.get("via") == "generate"]
    grids = {}
    with rk.CheapRows():
        for o in gen:   # each pair's row is computed here, outside any fault
            t = env.pf.generate_petrosian_sersic_correction(None, r_eff_list=o["r"], n_list=o["n"], oversample=1)
            grids[repr([o["n"], o["r"]])] = sk.plain(t)
        base = os.path.join(ctx.scratch, "d")
        os.mkdir(base)
        for k, o in enumerate(plan["ops"]):
            if o["op"] == "load":
                loading(ctx, k, o)
            else:
                saving(ctx, k, o, base if o["same"] else None, grids)


def saving(ctx, k, o, d, grids):
    f = o["fault"]
    if d is None:
        d = os.path.join(ctx.scratch, "d%d" % k)
        os.mkdir(d)
    arg, path = sk.place(d, o)
    before = sk.content(path)
    reread(ctx, "op %d, before a save" % k, o, path)
    if o["via"] == "write":
        new = sk.plain(make_grid(o["grid"]))
    else:
        new = grids[repr([o["n"], o["r"]])]
    name = "op %d %s %s to %s (%s there) overwrite=%s fault=%s" % (k, o["via"], o["fmt"], o["dest"], "nothing" if before is None else "a file", o["overwrite"], f)
    may = o["via"] == "generate" and o["overwrite"]   # an existing file may be replaced
    spec = limit = faulter = arm = None
    kill = False
    if f is not None and f["how"] in ("op", "point", "limit"):
        t = os.path.join(ctx.scratch, "dry%d" % k)
        shutil.copytree(d, t, symlinks=True)
        dry = fork_call(attempt, t, o, simfs.FS(t), faults.Faulter(f["kind"]) if f["how"] == "point" else None, False)
        if f["how"] == "op":
            w = [i for i, op in enumerate(dry["ops"]) if op != "open-read"]
            if w:
                spec = {"nth": w[min(int(f["frac"] * len(w)), len(w) - 1)], "errno": f["errno"], "sticky": f["sticky"], "crash": f["crash"]}
                then = f.get("then")
                if then and not f["crash"]:   # whatever is tried after the failure meets a full disk
                    c = sk.content(sk.place(t, dict(o, old=False))[1])
                    limit, kill, arm = int(then["frac"] * len(c or b"x" * 3000)), then["kill"], "fired"
        elif f["how"] == "limit":
            c = sk.content(sk.place(t, dict(o, old=False))[1])
            limit, kill = int(f["frac"] * len(c or b"x" * 3000)), f["kill"]
            if f.get("arm") is not None:
                arm = int(f["arm"] * dry["ops"].count("open-write"))
        elif dry["marks"]:
            lo, hi = dry["marks"][0], dry["marks"][-1]
            lo = max(lo - 5, 0)
            faulter = faults.Faulter(f["kind"], at=lo + int(f["frac"] * (hi - lo + 5)))
        simfs.remove_tree(t, ctx.scratch)
    observe = f is not None and f["how"] == "observe"
    died = False
    try:
        res = fork_call(attempt, d, o, simfs.FS(d, spec, limit, kill, arm=arm), faulter, observe)
    except ChildFailed:
        planned = kill or (spec and spec["crash"]) or (faulter is not None and faulter.kind == "die")
        if not planned:
            ctx.violate("process-died", "%s: the process ended" % name)
        died = True
        res = {"how": "died", "fired": "crash", "said": "", "seen": [], "err": ""}
    after = sk.content(path)
    fired = res["fired"] or ("disk full" if limit is not None and res["how"] == "exc" else None)
    if fired or died:
        ctx.fault(f["how"] + (" crash" if died else " error"))
        ctx.count("nontrivial")
    if observe:
        ctx.fault("observer look", len(res["seen"]))
        ctx.count("nontrivial")

    def state(c):
        """old / new / what is wrong with it"""
        if c == before:
            return "old"
        if c is None:
            return "gone"
        p = os.path.join(ctx.scratch, "look" + os.path.splitext(path)[1])
        with open(p, "wb") as fh:
            fh.write(c)
        got = ctx.pristine("load", p, o["fmt"][1])
        if got[0] != "ok":
            return "something that does not load (%s, %d bytes)" % (got[1], len(c))
        bad = sk.diff(got[1:], new)
        return "new" if bad is None else "something that loads as another grid (%s)" % bad

    now = state(after)
    ctx.log(name, fired, res["how"], now, [len(c or b"") for c in res["seen"]])
    ctx.probe("destination %s after %s" % (now if now in ("old", "new") else "torn", res["how"]))
    ctx.sig(o["via"], o["dest"], o["fmt"], before is None, o["overwrite"], spec and [spec["nth"], spec["errno"], spec["crash"]], kill, fired, now)
    ctx.count("saves")
    where = "%s (%s)" % (name, fired or ("crash" if died else "no fault"))
    if now not in ("old", "new"):
        ctx.violate("torn", "%s: the destination holds %s" % (where, now))
    if now == "new" and before is not None and not may:
        ctx.violate("replaced-unasked", "%s: an existing file was replaced without being asked to" % where)
    for c in res["seen"]:
        s = state(c)
        if s not in ("old", "new"):
            ctx.violate("torn", "%s: while the save was going on the destination held %s: a crash then would have left it there" % (name, s))
    reread(ctx, where, o, path)
    if not died and not fired:
        fresh = before is None or may
        if res["how"] == "ok" and not res["said"] and now != "new" and (fresh or before is None):
            ctx.violate("not-saved", "%s: completed, but the destination holds %s" % (where, "what it held before"))
        if fresh and (res["how"] != "ok" or res["said"]) and limit is None:
            ctx.violate("refused", "%s: %s %s" % (where, res["err"], res["said"][:200]))
    if not died and fired and res["how"] == "ok" and o["via"] == "write" and now != "new":
        ctx.violate("not-saved", "%s: returned as if saved, but the destination holds what it held before" % where)


def reread(ctx, where, o, path):
    """A process that has been reading this destination all along sees what an untouched process sees."""
    if not o["reread"] or not os.path.exists(path):
        return
    warm, cold = load(path, o["fmt"][1]), ctx.pristine("load", path, o["fmt"][1])
    ctx.count("rereads")
    if warm[0] != cold[0] or warm[0] == "ok" and sk.diff(warm[1:], cold[1:]):
        ctx.violate("stale-read", "%s: reading the destination in a process that has read and written grids before gives %s, in an untouched one %s"
                    % (where, *[r[1] if r[0] == "raised" else "a grid" if r is warm else "another grid" for r in (warm, cold)]))


def loading(ctx, k, o):
    """A load under read errors: raises, or the whole grid."""
    grid = make_grid(o["grid"])
    d = os.path.join(ctx.scratch, "l%d" % k)
    os.mkdir(d)
    path = os.path.join(d, o["fmt"][0])
    grid.write(path, format=o["fmt"][1])
    size = os.path.getsize(path)
    new = sk.plain(grid)
    name = "op %d load %s (%d bytes) %s" % (k, o["fmt"], size, o["how"])

    def body():
        kw = {}
        if o["how"] == "fail":
            kw = {"fail_at": int(o["frac"] * size), "err": o["err"]}
        elif o["how"] == "pieces":
            kw = {"piece": o["piece"]}
        elif o["how"] == "open":
            kw = {"fail_at": 0, "err": o["err"]}
        with simfs.ReadFaults(d, **kw) as rf:
            got = load(path, o["fmt"][1])
        return got, rf.fired, len(rf.made)

    got, fired, opened = fork_call(body)
    if fired:
        ctx.fault("read error")
        ctx.count("nontrivial")
    elif o["how"] == "pieces" and opened:
        ctx.fault("short reads")
        ctx.count("nontrivial")
    ctx.log(name, fired, opened, got[0], got[1] if got[0] == "raised" else "")
    ctx.sig("load", o["fmt"], o["how"], int(o["frac"] * 20), got[0])
    ctx.count("loads")
    if got[0] == "ok":
        bad = sk.diff(got[1:], new)
        if bad:
            ctx.violate("partial-load", "%s (error fired: %s): loaded as another grid: %s" % (name, fired, bad))
    elif not fired and o["how"] in ("whole", "pieces"):
        ctx.violate("load-refused", "%s: %s" % (name, got[1]))
