"""C02: a failed save never costs the computed correction grid."""
import contextlib
import io
import os
import sys

from .. import env
from .. import faults
from .. import rowkit as rk
from .. import savekit as sk
from .. import simfs
from ..digest import short
from ..faults import ChildFailed, fork_call
from ..monitor import in_petrofit

ID = "C02"
JUDGE = False
RUNS = {"quick": 500, "thorough": 40000}
LISTS = ["n", "r", "ops"]
RULE = ("grids generated with a file name: supported and unsupported formats, new / existing / linked / missing / unusable "
        "destinations, overwriting or not, while the n-th file operation of the save fails with one of 8 errors (once or from then "
        "on), the disk is full after k bytes, or an interrupt, allocation failure or library failure hits the n-th point of the "
        "save.  The grid returned is compared with rows computed alone in untouched processes, the report on standard output and "
        "the destination are checked.  distinct_nontrivial counts distinct (destination, format, existing, overwrite, fault that "
        "fired, fate) states")
MEASURE = "distinct (destination kind, format, old file, overwrite, operation or point that failed and how, outcome)"
REAL = "all of petrofit, astropy's table writers, the kernel's file system (scratch directory)"
STUBS = "errors of file operations (audit-hook seam), file size limit; in one run each pair's row is computed once and reused"
ASSUMPTIONS = ["standard output itself takes text (in its encoding, whichever it is)"]


def prepare():
    rk.prepare(cfgs=[0])


ERRNOS = ["ENOSPC", "EIO", "EACCES", "EROFS", "EDQUOT", "EMFILE", "ENOENT", "EBUSY"]


def gen_fault(rng):
    u = rng.random()
    if u < 0.15:
        return None
    if u < 0.5:
        return {"how": "op", "frac": round(rng.random(), 4), "errno": rng.choice(ERRNOS), "sticky": rng.random() < 0.4}
    if u < 0.7:
        return {"how": "limit", "frac": round(rng.random() * 1.1, 4)}
    return {"how": "point", "frac": round(rng.random(), 4), "kind": rng.choice(["interrupt", "interrupt", "memory", "error", "os", "value"])}


def gen_op(rng):
    bad = rng.random()
    return {"fmt": rng.choice(sk.BAD_FORMATS if bad < 0.15 else sk.FORMATS), "dest": rng.choice(sk.BAD_DESTS if 0.15 <= bad < 0.32 else sk.DESTS),
            "old": rng.random() < 0.45, "overwrite": rng.random() < 0.5, "fault": gen_fault(rng) if bad >= 0.32 or rng.random() < 0.3 else None,
            "cpu": rng.choice([None, None, None, 1, True]), "enc": rng.choice([None, None, "utf-8", "ascii", "latin-1", "cp1252"])}


def generate(rng, tier, idx):
    n, r = rk.gen_lists(rng)
    return {"n": [v if v < 2.5 else 1.0 for v in n[:2]], "r": r[:3], "ops": [gen_op(rng) for _ in range(rng.choice([2, 3, 4]))]}


def attempt(d, o, plan, fs, faulter, names, rows):
    """In a fork: the generating call under the planned fault; what came of it."""
    sk.enter(d)
    arg, path = sk.place(d, o)
    out = io.StringIO() if not o.get("enc") else io.TextIOWrapper(io.BytesIO(), encoding=o["enc"], errors="strict", write_through=True)
    marks = []
    if faulter is not None and fs.on_op is None:
        fs.on_op = lambda kind: marks.append(faulter.n - (1 if faulter.n and _through_library() else 0))

    def call():
        return env.pf.generate_petrosian_sersic_correction(arg, r_eff_list=plan["r"], n_list=plan["n"], oversample=1, out_format=o["fmt"][1], overwrite=o["overwrite"], n_cpu=o["cpu"])

    real = sys.stdout
    sys.stdout = out
    try:
        with fs:
            if faulter is not None:
                how, val = faulter.run(call)
            else:
                try:
                    how, val = "ok", call()
                except BaseException as e:
                    how, val = "exc", e
    finally:
        sys.stdout = real
    res = {"how": how, "stdout": text(out), "ops": fs.ops, "fired": fs.fired or (faulter.fired if faulter is not None else None), "marks": marks,
           "n": faulter.n if faulter is not None else 0}
    if how == "ok":
        res["bad"] = rk.differs(val, names, rows)
    else:
        res["type"] = type(val).__name__
        res["msg"] = str(val)[:200]
    return res


def text(out):
    """What the user could read."""
    if isinstance(out, io.StringIO):
        return out.getvalue().strip()
    out.flush()
    return out.buffer.getvalue().decode(out.encoding).strip()


def _through_library():
    """Is the operation under way made by a library that petrofit called (so that this call was the last numbered point)?"""
    f = sys._getframe(1)
    while f is not None and not in_petrofit(f.f_code.co_filename):
        if (os.sep + "astropy" + os.sep) in f.f_code.co_filename:
            return True
        f = f.f_back
    return False


def execute(plan, ctx):
    if not plan["n"] or not plan["r"]:
        return
    want = rk.expected(0, plan["n"], plan["r"])
    if want[0] != "ok":
        ctx.count("pairs that cannot be computed")
        return
    names, rows = want[1], want[2]
    with rk.CheapRows():
        t = env.pf.generate_petrosian_sersic_correction(None, r_eff_list=plan["r"], n_list=plan["n"], oversample=1)
        bad = rk.differs(t, names, rows)
        if bad:
            ctx.violate("wrong-grid", "without any file: %s" % bad)
        for k, o in enumerate(plan["ops"]):
            one(plan, ctx, k, o, names, rows)


def fresh_dir(ctx, name):
    d = os.path.join(ctx.scratch, name)
    os.mkdir(d)
    return d


def one(plan, ctx, k, o, names, rows):
    f = o["fault"]
    name = "op %d %s" % (k, {x: o[x] for x in ("fmt", "dest", "old", "overwrite", "fault")})
    spec = limit = faulter = None
    if f is not None:
        # a rehearsal on a twin destination: how many operations, bytes and points the save has
        d = fresh_dir(ctx, "dry%d" % k)
        dry = fork_call(attempt, d, o, plan, simfs.FS(d), faults.Faulter(f["kind"]) if f["how"] == "point" else None, names, rows)
        if f["how"] == "op":
            w = [i for i, op in enumerate(dry["ops"]) if op != "open-read"]
            if w:
                spec = {"nth": w[min(int(f["frac"] * len(w)), len(w) - 1)], "errno": f["errno"], "sticky": f["sticky"]}
        elif f["how"] == "limit":
            arg, path = sk.place(d, o)
            size = len(sk.content(path) or b"x" * 2000)
            limit = int(f["frac"] * size)
        elif dry["marks"]:
            lo, hi = dry["marks"][0], dry["marks"][-1]
            faulter = faults.Faulter(f["kind"], at=lo + int(f["frac"] * max(hi - lo, 1)))
        simfs.remove_tree(d, ctx.scratch)
    d = fresh_dir(ctx, "op%d" % k)
    arg, path = sk.place(d, o)
    before = sk.content(path) if path else None
    try:
        res = fork_call(attempt, d, o, plan, simfs.FS(d, spec, limit), faulter, names, rows)
    except ChildFailed as e:
        ctx.violate("process-died", "%s: the process ended: %s" % (name, e))
    fired = res["fired"]
    after = sk.content(path) if path else None
    done = None
    if after is not None and after != before:
        try:
            t = _table(path, o["fmt"][1])
            done = rk.differs(t, names, rows)
        except Exception as e:
            done = "an unreadable file (%s)" % type(e).__name__
    else:
        done = "what was there before"
    if limit is not None:
        short_of_space = done is not None
        if short_of_space:
            fired = fired or "disk full after %d bytes" % limit
    if fired:
        ctx.fault((f["how"] + " " + (f.get("errno") or f.get("kind") or "disk full")) if f else "none")
        ctx.probe("failed " + (fired.split(" (")[0] if f["how"] == "op" else f["how"]))
        ctx.count("nontrivial")
    ctx.log(name, fired, res["how"], res.get("type"), bool(res["stdout"]), done)
    ctx.sig(o["dest"], o["fmt"], o["old"], o["overwrite"], fired, res["how"])
    ctx.count("saves")
    if done:
        ctx.count("saves that failed")
    interrupt = faulter is not None and faulter.kind == "interrupt" and res["fired"]
    if interrupt:
        if res["how"] == "ok":
            ctx.violate("interrupt-swallowed", "%s: an interrupt at %s was swallowed (output %r)" % (name, res["fired"], res["stdout"][:200]))
        if res["type"] != "KeyboardInterrupt":
            ctx.violate("interrupt-swallowed", "%s: an interrupt at %s came out as %s" % (name, res["fired"], res["type"]))
    elif res["how"] == "exc":
        ctx.violate("grid-lost", "%s (%s): the call raised %s(%s) instead of returning the grid" % (name, fired, res["type"], res["msg"]))
    elif res["bad"]:
        ctx.violate("grid-wrong", "%s (%s): the grid returned: %s" % (name, fired, res["bad"]))
    elif done and not res["stdout"]:
        ctx.violate("silent-failure", "%s (%s): the destination holds %s and nothing was reported" % (name, fired, done))
    if before is not None and not o["overwrite"] and after != before:
        ctx.violate("existing-file-changed", "%s (%s): an existing file was changed without overwriting being asked for" % (name, fired))
    simfs.remove_tree(d, ctx.scratch)


def _table(path, fmt):
    import warnings
    from astropy.table import Table

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return Table.read(path, format=fmt)
