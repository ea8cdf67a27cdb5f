"""C12: measuring many sources does not depend on order or on concurrency."""
import json

import numpy as np

from .. import callkit as ck
from .. import env
from .. import imgkit as ik
from ..faults import Faulter, count_points
from ..sched import Scheduler

ID = "C12"
JUDGE = True
RUNS = {"quick": 900, "thorough": 40000}
LISTS = ["ops", "ops.*.threads", "ops.*.threads.*"]
RULE = ("random histories of source measurements (source_photometry with and without background subtraction, both clipping "
        "types, error maps, cut-out sizes, methods; catalogues from photutils or petrofit; fresh or shared catalogue entries; one image or two exposures of almost the same field) "
        "in random order, repeated, interrupted, failing, mixed with other calls, and by several threads over one catalogue "
        "under a seeded scheduler; each result is compared with the same measurement made first in an untouched process.  "
        "distinct_nontrivial counts distinct (history, measurement kind) states plus thread interleavings")
MEASURE = "distinct (previous event, measurement options class) transitions plus distinct switch sequences"
REAL = "petrofit segmentation, photometry, fitting and rendering; photutils, astropy"
STUBS = "thread scheduler; interrupt/allocation/library failure injector"
ASSUMPTIONS = ["results agree to 1e-9 relative of the largest flux"]

OTHERS = ["segm_mask", "masked_segm_image", "order_cat", "radial_photometry", "make_catalog", "get_amplitude_at_r", "fit", "source_photometry",
          "plot_segments", "source_geometry", "model_to_image"]


def gen_opts(rng, s):
    size = rng.choice([None, None, 20, 27, 40])
    return {"bg_sub": rng.random() < 0.7, "sigma_type": rng.choice(["clip", "clip", "bound", "Bound"]), "sigma": rng.choice([1.5, 2.0, 3.0]),
            "mask_bg": rng.random() < 0.3, "cut": size, "method": rng.choice(["exact", "exact", "center", "subpixel"]),
            "r": rng.choice([0, 0, 1]), "err": rng.random() < 0.4, "plot": rng.random() < 0.06}


def gen_twin(rng, f):
    """Another exposure of (almost) the same field: what identifies a source there may identify another one here."""
    g = json.loads(json.dumps(f))
    how = rng.choice(["band", "band", "moved", "moved", "noise", "as", "other"])
    if how == "band":
        for s in g["src"]:
            s[2] = round(s[2] * rng.choice([0.6, 1.7, 3.0]), 2)
    elif how == "moved":
        d = [rng.choice([-3, -1, 1, 3]), rng.choice([-3, 0, 2])]
        for s in g["src"]:
            s[0], s[1] = s[0] + d[0], s[1] + d[1]
    elif how == "as":
        g["as"] = "f4" if f["as"] != "f4" else "f8"
    elif how == "other":
        g["src"] = [[round(rng.uniform(8, 40), 3), round(rng.uniform(8, 40), 3)] + s[2:] for s in g["src"]]
    if how in ("noise", "other"):
        g["noise"] = rng.choice([0.3, 1.4])
    if how != "as":
        g["seed"] = rng.randrange(1 << 30)
    return g


def generate(rng, tier, idx):
    field = dict(ik.gen_field(rng), **{"as": rng.choice(["f8", "f8", "f8", "ro", "fortran", "strided", "f4", "big-endian", "ccd"])})
    while len(field["src"]) < 3:
        field = dict(field, src=field["src"] + ik.gen_field(rng)["src"])
    field["src"] = [[min(x, field["shape"][1] - 6), min(y, field["shape"][0] - 6)] + rest for x, y, *rest in field["src"]]
    opts = [gen_opts(rng, field) for _ in range(rng.choice([1, 2, 3]))]
    fields = [field]
    if rng.random() < 0.5:
        fields.append(gen_twin(rng, field))
    both = len(fields) > 1 and rng.random() < 0.5  # sources found in one image are measured in the other, too

    def meas():
        img = rng.randrange(len(fields))
        return [rng.randrange(12) if rng.random() < 0.6 else rng.randrange(2), rng.randrange(3), rng.choice(["shared", "shared", "index", "fresh", "subset"]),
                img, rng.randrange(2) if both else img]

    ops = []
    for _ in range(rng.choice([2, 4, 6])):
        u = rng.random()
        if u < 0.5:
            ops.append({"op": "measure", "m": meas()})
        elif u < 0.7:
            ops.append({"op": "fault", "m": meas(), "kind": rng.choice(["interrupt", "interrupt", "memory", "error", "value", "os"]), "frac": round(rng.random(), 4)})
        elif u < 0.82:
            ops.append(dict(ck.gen(rng, OTHERS), op="other"))
        else:
            ops.append({"op": "threads", "threads": [[meas() for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.choice([2, 3]))],
                        "seed": rng.randrange(1 << 40), "p": rng.choice([0.01, 0.05, 0.2])})
    ops.append({"op": "measure", "m": meas()})
    return {"fields": fields, "cat": rng.choice(["photutils", "petrofit"]), "opts": opts, "r": [[2.0, 3.5, 5.0, 8.0], list(range(1, 12))], "ops": ops}


class World:
    def __init__(self, plan, s):
        self.plan = plan
        self.field = s
        self.plain = ik.field(s)
        self.image = ik.wrap(self.plain, s["as"])
        self.error = ik.error_map(s)
        if plan["cat"] == "petrofit":
            try:
                self.cat, _, self.segm = self.catalogue()
            except Exception:
                self.cat, self.segm = None, None
        else:
            self.cat, self.segm = ik.segmentation(s, self.plain)
        self.r = [list(plan["r"][0]), np.array(plan["r"][1], dtype=float)]
        self.n = 0 if self.cat is None else self.cat.nlabels
        self.entries = [self.cat[i] for i in range(self.n)]

    def catalogue(self):
        s = self.field
        return env.pf.make_catalog(self.image, s["threshold"] + s["bg"], npixels=s["npixels"], nlevels=8, contrast=0.01, plot=False)

    def source(self, i, how):
        from photutils.segmentation import SourceCatalog

        if how == "shared":
            return self.entries[i]
        if how == "index":
            return self.cat[i]
        if how == "subset":
            j = [i, (i + 1) % self.n] if self.n > 1 else [i]
            return self.cat[j][0]
        if self.plan["cat"] == "petrofit":
            return self.catalogue()[0][i]
        return SourceCatalog(self.plain, self.segm)[i]

    def measure(self, m, plot=True, found=None):
        """Measure source m[0] of the catalogue of world `found` (this one, if not given) in the image of this one."""
        found = found or self
        i, o, how = m[0] % found.n, self.plan["opts"][m[1] % len(self.plan["opts"])], m[2]
        return env.pf.source_photometry(found.source(i, how), self.image, found.segm, self.r[o["r"]], error=self.error if o["err"] else None,
                                        cutout_size=o["cut"], bg_sub=o["bg_sub"], sigma=o["sigma"], sigma_type=o["sigma_type"],
                                        method=o["method"], mask_background=o["mask_bg"], plot=o["plot"] and plot)


def norm(v):
    return [np.array(a, dtype=float).tolist() for a in v]


def outcome(w, m, plot=True, found=None):
    try:
        return ("ok", norm(w.measure(m, plot, found)))
    except Exception as e:
        return ("raised", type(e).__name__)


def fresh(plan, field, m, where=None):
    """Judge: the measurement, alone and first, in an untouched process."""
    import warnings

    warnings.simplefilter("ignore")
    w = World(plan, field)
    return outcome(w, [m[0], m[1], "index"], False, World(plan, where) if where else w)


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "raised":
        return a[1] == b[1]
    for x, y in zip(a[1], b[1]):
        x, y = np.array(x), np.array(y)
        if x.shape != y.shape or not np.array_equal(np.isnan(x), np.isnan(y)):
            return False
        k = ~np.isnan(x)
        if k.any() and np.max(np.abs(x[k] - y[k])) > 1e-9 * max(1e-300, np.max(np.abs(y[k]))) + 2e-6:  # petrofit rounds to 1e-6
            return False
    return True


def execute(plan, ctx):
    if not plan["opts"]:
        return
    worlds = [w for w in (World(plan, f) for f in plan["fields"]) if w.n]
    if not worlds:
        ctx.count("no sources")
        return
    ctx.probe("sources", sum(w.n for w in worlds))
    world = lambda m: worlds[m[3] % len(worlds)]
    found = lambda m: worlds[(m[4] if len(m) > 4 else m[3]) % len(worlds)]
    memo = {}
    prev = "start"

    def want(m):
        w, c = world(m), found(m)
        key = (worlds.index(c), worlds.index(w), m[0] % c.n, m[1] % len(plan["opts"]))
        if key not in memo:
            memo[key] = ctx.pristine("fresh", {k: plan[k] for k in ("cat", "opts", "r")}, w.field, list(key[2:]), None if c is w else c.field)
            ctx.count("measured in another image", c is not w)
        return memo[key]

    def judge(got, m, where):
        x = want(m)
        if not same(got, x):
            ctx.violate("depends-on-history", "%s (image %d, source %d of %d, %s, options %s): %s, alone and first it is %s"
                        % (where, m[3] % len(worlds), m[0] % found(m).n, found(m).n, m[2], json.dumps(plan["opts"][m[1] % len(plan["opts"])]), str(got)[:300], str(x)[:300]))

    for k, op in enumerate(plan["ops"]):
        kind = op["op"]
        where = "op %d %s after %s" % (k, kind, prev)
        if kind == "measure":
            got = outcome(world(op["m"]), op["m"], True, found(op["m"]))
            ctx.log(where, op["m"], got)
            judge(got, op["m"], where)
            ctx.count("measurements")
            ctx.count("measurements that raised", got[0] == "raised")
            o = plan["opts"][op["m"][1] % len(plan["opts"])]
            ctx.sig(prev, op["m"][2], len(worlds), o["bg_sub"], o["sigma_type"], o["err"], got[0])
            prev = "measure"
        elif kind == "fault":
            run = lambda: world(op["m"]).measure(op["m"], False, found(op["m"]))
            n = count_points(op["kind"], run)
            f = Faulter(op["kind"], at=min(int(op["frac"] * n), max(n - 1, 0)))
            how, val = f.run(run)
            ctx.log(where, f.fired, how)
            if f.fired:
                ctx.fault(op["kind"])
                ctx.probe("fault in " + f.fired.split(":")[1])
                ctx.count("nontrivial")
                prev = op["kind"] + " in " + f.fired.split(":")[1]
                if how == "ok" and op["kind"] == "interrupt":
                    ctx.violate("interrupt-swallowed", "%s: interrupt at %s was swallowed" % (where, f.fired))
        elif kind == "other":
            try:
                ck.run(op, ck.build(op))
            except Exception:
                pass
            prev = op["call"]
        elif op["threads"]:
            for t in op["threads"]:
                for m in t:
                    want(m)
            sch = Scheduler(plan.get("policy%d" % k) or {"mode": "rand", "seed": op["seed"], "p": op["p"]}, max_points=3000000)

            def body(ms):
                return lambda: [(m, outcome(world(m), m, False, found(m))) for m in ms]

            res = sch.run([body(t) for t in op["threads"]])
            ctx.explicit["policy%d" % k] = {"mode": "explicit", "switches": sch.switches}
            ctx.fault("thread switch", len(sch.switches))
            if sch.switches:
                ctx.sig("threads", sch.sig.hexdigest())
                ctx.count("nontrivial")
            for t, (ok, val) in enumerate(res):
                if not ok:
                    ctx.violate("thread-failed", "%s: thread %d: %s(%s)" % (where, t, type(val).__name__, val))
                for m, got in val:
                    ctx.log(where, t, m, got)
                    judge(got, m, "%s thread %d" % (where, t))
                    ctx.count("measurements")
            prev = "threads"
