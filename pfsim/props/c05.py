"""C05: threads rendering from a shared model get uncorrupted images."""
import copy

import numpy as np

from .. import env
from .. import modelkit as mk
from ..faults import Injected
from ..sched import Scheduler, Deadlock, StepLimit

ID = "C05"
RUNS = {"quick": 1500, "thorough": 300000}
LISTS = ["warm", "threads", "threads.*", "policy.switches", "faults"]
RULE = ("two to four threads work on one shared PSF-convolved model (renders of varied size/origin/dtype, copies, sub-model "
        "snapshots, pickles, caching toggles, PSF-angle-free settings; a library call made for one of them may fail) under a seeded scheduler that decides every switch at "
        "CPython's own switch points; every image is compared with an independent reference renderer.  distinct_nontrivial "
        "counts distinct interleavings (hash of the sequence of switches with their source positions) with at least one switch")
MEASURE = "distinct switch sequences (thread>thread@file:function:line)"
REAL = "all of petrofit.modeling, astropy, scipy, numpy, the Python threads themselves"
STUBS = "the operating system's thread scheduler (baton scheduler); locks created by petrofit are simulated"
ASSUMPTIONS = ["thread switches where CPython 3.12 (with GIL) can make them: function entry, return from C calls, backward "
               "jumps, array operations that release the GIL; third-party internals other than copying are atomic"]

EXTRA = (copy.__file__,)


def generate(rng, tier, idx):
    size = rng.choice([10, 14, 20])
    m = mk.gen_model(rng, size)
    pool = [mk.gen_render(rng, size) for _ in range(rng.choice([2, 2, 3, 4]))]
    if rng.random() < 0.4:
        # same size, different origins: what a torn cache key confuses
        for r in pool[1:]:
            r["size"] = pool[0]["size"]
            r["via"] = pool[0]["via"]
            r["dtype"] = "f8"
            if r["via"] == "list":
                r["drop"] = 3
                r.setdefault("order", None)
        pool[0]["dtype"] = "f8"
    if rng.random() < 0.3:
        pool.append(mk.near_render(rng, rng.choice(pool)))
    mixed = rng.random() < 0.5
    threads = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            if not mixed or rng.random() < 0.6:
                ops.append({"op": "render", "r": rng.choice(pool)})
            else:
                ops.append(rng.choice([
                    {"op": "copy", "r": rng.choice(pool)}, {"op": "pickle"}, {"op": "submodel", "r": rng.choice(pool)},
                    {"op": "cache", "v": True}, {"op": "cache", "v": False}, {"op": "clear"},
                    {"op": "fit", "r": rng.choice(pool)}]))
        threads.append(ops)
    warm = [rng.choice(pool) for _ in range(rng.choice([0, 0, 1, 2]))]
    # the other threads' workload decides how often switches are tried
    return {"model": m, "warm": warm, "threads": threads, "after": rng.choice(pool),
            "policy": {"mode": "rand", "seed": rng.randrange(1 << 40), "p": rng.choice([0.02, 0.05, 0.1, 0.3, 0.5])},
            "faults": [{"t": rng.randrange(4), "at": rng.randrange(rng.choice([6, 20, 60])), "kind": rng.choice(["memory", "error", "value"])}
                       for _ in range(rng.choice([0, 0, 0, 1, 2]))]}


def execute(plan, ctx):
    m, st = mk.build_model(plan["model"])
    refs = {}

    def ref(r):
        k = repr(r)
        if k not in refs:
            refs[k] = mk.reference(st, r)
        return refs[k]

    for ops in plan["threads"]:
        for op in ops:
            if "r" in op:
                ref(op["r"])
    for r in plan["warm"] + [plan["after"]]:
        ref(r)
        e = mk.close(mk.do_render(m, r, st=st), ref(r)) if r is not plan["after"] else None
        if e:
            ctx.violate("wrong-image-alone", "render %s before any thread started %s" % (r, e))
    if not plan["threads"]:
        return
    params = [float(v) for v in m.parameters]

    def worker(ops):
        def run():
            out = []
            for op in ops:
                try:
                    one(op, out)
                except (Injected, MemoryError, ValueError) as e:
                    if "injected" not in str(e) and not isinstance(e, MemoryError):
                        raise
                    out.append((op, None, None))
            return out

        def one(op, out):
            k = op["op"]
            if k == "render":
                im = mk.do_render(m, op["r"], st=st)
                out.append((op, im, np.array(im, copy=True)))
            elif k == "copy":
                c = m.copy()
                im = mk.do_render(c, op["r"], st=st)
                out.append((op, im, np.array(im, copy=True)))
            elif k == "pickle":
                c = copy.deepcopy(m)
                out.append((op, [float(v) for v in c.parameters], None))
            elif k == "submodel":
                s = m.model
                out.append((op, [float(v) for v in s.parameters], None))
            elif k == "cache":
                m.cache_grid = op["v"]
            elif k == "clear":
                m.clear_cached_grid()
            elif k == "fit":
                # another thread fits a copy of the shared model
                img = np.array(ref(op["r"])[0][:6] if np.ndim(ref(op["r"])[0]) == 2 else ref(op["r"])[0])
                if img.ndim == 2 and np.isfinite(img).all():
                    try:
                        env.pf.fit_model(img[:6, :6], m, maxiter=2)
                    except (RuntimeError, ValueError, TypeError) as e:
                        if "dictionary changed" in str(e):
                            raise
                out.append((op, None, None))
        return run

    policy = plan["policy"]
    sch = Scheduler(policy, extra=EXTRA, faults=plan["faults"])
    results = sch.run([worker(ops) for ops in plan["threads"]])
    ctx.explicit = {"policy": {"mode": "explicit", "switches": sch.switches}}
    ctx.count("switches", len(sch.switches))
    ctx.count("points", sch.n)
    ctx.log("switches", sch.sig.hexdigest())
    ctx.fault("thread switch", len(sch.switches))
    for t, kind, at in sch.fired:
        ctx.fault("failing call in a thread")
        ctx.probe("fault in " + at.split(":")[1])
        ctx.log(t, kind, at)
    if sch.switches:
        ctx.count("nontrivial")
        ctx.sig(sch.sig.hexdigest())
    for t, (ok, val) in enumerate(results):
        if not ok:
            if isinstance(val, StepLimit):
                ctx.violate("no-progress", "thread %d did not finish in %d steps" % (t, sch.n))
            if isinstance(val, Deadlock):
                ctx.violate("deadlock", "thread %d: %s" % (t, val))
            ctx.violate("thread-failed", "thread %d of %s: %s(%s)" % (t, [o["op"] for o in plan["threads"][t]], type(val).__name__, val))
        for k, (op, got, keep) in enumerate(val):
            if "r" in op and got is not None and not isinstance(got, list):
                e = mk.close(got, ref(op["r"]))
                ctx.log(t, k, op["op"], e or "ok")
                if e:
                    ctx.violate("wrong-image", "thread %d op %d %s %s: image %s" % (t, k, op["op"], op["r"], e))
                if keep is not None and not np.array_equal(got, keep, equal_nan=True):
                    ctx.violate("image-changed", "thread %d op %d: image changed after it was returned" % (t, k))
            if isinstance(got, list) and got != params[:len(got)]:
                ctx.violate("wrong-snapshot", "thread %d op %d %s: parameters %s instead of %s" % (t, k, op["op"], got, params))
    for r in [plan["after"]] + plan["warm"]:
        # in a scheduled thread: a lock left taken is seen as such
        ok, im = Scheduler({"mode": "explicit", "switches": []}).run([lambda: mk.do_render(m, r, st=st)])[0]
        if not ok:
            ctx.violate("deadlock" if isinstance(im, Deadlock) else "broken-afterwards", "render %s after the threads ended: %r" % (r, im))
        e = mk.close(im, ref(r))
        if e:
            ctx.violate("wrong-image-afterwards", "render %s after the threads ended: image %s" % (r, e))
    if [float(v) for v in m.parameters] != params:
        ctx.violate("parameters-changed", "shared model's parameters changed")

