"""C09: fitting leaves its inputs untouched and is repeatable."""
import copy
import json

import numpy as np

from .. import env
from .. import fitkit as fk
from ..faults import run_with_fault
from ..sched import Scheduler

ID = "C09"
JUDGE = True
RUNS = {"quick": 900, "thorough": 80000}
LISTS = ["ops", "ops.*.threads", "fits"]
RULE = ("random sequences of fits (models, PSF-convolved models, backgrounds with the shared default model, Gaussians; five "
        "fitters; constraints; odd containers; fits that fail) on reused and fresh models, interrupted and out-of-memory fits, "
        "concurrent fits of one shared model under a seeded scheduler; every outcome is compared with the same fit in an "
        "untouched process and every input with a snapshot.  distinct_nontrivial counts distinct (fit kind, what happened "
        "before it) transitions plus thread interleavings")
MEASURE = "distinct (previous call and its fate, this call) transitions plus distinct switch sequences"
REAL = "petrofit.modeling, astropy fitters, scipy optimisers"
STUBS = "thread scheduler for concurrent fits; interrupt/allocation-failure injector"
ASSUMPTIONS = ["a repeated fit agrees to 1e-9 relative", "tied constraints compared as present or absent"]

fresh = fk.fresh


def _extra():
    import astropy.modeling.core as core
    import astropy.modeling.fitting as fitting

    return (copy.__file__, fitting.__file__, core.__file__)


def generate(rng, tier, idx):
    fits = [fk.gen_fit(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    if rng.random() < 0.3:
        b = fk.gen_fit(rng)
        while b["call"] != "fit_background":
            b = fk.gen_fit(rng)
        fits.append(b)
    if rng.random() < 0.3:   # calls of one kind
        kind = rng.choice(["fit_gaussian2d", "fit_gaussian2d", "fit_background", fits[0]["call"]])
        fits = [fk.gen_fit(rng, kind) for _ in range(rng.choice([2, 3, 4]))]
    if rng.random() < 0.4:
        fits[0], near = fk.gen_near(rng, fits[0])
        fits = [fits[0], near] + fits[1:rng.choice([1, 2, 3])]
    ops = []
    for _ in range(rng.choice([2, 3, 5, 7])):
        u = rng.random()
        o = {"i": rng.randrange(6), "fresh": rng.random() < 0.3}
        if u < 0.5:
            o.update(op="fit", scribble=rng.random() < 0.4)
        elif u < 0.85:
            o.update(op="fault", kind=rng.choice(["interrupt", "memory", "error", "value"]), frac=round(rng.random(), 3))
        else:
            o.update(op="threads", threads=[rng.randrange(6) for _ in range(rng.choice([2, 3]))], seed=rng.randrange(1 << 40),
                     p=rng.choice([0.003, 0.02, 0.1]))
        ops.append(o)
    ops.append({"op": "fit", "i": rng.randrange(6), "fresh": False, "scribble": False})
    return {"fits": fits, "ops": ops}


def execute(plan, ctx):
    if not plan["fits"]:
        return
    work = []
    for s in plan["fits"]:
        inp = fk.build_inputs(s)
        work.append({"s": s, "in": inp, "snap": fk.inputs_snap(*inp), "want": None})
    db = fk.default_background()
    db_snap = fk.model_snap(db) if db is not None else None
    prev = "nothing"

    def want(w):
        if w["want"] is None:
            w["want"] = ctx.pristine("fresh", w["s"])
        return w["want"]

    def intact(where):
        for w in work:
            now = fk.inputs_snap(*w["in"])
            if now != w["snap"]:
                bad = [k for k in now if now[k] != w["snap"][k]]
                ctx.violate("input-changed", "%s changed the %s given to %s(%s): %s -> %s" % (
                    where, bad, w["s"]["call"], w["s"].get("fitter", ""), str(w["snap"][bad[0]])[:600], str(now[bad[0]])[:600]))
        if db is not None and fk.model_snap(db) != db_snap:
            ctx.violate("default-background-changed", "%s changed the default background model to %s" % (where, list(db.parameters)))

    for k, op in enumerate(plan["ops"]):
        w = work[op["i"] % len(work)]
        s = w["s"]
        where = "op %d %s %s" % (k, op["op"], s["call"])
        if op["op"] == "fit":
            inp = fk.build_inputs(s) if op["fresh"] else w["in"]
            try:
                m = fk.call(s, *inp)
                got = ("ok", fk.result(m))
                if m is inp[1] or (db is not None and m is db):
                    ctx.violate("not-a-new-model", "%s returned the model it was given" % where)
                if op.get("scribble"):
                    for n in m.param_names:
                        setattr(m, n, -5.5)
                        m.fixed[n] = True
                        m.bounds[n] = (-77, -66)
                    prev = prev + "+scribbled result"
            except Exception as e:
                got = ("raised", type(e).__name__)
            d = fk.differs(got, want(w))
            ctx.log(where, got)
            if d:
                ctx.violate("not-repeatable", "%s (%s) after %s: %s" % (where, json.dumps(s)[:400], prev, d))
            ctx.sig(prev, s["call"], s.get("fitter"), s.get("wrap"), op["fresh"], got[0])
            prev = "%s %s %s" % (s["call"], s.get("fitter", ""), got[0])
            ctx.count("fits")
            ctx.count("fits that raised", got[0] == "raised")
        elif op["op"] == "fault":
            (how, val), fired = run_with_fault(op["kind"], op["frac"], lambda: fk.call(s, *w["in"]))
            ctx.log(where, fired, how)
            if fired:
                ctx.fault(op["kind"])
                ctx.probe("fault in " + fired.split(":")[1])
                prev = "%s in %s" % (op["kind"], fired.split(":")[1])
                ctx.count("nontrivial")
                if how == "ok" and op["kind"] == "interrupt":
                    ctx.violate("interrupt-swallowed", "%s: interrupt at %s was swallowed" % (where, fired))
        else:
            ids = [i % len(work) for i in op["threads"]]
            for i in ids:
                want(work[i])
            pol = plan.get("policy%d" % k) or {"mode": "rand", "seed": op["seed"], "p": op["p"]}
            sch = Scheduler(pol, extra=_extra(), max_points=3000000)

            def body(i):
                return lambda: fk.outcome(work[i]["s"], *work[i]["in"])

            res = sch.run([body(i) for i in ids])
            ctx.explicit["policy%d" % k] = {"mode": "explicit", "switches": sch.switches}
            ctx.fault("thread switch", len(sch.switches))
            if sch.switches:
                ctx.sig("threads", sch.sig.hexdigest())
                ctx.count("nontrivial")
            for t, (ok, val) in enumerate(res):
                if not ok:
                    ctx.violate("thread-failed", "%s: thread %d: %s(%s)" % (where, t, type(val).__name__, val))
                d = fk.differs(val, want(work[ids[t]]))
                ctx.log(where, t, val)
                if d:
                    ctx.violate("not-repeatable", "%s: thread %d of fits %s: %s" % (where, t, [plan["fits"][i]["call"] for i in ids], d))
            prev = "threads"
        intact(where)
