"""C10: no call modifies the caller's data."""
import copy

import numpy as np

from .. import callkit as ck
from .. import objkit as ok
from ..digest import snap, short
from ..faults import Faulter, count_points
from ..monitor import Monitor, where as at

ID = "C10"
JUDGE = False
RUNS = {"quick": 3000, "thorough": 100000}
RULE = ("random sequences of public calls (about 45 kinds) on caller-owned arrays, lists, tables, images, maps, PSFs and models in "
        "many element types and memory layouts; interrupts, failing allocations and failing library calls at numbered points; "
        "an observer that looks at the inputs at seeded instants during the call; read-only twins; scribbling over results "
        "followed by the same call again.  distinct_nontrivial counts distinct (call, mode, fate, point of fault) states")
MEASURE = "distinct (call, way it was run, outcome, function the fault hit)"
REAL = "all of petrofit, astropy, photutils, scipy, matplotlib (Agg)"
STUBS = "interrupt/allocation/library failure injector"
ASSUMPTIONS = ["memory sharing is looked for in arrays reachable from results through containers, tables, models and petrofit objects",
               "photutils objects keep references to the data they were made from (documented), so catalogues are exempt"]

MODES = ("normal", "normal", "fault", "fault", "fault", "watch", "ro", "twice")


def generate(rng, tier, idx):
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        c = ck.gen(rng)
        o = dict(ck.spiked(c, rng) if rng.random() < 0.12 else c, mode=rng.choice(MODES), kind=rng.choice(["interrupt", "interrupt", "memory", "error", "value", "os"]),
                 frac=round(rng.random(), 4), every=rng.choice([3, 11, 40, 150]))
        ops.append(o)
    return {"ops": ops}


def _go(o, inputs):
    try:
        return ("ok", ck.run(o, inputs))
    except Exception as e:
        return ("raised", e)


def execute(plan, ctx):
    for k, o in enumerate(plan["ops"]):
        from matplotlib import pyplot as plt

        plt.close("all")
        c = ck.CALLS[o["call"]]
        inputs = ck.build(o)
        if inputs.get("cat", 0) is None:
            ctx.count("no sources")
            continue
        before = ok.deep_snap(inputs)
        name = "op %d %s %s" % (k, o["mode"], o["call"])
        mode = o["mode"]
        fate = ""

        def intact(when):
            bad = ok.changed(before, ok.deep_snap(inputs))
            if bad:
                ctx.violate("input-changed", "%s: %s changed by %s (spec %s)" % (name, bad, when, str(o["spec"])[:500]))

        if mode == "fault":
            # points are counted on a twin in a fork, so the inputs see exactly one call
            n = count_points(o["kind"], lambda: ck.run(o, inputs))
            f = Faulter(o["kind"], at=min(int(o["frac"] * n), max(n - 1, 0)))
            how, val = f.run(lambda: ck.run(o, inputs))
            fate = f.fired or ""
            if fate:
                ctx.fault(o["kind"])
                ctx.count("nontrivial")
                ctx.probe("fault in " + fate.split(":")[1])
                fate = o["kind"] + fate.split(":")[1]
            intact("%s injected at %s" % (o["kind"], f.fired))
            ctx.log(name, f.fired, how)
        elif mode == "watch":
            seen = {"n": 0, "looks": 0, "bad": None}

            def look(kind, code, offset, callee):
                seen["n"] += 1
                if seen["n"] % o["every"] == 0 and seen["looks"] < 60 and seen["bad"] is None:
                    seen["looks"] += 1
                    mon.on_point = lambda *a: None  # the look itself is not observed
                    try:
                        bad = ok.changed(before, ok.deep_snap(inputs))
                    finally:
                        mon.on_point = look
                    if bad:
                        seen["bad"] = (bad, at(code, offset))

            mon = Monitor(look, ("start", "cret"))
            with mon:
                r = _go(o, inputs)
            ctx.fault("observer look", seen["looks"])
            if seen["looks"]:
                ctx.count("nontrivial")
            if seen["bad"]:
                ctx.violate("input-changed", "%s: %s not as given at %s, in the middle of the call" % ((name,) + seen["bad"]))
            intact("the call (%s)" % r[0])
            fate = "looks" if seen["looks"] else ""
            ctx.log(name, seen["looks"], r[0])
        elif mode == "ro":
            want = _go(o, inputs)
            intact("the call (%s)" % want[0])
            twin = ck.build(o)
            n = ok.freeze(twin)
            np.random.seed(1)
            got = _go(o, twin)
            fate = "frozen" if n else ""
            ctx.fault("read-only twin", n)
            if n:
                ctx.count("nontrivial")
            if want[0] == "ok" and got[0] == "raised":
                ctx.violate("read-only-refused", "%s: raises %r on read-only arrays, works on writable ones (spec %s)"
                            % (name, got[1], str(o["spec"])[:400]))
            ctx.log(name, n, got[0])
        else:
            r = _go(o, inputs)
            intact("the call (%s)" % r[0])
            fate = r[0]
            if r[0] == "ok" and not c.holds:
                bad = ok.shares(r[1], inputs)
                if bad:
                    ctx.violate("shared-memory", "%s: the result shares memory with %s (spec %s)" % (name, bad, str(o["spec"])[:400]))
                first = None if c.plots else snap(r[1])
                ctx.fault("result scribbled", ok.scribble(r[1]))
                intact("changing the result")
                if mode == "twice":
                    ctx.count("nontrivial")
                    again = _go(o, inputs)
                    if again[0] != "ok":
                        ctx.violate("input-changed", "%s: the same call again raises %r" % (name, again[1]))
                    if first is not None and snap(again[1]) != first:
                        ctx.violate("result-remembered", "%s: after the first result was overwritten, the same call gives another result" % name)
                    intact("the second call")
            ctx.log(name, r[0], repr(r[1]) if r[0] == "raised" else "")
            if r[0] == "raised":
                ctx.probe("raised " + type(r[1]).__name__)
        ctx.sig(o["call"], mode, fate)
        ctx.count("calls")
