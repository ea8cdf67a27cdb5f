"""C07: Petrosian read-outs always follow the current profile and settings."""
import copy
import gc
import json

import numpy as np

from .. import env
from .. import profkit as pk
from ..faults import run_with_fault
from ..rng import stream
from ..sched import Scheduler, Deadlock, StepLimit

ID = "C07"
JUDGE = True
RUNS = {"quick": 1300, "thorough": 150000}
LISTS = ["ops", "ops.*.threads", "ops.*.threads.*", "profiles", "policy.switches"]
RULE = ("random histories over one to three profiles: setting changes, reads of every documented quantity, interrupted and "
        "out-of-memory reads, concurrent reads under a seeded scheduler, scribbling on the input arrays, replacing profiles; "
        "every value read is compared with a profile built in an untouched process from the same measurements and current "
        "settings.  distinct_nontrivial counts distinct (settings changed since the last read, events since, quantity) states")
MEASURE = "distinct (previous read, events between, quantity) transitions plus distinct thread interleavings"
REAL = "all of petrofit.petrosian, scipy, numpy, astropy"
STUBS = "thread scheduler for the concurrent phases; interrupt/allocation-failure injector"
ASSUMPTIONS = ["settings are changed only while no other thread reads the profile"]

fresh = pk.fresh


def generate(rng, tier, idx):
    profs = [pk.gen_profile(rng)]
    for _ in range(rng.choice([0, 0, 1, 2])):
        s = dict(rng.choice(profs)) if rng.random() < 0.5 else pk.gen_profile(rng)
        if rng.random() < 0.6:  # same shape, other values: what a cache keyed too loosely confuses
            s = pk.gen_near(rng, s) if rng.random() < 0.5 else dict(s, amp=s["amp"] * 2, seed=rng.randrange(1 << 30), r_eff=round(s["r_eff"] * 1.1, 4))
        profs.append(s)
    profiles = [{"spec": s, "settings": pk.gen_settings(rng)} for s in profs]
    if rng.random() < 0.4:
        for p in profiles[1:]:
            p["settings"] = dict(profiles[0]["settings"])
    reads = [pk.gen_read(rng) for _ in range(rng.choice([2, 4, 6]))]
    ops = []
    for _ in range(rng.choice([6, 10, 16, 24])):
        u = rng.random()
        o = {"p": rng.randrange(6)}
        if u < 0.40:
            o.update(op="read", q=rng.choice(reads) if rng.random() < 0.7 else pk.gen_read(rng))
        elif u < 0.68:
            k = rng.choice(pk.SETTINGS)
            o.update(op="set", k=k, v=pk.gen_setting(rng, k))
        elif u < 0.80:
            o.update(op="fault", kind=rng.choice(["interrupt", "memory", "error"]), frac=round(rng.random(), 3), q=rng.choice(reads))
        elif u < 0.85:
            o.update(op="scribble")
        elif u < 0.89:
            o.update(op="replace", spec=pk.gen_profile(rng) if rng.random() < 0.3 else pk.gen_near(rng, rng.choice(profs)) if rng.random() < 0.5 else dict(rng.choice(profs), seed=rng.randrange(1 << 30), r_eff=round(rng.uniform(3, 20), 3)))
        elif u < 0.91:
            o.update(op="passing", spec=rng.choice(profs), n=rng.choice([4, 8, 16]), q=rng.choice(reads), each=rng.choice([1, 2]), seed=rng.randrange(1 << 30))
        elif u < 0.93:
            o.update(op="copy", how=rng.choice(["copy", "deepcopy"]))
        elif u < 0.95:
            o.update(op="correct", v=pk.gen_setting(rng, "epsilon"))
        else:
            o.update(op="threads", seed=rng.randrange(1 << 40), p_switch=rng.choice([0.05, 0.2, 0.5]),
                     threads=[[[rng.randrange(6), rng.choice(reads)] for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([2, 3]))])
        ops.append(o)
    ops.append({"op": "read", "p": 0, "q": rng.choice(reads)})
    return {"profiles": profiles, "ops": ops}


def good(spec, settings):
    """A profile on which every documented quantity must be readable."""
    return spec["kind"] == "sersic" and spec["num"] >= 8 and settings["interp_kind"] in (None, "cubic", "linear", "quadratic", "nearest", 2)


def execute(plan, ctx):
    objs = []
    for s in plan["profiles"]:
        arr = pk.inputs(s["spec"])
        try:
            p = pk.build(s["spec"], s["settings"], arr)
        except Exception as e:
            if good(s["spec"], s["settings"]):
                ctx.violate("cannot-build", "Petrosian(%s) raised %r" % (s, e))
            continue
        objs.append({"p": p, "spec": s["spec"], "set": dict(s["settings"]), "arr": arr, "ev": [], "last": None, "vis": pk.visible(p)})
    if not objs:
        return
    memo = {}

    def want(ob, q):
        key = json.dumps([ob["spec"], ob["set"], q], sort_keys=True)
        if key not in memo:
            memo[key] = ctx.pristine("fresh", ob["spec"], dict(ob["set"]), q)
        return memo[key]

    def judge(ob, q, got, where):
        w = want(ob, q)
        ctx.log(where, q, got)
        if got != w:
            ctx.violate("wrong-value", "%s: %s is %s, a fresh profile gives %s (settings %s, since: %s)"
                        % (where, q, got, w, ob["set"], ob["ev"][-6:]))
        if got[0] == "raised" and good(ob["spec"], ob["set"]):
            ctx.violate("unreadable", "%s: %s raised %s (settings %s)" % (where, q, got[1], ob["set"]))

    def unchanged(ob, where):
        v = pk.visible(ob["p"])
        if v != ob["vis"]:
            ctx.violate("profile-changed", "%s changed %s" % (where, [a[0:2] for a, b in zip(v, ob["vis"]) if a != b]))

    for k, op in enumerate(plan["ops"]):
        ob = objs[op["p"] % len(objs)] if "p" in op else objs[0]
        kind = op["op"]
        w = "op %d %s" % (k, kind)
        if kind == "read":
            got = pk.read_snap(ob["p"], op["q"])
            judge(ob, op["q"], got, w)
            ctx.count("reads")
            if ob["ev"]:
                ctx.count("nontrivial")
                ctx.sig(ob["last"], tuple(ob["ev"][-3:]), op["q"][0])
            ob["last"], ob["ev"] = op["q"][0], []
        elif kind == "set":
            setattr(ob["p"], op["k"], op["v"])
            ob["set"][op["k"]] = op["v"]
            ob["vis"] = pk.visible(ob["p"])
            ob["ev"].append("set " + op["k"])
            if getattr(ob["p"], op["k"]) != op["v"]:
                ctx.violate("setting", "%s: %s reads %r after setting %r" % (w, op["k"], getattr(ob["p"], op["k"]), op["v"]))
        elif kind == "fault":
            (how, val), fired = run_with_fault(op["kind"], op["frac"], lambda: pk.read(ob["p"], op["q"]))
            if fired:
                ctx.fault(op["kind"])
                ctx.probe("fault in " + fired.split(":")[1])
                ob["ev"].append(op["kind"] + " in " + fired.split(":")[1])
                if how == "ok":
                    ctx.violate("fault-swallowed", "%s: injected %s at %s was swallowed by %s" % (w, op["kind"], fired, op["q"]))
        elif kind == "scribble":
            if ob["spec"]["dtype"] == "ro":
                continue
            for a in ob["arr"]:
                if a is not None:
                    for i in range(len(a)):
                        a[i] = -3.0 - i
            ob["arr"] = []
            ob["ev"].append("scribble")
            ctx.probe("scribbled inputs")
        elif kind == "replace":
            i = objs.index(ob)
            settings = ob["set"]
            spec = op["spec"]
            ob = None
            objs[i] = None
            gc.collect()
            arr = pk.inputs(spec)
            try:
                p = pk.build(spec, settings, arr)
            except Exception as e:
                if good(spec, settings):
                    ctx.violate("cannot-build", "Petrosian(%s, %s) raised %r" % (spec, settings, e))
                spec = dict(spec, kind="sersic", num=12)
                arr = pk.inputs(spec)
                p = pk.build(spec, settings, arr)
            ob = objs[i] = {"p": p, "spec": spec, "set": dict(settings), "arr": arr, "ev": ["replaced"], "last": None, "vis": pk.visible(p)}
        elif kind == "passing":
            # profiles that come and go: what one leaves behind, the next may take for its own
            g = stream("passing", op["seed"])
            settings = ob["set"]
            for i in range(op["n"]):
                spec = pk.gen_near(g, op["spec"]) if g.random() < 0.3 else dict(op["spec"], r_eff=round(op["spec"]["r_eff"] * g.uniform(0.8, 1.25), 4), amp=op["spec"]["amp"] * g.uniform(0.5, 2))
                t = {"spec": spec, "set": dict(settings), "ev": ["passing %d" % i]}
                try:
                    p = pk.build(spec, settings)
                except Exception as e:
                    if good(spec, settings):
                        ctx.violate("cannot-build", "Petrosian(%s, %s) raised %r" % (spec, settings, e))
                    continue
                judged = i >= op["n"] - 3   # asking is not free
                for q in [op["q"], pk.gen_read(g)][:op["each"]]:
                    got = pk.read_snap(p, q)
                    if judged:
                        judge(t, q, got, "%s, profile %d" % (w, i))
                if judged:
                    ob["ev"].append("passing")
                del p
            ctx.probe("profiles that came and went")
            ctx.count("nontrivial")
        elif kind == "copy":
            c = copy.copy(ob["p"]) if op["how"] == "copy" else copy.deepcopy(ob["p"])
            n = {"p": c, "spec": ob["spec"], "set": dict(ob["set"]), "arr": [], "ev": ob["ev"] + [op["how"]], "last": ob["last"], "vis": pk.visible(c)}
            if len(objs) < 4:
                objs.append(n)
            else:
                objs[k % 4] = n
        elif kind == "correct":
            # what PetrosianCorrection.correct does: a copy with another epsilon
            c = copy.copy(ob["p"])
            c.epsilon = op["v"]
            n = {"p": c, "spec": ob["spec"], "set": dict(ob["set"], epsilon=op["v"]), "arr": [], "ev": ["corrected"], "last": None, "vis": pk.visible(c)}
            if len(objs) < 4:
                objs.append(n)
            else:
                objs[k % 4] = n
        elif kind == "threads" and op["threads"]:
            pol = plan.get("policy%d" % k) or {"mode": "rand", "seed": op["seed"], "p": op["p_switch"]}
            sch = Scheduler(pol)

            def body(reads):
                return lambda: [(i, q, pk.read_snap(objs[i % len(objs)]["p"], q)) for i, q in reads]

            res = sch.run([body(t) for t in op["threads"]])
            ctx.explicit["policy%d" % k] = {"mode": "explicit", "switches": sch.switches}
            ctx.fault("thread switch", len(sch.switches))
            if sch.switches:
                ctx.sig("threads", sch.sig.hexdigest())
            for t, (ok, val) in enumerate(res):
                if not ok:
                    ctx.violate("thread-failed", "%s: thread %d: %s(%s)" % (w, t, type(val).__name__, val))
                for i, q, got in val:
                    judge(objs[i % len(objs)], q, got, "%s thread %d" % (w, t))
        for o2 in objs:
            if o2 is not None:
                unchanged(o2, w)
