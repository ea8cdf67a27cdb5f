"""C14: correction look-ups are stable and non-destructive."""
import copy
import json
import os

import numpy as np

from .. import callkit as ck
from .. import env
from .. import gridkit as gk
from .. import objkit as ok
from .. import profkit as pk
from ..digest import snap
from ..faults import Faulter, count_points
from ..sched import Scheduler

ID = "C14"
JUDGE = True
RUNS = {"quick": 700, "thorough": 50000}
LISTS = ["ops", "ops.*.threads", "ops.*.threads.*"]
RULE = ("random histories of look-ups (index, epsilon, corrected profile) on shared and fresh correction objects over whole and "
        "partial grids, mixed with filtering, listing, plotting, saving, setting changes, scribbling over results, interrupted, "
        "out-of-memory and failing look-ups, and look-ups by several threads under a seeded scheduler; each answer is compared "
        "with the same question asked first in an untouched process, the grid and profiles with snapshots.  "
        "distinct_nontrivial counts distinct (previous event, question, settings class) transitions plus interleavings")
MEASURE = "distinct (previous event, question, eta, fraction, fate) transitions plus distinct switch sequences"
REAL = "petrofit.petrosian, astropy tables"
STUBS = "thread scheduler; interrupt/allocation/library failure injector"
ASSUMPTIONS = ["supported questions: eta in 0.2, 0.3, 0.4, 0.5 and epsilon_fraction in 0.5, 0.8, 0.99"]

ASK = ("estimate_n", "estimate_epsilon", "estimate_epsilon", "correct", "correct", "_closest")
READS = (["epsilon"], ["r_half_light"], ["r_total_flux"], ["total_flux"], ["c2080"], ["r_petrosian"])


def odd(rng, names):
    """A value beside or between the supported ones."""
    return round(rng.choice(names) + rng.choice([-1, 1]) * rng.choice([0.004, 0.01, 0.02, 0.03, 0.05, 0.07]), 3)


def gen_ask(rng):
    a = _gen_ask(rng)
    if a["eta"] == "odd":
        a["eta"] = odd(rng, [0.2, 0.3, 0.4, 0.5])
    if a["ef"] == "odd":
        a["ef"] = odd(rng, [0.5, 0.8, 0.9])
    return a


def _gen_ask(rng):
    return {"c": rng.randrange(4), "p": rng.randrange(4), "what": rng.choice(ASK[:5]), "eta": rng.choice([None, None, 0.2, 0.3, 0.4, 0.5, "odd"]),
            "ef": rng.choice([None, None, 0.99, 0.8, 0.5, "odd"]), "fresh": rng.random() < 0.2}


def gen_twin(rng, g):
    """A grid for the same pairs, with some other values in it."""
    lookup, answers = ["p02", "u_r_50", "u_c2080"], ["n", "c_r_50", "c_r_80", "c_r_99", "p03", "p04", "p05"]
    cols = rng.choice([["u_r_50"], ["u_c2080"], ["u_r_50", "u_c2080"], lookup, lookup + answers, answers])
    return {"spec": dict(g["spec"] or {}, twist={"seed": rng.randrange(99), "cols": cols, "by": rng.choice([[0.97, 1.03], [0.6, 1.5], [0.3, 1.0]])}), "enforce": g["enforce"]}


def generate(rng, tier, idx):
    grids = [{"spec": rng.choice([None, None, {"rows": rng.choice([1, 1, 5, 20, 1000]), "seed": rng.randrange(99), "shuffle": rng.random() < 0.6}]), "enforce": rng.random() < 0.5} for _ in range(rng.choice([1, 2]))]
    if rng.random() < 0.3:
        grids = [grids[0], gen_twin(rng, grids[0])]
    profs = []
    for _ in range(rng.choice([1, 2, 3])):
        p = dict(pk.gen_profile(rng, good=True), n=rng.choice([0.5, 1.0, 2.0, 3.3, 4.0]), r_eff=round(rng.uniform(5, 36), 2), num=rng.choice([40, 60]),
                 reach=rng.choice([8, 12]), log=False)
        if rng.random() < 0.15:
            p = pk.gen_profile(rng)
        elif profs and rng.random() < 0.4:
            p = pk.gen_near(rng, rng.choice(profs)["spec"])
        profs.append({"spec": p, "set": dict(pk.DEFAULTS)})
    ops = []
    for _ in range(rng.choice([3, 5, 8])):
        u = rng.random()
        if u < 0.45:
            ops.append({"op": "ask", "a": gen_ask(rng)})
        elif u < 0.62:
            ops.append({"op": "fault", "a": gen_ask(rng), "kind": rng.choice(["interrupt", "interrupt", "memory", "error", "value", "os"]), "frac": round(rng.random(), 4)})
        elif u < 0.72:
            ops.append({"op": "other", "c": rng.randrange(4), "what": rng.choice(["filter", "filter", "unique", "keys", "write", "plot"]),
                        "p": rng.randrange(4), "k": rng.choice(["n", "r_eff", "p02", "c_r_50"]), "v": rng.choice([1.0, 2.0, 5.0, 9.0]), "row": rng.choice([None, rng.randrange(1000)])})
        elif u < 0.82:
            ops.append({"op": "set", "p": rng.randrange(4), "k": rng.choice(["eta", "epsilon_fraction", "epsilon"]), "v": None})
            ops[-1]["v"] = {"eta": rng.choice([0.2, 0.3, 0.4, 0.5, 0.22, odd(rng, [0.2, 0.3, 0.4, 0.5])]), "epsilon_fraction": rng.choice([0.99, 0.8, 0.5, odd(rng, [0.5, 0.8, 0.9])]), "epsilon": rng.choice([2.0, 1.5])}[ops[-1]["k"]]
        else:
            ops.append({"op": "threads", "threads": [[gen_ask(rng) for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([2, 3]))],
                        "seed": rng.randrange(1 << 40), "p": rng.choice([0.02, 0.1, 0.3])})
    ops.append({"op": "ask", "a": gen_ask(rng)})
    return {"grids": grids, "profs": profs, "ops": ops}


def make(g):
    return env.pf.PetrosianCorrection(gk.table(g["spec"]), enforce_range=g["enforce"])


def question(corr, p, what):
    """The answer as plain data."""
    try:
        if what == "correct":
            q = corr.correct(p)
            return ("ok", [pk.read_snap(q, r) for r in READS]), q
        return ("ok", pk.norm(getattr(corr, what)(p))), None
    except Exception as e:
        return ("raised", type(e).__name__), None


def fresh(g, spec, settings, what):
    """Judge."""
    import warnings

    warnings.simplefilter("ignore")
    return question(make(g), pk.build(spec, settings), what)[0]


def supported(settings):
    return settings["eta"] in (0.2, 0.3, 0.4, 0.5) and settings["epsilon_fraction"] in (0.5, 0.8, 0.99)


def execute(plan, ctx):
    if not plan["grids"] or not plan["profs"]:
        return
    G = []
    for g in plan["grids"]:
        c = make(g)
        G.append({"g": g, "c": c, "snap": snap(c.grid), "keys": list(c.grid.colnames)})
    P = []
    for s in plan["profs"]:
        try:
            p = pk.build(s["spec"], s["set"])
        except Exception:
            continue
        P.append({"p": p, "spec": s["spec"], "set": dict(s["set"]), "vis": pk.visible(p)})
    if not P:
        return
    memo = {}
    prev = "start"

    def want(g, ob, settings, what):
        key = json.dumps([g, ob["spec"], settings, what], sort_keys=True)
        if key not in memo:
            memo[key] = ctx.pristine("fresh", g, ob["spec"], settings, what)
        return memo[key]

    def pick(a):
        gr, ob = G[a["c"] % len(G)], P[a["p"] % len(P)]
        settings = dict(ob["set"])
        p = ob["p"]
        if a["eta"] is not None or a["ef"] is not None or a["fresh"]:
            # the same measurements under other settings: a fresh profile
            if a["eta"] is not None:
                settings["eta"] = a["eta"]
            if a["ef"] is not None:
                settings["epsilon_fraction"] = a["ef"]
            p = pk.build(ob["spec"], settings)
        return gr, ob, settings, p

    def judge(got, gr, ob, settings, what, where):
        x = want(gr["g"], ob, settings, what)
        if got != x:
            ctx.violate("unstable", "%s: %s answers %s, asked first it is %s (eta %s, fraction %s, enforce_range %s)"
                        % (where, what, str(got)[:300], str(x)[:300], settings["eta"], settings["epsilon_fraction"], gr["g"]["enforce"]))
        if what == "estimate_n":
            return
        good = ob["spec"]["kind"] == "sersic" and ob["spec"]["num"] >= 40 and not ob["spec"]["log"] and settings["epsilon"] == 2.0
        if supported(settings):
            if got[0] == "raised" and not gr["g"]["enforce"] and good:
                ctx.violate("no-answer", "%s: %s raises %s for eta %s, fraction %s" % (where, what, got[1], settings["eta"], settings["epsilon_fraction"]))
        elif got[0] == "ok":
            ctx.violate("unsupported-answered", "%s: %s answers %s for eta %s, fraction %s" % (where, what, got[1], settings["eta"], settings["epsilon_fraction"]))

    def intact(where):
        for gr in G:
            if snap(gr["c"].grid) != gr["snap"]:
                ctx.violate("grid-changed", "%s changed the grid" % where)
        for ob in P:
            v = pk.visible(ob["p"])
            if v != ob["vis"]:
                ctx.violate("profile-changed", "%s changed %s" % (where, [a[:2] for a, b in zip(v, ob["vis"]) if a != b]))

    for k, op in enumerate(plan["ops"]):
        kind = op["op"]
        where = "op %d %s after %s" % (k, kind, prev)
        if kind == "ask":
            a = op["a"]
            gr, ob, settings, p = pick(a)
            vis = pk.visible(p)
            got, q = question(gr["c"], p, a["what"])
            ctx.log(where, a["what"], got)
            judge(got, gr, ob, settings, a["what"], where)
            if pk.visible(p) != vis:
                ctx.violate("profile-changed", "%s %s changed the profile it was asked about" % (where, a["what"]))
            if q is not None:
                q.eta, q.epsilon, q.epsilon_fraction = 0.123, 7.5, 0.31  # the answer is the caller's to change
                if pk.visible(p) != vis:
                    ctx.violate("profile-changed", "%s: changing settings of the corrected profile changed the original" % where)
            ctx.sig(prev, a["what"], settings["eta"], settings["epsilon_fraction"], got[0])
            ctx.count("questions")
            ctx.count("questions that raised", got[0] == "raised")
            prev = a["what"]
        elif kind == "fault":
            a = op["a"]
            gr, ob, settings, p = pick(a)
            run = lambda: getattr(gr["c"], a["what"])(p)
            n = count_points(op["kind"], run)
            f = Faulter(op["kind"], at=min(int(op["frac"] * n), max(n - 1, 0)))
            how, val = f.run(run)
            ctx.log(where, f.fired, how)
            if f.fired:
                ctx.fault(op["kind"])
                ctx.probe("fault in " + f.fired.split(":")[1])
                ctx.count("nontrivial")
                prev = op["kind"] + " in " + f.fired.split(":")[1]
                if how == "ok":
                    ctx.violate("fault-swallowed", "%s: %s at %s was swallowed by %s" % (where, op["kind"], f.fired, a["what"]))
        elif kind == "other":
            gr, ob = G[op["c"] % len(G)], P[op["p"] % len(P)]
            c = gr["c"]
            w = op["what"]
            if w == "filter":
                t = c.filter_grid(op["k"], op["v"] if op.get("row") is None else c.grid[op["k"]][op["row"] % len(c.grid)])
                for col in t.colnames:
                    t[col][:] = -1
            elif w == "unique":
                u = c.unique_grid_values(op["k"])
                u[:] = -1
            elif w == "keys":
                list(c.grid_keys)
            elif w == "write":
                c.write(os.path.join(ck.scratch_dir(), "g.csv"))
            else:
                from matplotlib import pyplot as plt

                try:
                    c.plot_correction(ob["p"])
                except (AssertionError, ValueError):
                    pass
                plt.close("all")
            ctx.log(where, w)
            prev = w
        elif kind == "set":
            ob = P[op["p"] % len(P)]
            setattr(ob["p"], op["k"], op["v"])
            ob["set"][op["k"]] = op["v"]
            ob["vis"] = pk.visible(ob["p"])
            prev = "set " + op["k"]
        elif op["threads"]:
            todo = [[(a["what"],) + pick(a) for a in t] for t in op["threads"]]
            sch = Scheduler(plan.get("policy%d" % k) or {"mode": "rand", "seed": op["seed"], "p": op["p"]}, max_points=3000000)

            def body(items):
                return lambda: [question(gr["c"], p, what)[0] for what, gr, ob, settings, p in items]

            res = sch.run([body(t) for t in todo])
            ctx.explicit["policy%d" % k] = {"mode": "explicit", "switches": sch.switches}
            ctx.fault("thread switch", len(sch.switches))
            if sch.switches:
                ctx.sig("threads", sch.sig.hexdigest())
                ctx.count("nontrivial")
            for t, (done, val) in enumerate(res):
                if not done:
                    ctx.violate("thread-failed", "%s: thread %d: %s(%s)" % (where, t, type(val).__name__, val))
                for (what, gr, ob, settings, p), got in zip(todo[t], val):
                    ctx.log(where, t, what, got)
                    judge(got, gr, ob, settings, what, "%s thread %d" % (where, t))
            prev = "threads"
        intact(where)
