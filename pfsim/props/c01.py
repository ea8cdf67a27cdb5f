"""C01: a correction grid built in parallel is the grid built serially."""
import math
import os

import numpy as np

from .. import env
from .. import faults
from .. import rowkit as rk
from .. import simpool
from ..digest import short

ID = "C01"
JUDGE = False
RUNS = {"quick": 450, "thorough": 60000}
LISTS = ["ops", "ops.*.n", "ops.*.r", "ops.*.sim.faults"]
RULE = ("histories of 1-3 grid generations with random index/radius lists (unsorted, repeated, single, above 500 pairs), PSFs, "
        "sampling, worker counts and output files, on a simulated process pool: real forked workers and pickling, seeded task "
        "durations (uniform, heavy-tailed, slow worker, slow task, reversed), hence dispatch and arrival order, worker death "
        "before / during / after a task or while idle, failures, interrupts and allocation failures inside a row, interrupt of "
        "the waiting parent; every row is compared bit for bit with the row computed alone in an untouched process.  "
        "distinct_nontrivial counts distinct (shape, worker count, arrival order, faults that fired, fate) states")
MEASURE = "distinct (list shape, settings, workers, arrival order of results, fired faults, outcome)"
REAL = "all of petrofit; worker processes, pickling, astropy ProgressBar.map"
STUBS = "process pool scheduling; in grids above 500 pairs repeated pairs are computed once"
ASSUMPTIONS = ["at most 10 workers really exist at once", "fork start method (the default here)"]


def prepare():
    rk.prepare()


def gen_op(rng, prev=None):
    big = rng.random() < 0.012
    near = prev is not None and not prev["big"] and not big and rng.random() < 0.6   # nearly the same grid again
    cfg = rng.choice(rk.NEAR[prev["cfg"]] + [prev["cfg"]]) if near else rng.randrange(len(rk.CONFIGS))
    small = bool(rk.CONFIGS[cfg].get("small"))
    n, r = rk.gen_lists(rng, 1.0 if big else 0.0, small, cfg == 0, cfg in (0, 3))
    if near:
        pn, pr = prev["n"], prev["r"]
        for a, b in ((pn, pr), (pn, r), (n, pr)):
            if rng.random() < 0.6 and rk.known(cfg, a, b):
                n, r = list(a), list(b)
                break
    o = {"n": n, "r": r, "cfg": cfg, "hold": rng.random() < 0.5, "as": [rng.choice(rk.HOWS), rng.choice(rk.HOWS)], "eps": rng.random() < 0.1, "olist": rng.random() < 0.5,
         "cpu": rng.choice([None, 1, 2, 2, 3, 3, 4, 8, 64, True, False, 0, -1]), "out": rng.choice([None, None, "g.csv", "g.ecsv"]), "old": rng.random() < 0.3,
         "ints": rng.random() < 0.2, "big": big,
         "sim": {"seed": rng.randrange(1 << 40), "style": rng.choice(["uniform", "uniform", "fifo", "lifo", "heavy", "slow-worker", "slow-task"]), "faults": []},
         "serial": None, "interrupt": None}
    if big:
        o["cpu"] = rng.choice([2, 3, 4])
        o["cfg"] = rng.choice([0, 2])
    if rng.random() < 0.45:
        for _ in range(rng.choice([1, 1, 2])):
            o["sim"]["faults"].append({"task": rng.randrange(max(1, min(len(n) * len(r), 20))), "at": int(10 ** rng.uniform(0, 3.3)),
                                       "kind": rng.choice(["die-before", "die", "die-after", "die-idle", "error", "error", "value", "memory", "interrupt", "os"])})
        if rng.random() < 0.5:
            o["serial"] = {"kind": rng.choice(["error", "value", "memory", "interrupt", "os"]), "at": int(10 ** rng.uniform(0, 3.5))}
    elif rng.random() < 0.1:
        o["interrupt"] = rng.randrange(6)
    return o


def generate(rng, tier, idx):
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        ops.append(gen_op(rng, ops[-1] if ops else None))
    return {"ops": ops}


def read_back(path):
    from astropy.table import Table

    return Table.read(path)


def execute(plan, ctx):
    import contextlib

    pf = env.pf
    held = {}
    for k, o in enumerate(plan["ops"]):
        n, r = o["n"], o["r"]
        if not n or not r:
            continue
        want = rk.expected(o["cfg"], n, r)
        d = os.path.join(ctx.scratch, "op%d" % k)
        os.mkdir(d)
        path = os.path.join(d, o["out"]) if o["out"] else None
        old = None
        if path and o["old"]:
            old = b"an older file"
            with open(path, "wb") as f:
                f.write(old)
        n_arg = [v + 3e-8 for v in n] if o["eps"] else n   # rounds to the same indices
        n_arg = rk.as_arg(n_arg, o["as"][0])
        r_arg = rk.as_arg(r, o["as"][1])
        if o["ints"] and all(float(v) == int(v) for v in r):
            r_arg = [int(v) for v in r]
        done = []
        sim = simpool.Sim(o["sim"]["seed"], o["sim"]["style"], o["sim"]["faults"], lambda *e: done.append(e))
        fired = []
        if o["interrupt"] is not None:
            real = sim._some
            left = [o["interrupt"]]

            def some(pools):
                if left[0] == 0:
                    left[0] = -1
                    fired.append("interrupt of the waiting parent")
                    raise KeyboardInterrupt("injected")
                left[0] -= 1
                return real(pools)

            sim._some = some

        def call():
            return pf.generate_petrosian_sersic_correction(path, psf=cfg["psf"], r_eff_list=r_arg, n_list=n_arg, oversample=cfg["oversample"],
                                                           psf_oversample=cfg["psf_oversample"], overwrite=bool(old), n_cpu=o["cpu"])

        cfg = rk.settings(o["cfg"], o["olist"])
        if cfg["psf"] is not None and o["hold"]:
            # the caller keeps one array for the PSF and fills it with another PSF
            if cfg["psf"].shape in held:
                held[cfg["psf"].shape][...] = cfg["psf"]
                cfg["psf"] = held[cfg["psf"].shape]
            else:
                held[cfg["psf"].shape] = cfg["psf"]
        name = "op %d n=%s r=%s cfg=%d n_cpu=%s" % (k, n if not o["big"] else len(n), r if not o["big"] else len(r), o["cfg"], o["cpu"])
        with contextlib.ExitStack() as st:
            if o["big"]:
                c = st.enter_context(rk.CheapRows())
                if not c.ok:
                    ctx.count("large grid skipped")
                    continue
            st.enter_context(sim)
            try:
                if o["serial"] and not sim_used(o):
                    f = faults.Faulter(o["serial"]["kind"], at=o["serial"]["at"])
                    how, val = f.run(call)
                    if f.fired:
                        fired.append("%s at %s" % (o["serial"]["kind"], f.fired))
                    if how == "exc":
                        raise val
                    out = ("ok", val)
                else:
                    out = ("ok", call())
            except simpool.Stuck as e:
                ctx.violate("never-finishes", "%s: %s after %s" % (name, e, sim.fired))
            except BaseException as e:
                out = ("raised", e)
        fired += sim.fired
        for f in fired:
            ctx.fault(" ".join(w for w in f.split(" at ")[0].split(" ") if not w.isdigit()))
        ctx.sim_time += sim.now
        ctx.count("tasks run in workers", len(sim.order))
        ctx.count("results out of order", sum(1 for a, b in zip(sim.order, sim.order[1:]) if b < a))
        if sim.order or fired:
            ctx.count("nontrivial")
        ctx.log(name, o["sim"]["style"], sim.order if len(sim.order) < 40 else short(tuple(sim.order)), fired, out[0], "" if out[0] == "ok" else type(out[1]).__name__)
        ctx.sig(len(n), len(r), o["cfg"], o["cpu"], sim.order, [f.split(" at ")[0] for f in fired], out[0])
        ctx.count("grids of more than 500 pairs", int(o["big"]))
        if out[0] == "ok":
            if want[0] != "ok":
                ctx.violate("failed-row-hidden", "%s: returned %d rows although computing a row alone gives %s" % (name, len(out[1]), want[:2]))
            bad = rk.differs(out[1], want[1], want[2])
            if bad:
                ctx.violate("wrong-grid", "%s (style %s, arrival %s, fired %s): %s" % (name, o["sim"]["style"], sim.order[:40], fired, bad))
            for col in rk.MEASURED:
                if col in want[1] and not all(math.isfinite(row[want[1].index(col)]) for row in want[2]):
                    ctx.violate("failed-row-hidden", "%s: returned rows whose %s is not a number: such a pair cannot be measured" % (name, col))
            asked = [(a, b) for a in n for b in r]
            got = [(float(a), float(b)) for a, b in zip(out[1]["n"], out[1]["r_eff"])]
            if got != [(float(a), float(b)) for a, b in asked]:
                ctx.violate("wrong-pairs", "%s: rows for %s" % (name, got[:20]))
            ctx.probe("grid checked")
            if path and not fired:
                t = read_back(path) if os.path.exists(path) else None
                bad = "no file" if t is None else rk.differs(t, want[1], want[2])
                if bad:
                    ctx.violate("wrong-file", "%s: the file written holds %s" % (name, bad))
        else:
            if not fired and want[0] == "ok":
                ctx.violate("refused", "%s (style %s): raised %r although every row can be computed" % (name, o["sim"]["style"], out[1]))
            ctx.probe("raised " + type(out[1]).__name__)
        if path and out[0] == "raised":
            now = open(path, "rb").read() if os.path.exists(path) else None
            if now != old:
                bad = "a failing row" if want[0] != "ok" else None
                if bad is None:
                    try:
                        bad = rk.differs(read_back(path), want[1], want[2])
                    except Exception as e:
                        bad = "unreadable file (%r)" % e
                if bad or any("task" in f for f in fired):
                    ctx.violate("saved-after-failure", "%s: raised %r after %s, yet the file holds something new (%s)" % (name, out[1], fired, bad))


def sim_used(o):
    c = o["cpu"]
    return c is not None and c is not True and c is not False and c > 1
