"""C08: copies, sub-models and corrected profiles are independent objects."""
import copy
import pickle

import numpy as np

from .. import env
from .. import gridkit as gk
from .. import modelkit as mk
from .. import profkit as pk
from ..faults import run_with_fault
from ..rng import stream

ID = "C08"
RUNS = {"quick": 2500, "thorough": 300000}
LISTS = ["ops", "models", "profiles"]
RULE = ("random families of models and profiles: copies, pickles, sub-models, re-wraps, fits and corrections derived from one "
        "another, some derivations interrupted or out of memory, then changes of parameters, fixed flags, bounds, PSF, "
        "sampling, caching or profile settings of one member; every member's reported state and rendered image is compared "
        "with its own reference after every step.  distinct_nontrivial counts distinct (derivation path, mutation) pairs")
MEASURE = "distinct (how the changed object was derived, what was changed, how the observed object was derived) triples"
REAL = "all of petrofit, astropy, scipy, numpy, copy and pickle"
STUBS = "none; interrupt/allocation-failure injector for derivations"
ASSUMPTIONS = ["model copy means the copy() method or copy.deepcopy; profile copy means copy.copy or copy.deepcopy"]


def generate(rng, tier, idx):
    size = 16
    models = []
    for _ in range(rng.choice([1, 1, 2])):
        s = mk.gen_model(rng, size)
        s["fixed"] = [rng.randrange(20) for _ in range(rng.choice([0, 1, 2]))]
        s["bounds"] = [[rng.randrange(20), round(rng.uniform(-5, 0), 2), round(rng.uniform(20, 40), 2)] for _ in range(rng.choice([0, 1, 2]))]
        models.append(s)
    profiles = []
    for _ in range(rng.choice([0, 1, 1])):
        s = pk.gen_profile(rng, good=True)
        s.update(n=rng.choice([1.0, 2.0, 4.0]), r_eff=round(rng.uniform(10, 40), 2), num=40, reach=8, log=False)
        profiles.append({"spec": s, "settings": pk.gen_settings(rng)})
    ops = []
    for _ in range(rng.choice([6, 10, 16])):
        u = rng.random()
        o = {"i": rng.randrange(12)}
        if u < 0.42:
            o.update(op="derive", how=rng.choice(["copy", "deepcopy", "pickle", "model", "model", "wrap", "fit", "correct"]),
                     fault=rng.choice([None] * 4 + ["interrupt", "memory", "error"]), frac=round(rng.random(), 3))
        else:
            o.update(op="change", what=rng.choice(["param", "param", "fixed", "fixed", "bounds", "bounds", "psf", "psfdata", "oversample", "psf", "psf",
                                                   "pof", "cache", "pa", "setting"]), pick=rng.randrange(1 << 30))
        ops.append(o)
    return {"models": models, "profiles": profiles, "ops": ops, "r": [mk.gen_render(rng, size) for _ in range(2)], "size": size}


def execute(plan, ctx):
    size = plan["size"]
    fam = []
    given, kept = [], {}   # PSFs assigned, with the models they were assigned to; their values

    def state_of(m, names):
        """Constraint values as plain data."""
        return {"fixed": {n: bool(m.fixed[n]) for n in names}, "bounds": {n: tuple(m.bounds[n]) for n in names}}

    for s in plan["models"]:
        sub = mk.build_sub(s["sub"])
        names = list(sub.param_names)
        for i in s["fixed"]:
            sub.fixed[names[i % len(names)]] = True
        for i, a, b in s["bounds"]:
            sub.bounds[names[i % len(names)]] = (a, b)
        cons = state_of(sub, names)
        psf = mk.build_psf(s["psf"])
        m = env.pf.PSFConvolvedModel2D(sub, psf=psf, oversample=mk.to_oversample(s["oversample"]), psf_oversample=s["pof"])
        params = [float(v) for v in sub.parameters]
        base = {"sub": mk.build_sub(s["sub"]), "spec": s["sub"]}
        fam.append(dict(base, kind="sub", o=sub, names=names, params=list(params), cons=copy.deepcopy(cons), how="original sub-model"))
        c2 = copy.deepcopy(cons)
        c2["fixed"]["psf_pa"] = False
        c2["bounds"]["psf_pa"] = (None, None)
        fam.append(dict(base, kind="psf", o=m, names=names + ["psf_pa"], params=params + [0.0], cons=c2, psf=None if psf is None else psf.copy(),
                        oversample=s["oversample"], pof=s["pof"], cache=True, how="original"))
        if psf is not None:
            given.append((psf, [fam[-1]]))
            kept[id(psf)] = psf.copy()
    for s in plan["profiles"]:
        p = pk.build(s["spec"], s["settings"])
        fam.append({"kind": "petro", "o": p, "vis": pk.visible(p), "spec": s["spec"], "set": dict(s["settings"]), "how": "profile"})
    if not fam:
        return

    def refstate(f):
        if f["kind"] == "psf":
            return {"sub": f["sub"], "names": f["names"][:-1], "params": f["params"][:-1], "pa": f["params"][-1], "psf": f["psf"], "oversample": f["oversample"], "pof": f["pof"]}
        return {"sub": f["sub"], "names": f["names"], "params": f["params"], "pa": 0, "psf": None, "oversample": None, "pof": None}

    def check(f, where, render):
        o = f["o"]
        if f["kind"] == "petro":
            v = pk.visible(o)
            if v != f["vis"]:
                ctx.violate("profile-changed", "%s changed %s of the %s" % (where, [a[:2] for a, b in zip(v, f["vis"]) if a != b], f["how"]))
            if render:
                got, want = pk.read_snap(o, ["r_half_light"]), pk.fresh(f["spec"], f["set"], ["r_half_light"])
                if got != want:
                    ctx.violate("profile-reads-differently", "%s: r_half_light of the %s is %s instead of %s" % (where, f["how"], got, want))
            return
        if list(o.param_names) != f["names"]:
            ctx.violate("parameters", "%s: parameter names of the %s are %s" % (where, f["how"], o.param_names))
        par = [float(v) for v in o.parameters]
        att = [float(getattr(o, n).value) for n in f["names"]]
        if par != f["params"] or att != f["params"]:
            ctx.violate("parameters", "%s: parameters of the %s are %s/%s instead of %s" % (where, f["how"], par, att, f["params"]))
        c = state_of(o, f["names"])
        if c != f["cons"]:
            d = [(k, n, c[k][n], f["cons"][k][n]) for k in c for n in c[k] if c[k][n] != f["cons"][k][n]]
            ctx.violate("constraints", "%s: constraints of the %s (got, expected): %s" % (where, f["how"], d))
        for n in f["names"]:
            p = getattr(o, n)
            if bool(p.fixed) != f["cons"]["fixed"][n] or tuple(p.bounds) != f["cons"]["bounds"][n]:
                ctx.violate("constraints", "%s: parameter %s of the %s has fixed=%s bounds=%s" % (where, n, f["how"], p.fixed, p.bounds))
        if f["kind"] == "psf":
            if o.oversample != mk.to_oversample(f["oversample"]) or o.psf_oversample != f["pof"] or o.cache_grid is not f["cache"]:
                ctx.violate("settings", "%s: settings of the %s are %r %r %r instead of %r %r %r" % (
                    where, f["how"], o.oversample, o.psf_oversample, o.cache_grid, f["oversample"], f["pof"], f["cache"]))
            if (o.psf is None) != (f["psf"] is None) or (o.psf is not None and not np.array_equal(o.psf, f["psf"])):
                ctx.violate("settings", "%s: psf of the %s changed" % (where, f["how"]))
        if render:
            for r in plan["r"]:
                if f["kind"] == "psf":
                    im = mk.do_render(o, r, st=refstate(f))
                    e = mk.close(im, mk.reference(refstate(f), r))
                else:
                    x, y = mk.coords(dict(r, dtype="f8"))
                    im = np.asarray(o(x, y), dtype=float)
                    w = np.array(f["sub"].evaluate(x, y, *[np.array([v]) for v in f["params"]]), dtype=float)
                    e = mk.close(im, (w, float(np.nanmax(np.abs(w)))))
                if e:
                    ctx.violate("image", "%s: image of the %s %s" % (where, f["how"], e))

    for f in fam:
        check(f, "start", True)
    last = None
    for k, op in enumerate(plan["ops"]):
        f = fam[op["i"] % len(fam)]
        w = "op %d %s %s" % (k, op["op"], op.get("how") or op.get("what"))
        o = f["o"]
        if op["op"] == "derive":
            how = op["how"]
            if f["kind"] == "petro":
                if how in ("model", "wrap", "fit"):
                    how = "correct"
                fn = {"copy": lambda: copy.copy(o), "deepcopy": lambda: copy.deepcopy(o), "pickle": lambda: pickle.loads(pickle.dumps(o)),
                      "correct": lambda: gk.correction().correct(o)}[how]
            else:
                if how == "correct" or (how == "pickle" and f["spec"]["kind"] in ("nuker", "core", "custom")):
                    how = "copy"
                if f["kind"] == "sub" and how == "model":
                    how = "wrap"
                if f["kind"] == "psf" and how == "wrap":
                    how = "rewrap"
                img = None
                if how == "fit":
                    r = {"via": "call", "size": [7, 7], "origin": [0, 0], "dtype": "f8"}
                    img = np.asarray(mk.reference(refstate(f), r)[0]) if f["kind"] == "psf" else None
                    if img is None or not np.isfinite(img).all() or all(f["cons"]["fixed"].values()):
                        how = "copy"
                fn = {"copy": lambda: o.copy(), "deepcopy": lambda: copy.deepcopy(o), "pickle": lambda: pickle.loads(pickle.dumps(o)),
                      "model": lambda: o.model, "wrap": lambda: env.pf.PSFConvolvedModel2D(o),
                      "rewrap": lambda: env.pf.PSFConvolvedModel2D(o.model, psf=o.psf, oversample=o.oversample),
                      "fit": lambda: env.pf.fit_model(img, o, maxiter=2)[0]}[how]
            if op["fault"]:
                (res, c), fired = run_with_fault(op["fault"], op["frac"], fn)
                if fired:
                    ctx.fault(op["fault"])
                    c = None
                elif res == "exc":
                    c = None
            else:
                try:
                    c = fn()
                except Exception as e:
                    expected = (how == "correct" and isinstance(e, (AssertionError, ValueError))) or how == "fit"
                    if how == "rewrap" and isinstance(e, ValueError) and f["pof"] is not None:
                        expected = True
                    if not expected:
                        ctx.violate("derive-failed", "%s of the %s raised %r" % (w, f["how"], e))
                    c = None
            if c is not None:
                if c is o:
                    ctx.violate("same-object", "%s returned the object itself" % w)
                n = dict(f, o=c, how=how + " of " + f["how"].split(" of ")[0])
                if f["kind"] == "petro":
                    n["set"] = dict(f["set"])
                    n["vis"] = list(f["vis"])
                    if how == "correct":
                        n["set"]["epsilon"] = c.epsilon
                        n["vis"] = [(a, b, repr(c.epsilon)) if b == "epsilon" else (a, b, x) if a == "set" else (a, b)
                                    for (a, b, *rest) in f["vis"] for x in [rest[0] if rest else None]]
                else:
                    n["params"] = list(f["params"])
                    n["cons"] = copy.deepcopy(f["cons"])
                    if how == "fit":
                        n["params"] = [float(v) for v in c.parameters]
                    if how == "model":
                        n["kind"] = "sub"
                        n["names"] = f["names"][:-1]
                        n["params"] = f["params"][:-1]
                        for q in ("fixed", "bounds"):
                            del n["cons"][q]["psf_pa"]
                    elif how == "wrap" or how == "rewrap":
                        n["kind"] = "psf"
                        if how == "wrap":
                            n.update(psf=None, oversample=None, names=f["names"] + ["psf_pa"], params=list(f["params"]) + [0.0])
                        else:
                            n["params"][-1] = 0.0
                            n["psf"] = None if f["psf"] is None else f["psf"].copy()
                        n["cons"]["fixed"]["psf_pa"] = False
                        n["cons"]["bounds"]["psf_pa"] = (None, None)
                        n.update(pof=None, cache=True)
                    elif n["kind"] == "psf" and n["psf"] is not None:
                        n["psf"] = n["psf"].copy()
                    n["shares_psf"] = how == "rewrap" or (how == "fit" and False)
                    if how == "rewrap":
                        f["shares_psf"] = True
                check(n, w, True)
                if len(fam) < 9:
                    fam.append(n)
                else:
                    fam[3 + k % 6] = n
                ctx.probe("derived by " + how)
                ctx.count("nontrivial")
        else:
            what = op["what"]
            g = stream("c08", op["pick"])
            if f["kind"] == "petro":
                key = g.choice(pk.SETTINGS)
                v = pk.gen_setting(g, key)
                setattr(o, key, v)
                f["set"][key] = v
                f["vis"] = [(a, b, repr(v)) if a == "set" and b == key else t for t in f["vis"] for (a, b) in [t[:2]]]
                what = "setting"
            else:
                i = g.randrange(len(f["names"]))
                name = f["names"][i]
                if what in ("setting", "psf", "psfdata", "oversample", "pof", "cache", "pa") and f["kind"] == "sub":
                    what = "param"
                if what == "param":
                    v = f["params"][i]
                    v = v + round(g.uniform(0.01, 1), 3) if name.startswith(("x_", "y_", "psf")) else min(v * 1.1, 0.8) if name.startswith("ellip") else v * 1.1
                    h = g.randrange(3)
                    if h == 0:
                        setattr(o, name, v)
                    elif h == 1:
                        getattr(o, name).value = v
                    else:
                        a = np.array(o.parameters)
                        a[i] = v
                        o.parameters = a
                    f["params"][i] = v
                elif what == "fixed":
                    v = not f["cons"]["fixed"][name]
                    if g.random() < 0.5:
                        o.fixed[name] = v
                    else:
                        getattr(o, name).fixed = v
                    f["cons"]["fixed"][name] = v
                elif what == "bounds":
                    v = (round(g.uniform(-9, 0), 2), round(g.uniform(30, 60), 2))
                    h = g.randrange(3)
                    if h == 0:
                        o.bounds[name] = v
                    elif h == 1:
                        getattr(o, name).bounds = v
                    else:
                        v = (v[0], f["cons"]["bounds"][name][1])
                        getattr(o, name).min = v[0]
                    f["cons"]["bounds"][name] = v
                elif what == "psf":
                    if f["pof"] is None:
                        v = mk.build_psf(g.choice([None, mk.gen_psf(g), mk.gen_psf(g)]))
                        u = g.random()
                        if u < 0.4 and v is not None and f["psf"] is not None and f["psf"].shape != v.shape:   # the size of the present one
                            v = mk.build_psf(dict(mk.gen_psf(g), n=f["psf"].shape[0], m=f["psf"].shape[1] - f["psf"].shape[0]))
                        if v is not None:
                            if given and g.random() < 0.4:   # an array that another model has
                                v, holders = g.choice(given)
                                holders.append(f)
                                for h in holders:
                                    h["shares_psf"] = True
                            else:
                                f["shares_psf"] = False
                                given.append((v, [f]))
                            kept[id(v)] = v.copy() if id(v) not in kept else kept[id(v)]
                        o.psf = v
                        f["psf"] = None if v is None else kept[id(v)].copy()
                elif what == "psfdata":
                    if o.psf is not None and not f.get("shares_psf"):
                        for v, _ in given:   # which of these the model holds as they are is not what counts here
                            if np.shares_memory(v, o.psf):
                                kept[id(v)] = kept[id(v)].copy()
                                kept[id(v)][0, 0] += 0.125
                        o.psf[0, 0] += 0.125
                        f["psf"][0, 0] += 0.125
                elif what == "oversample":
                    v = mk.gen_oversample(g, f["spec"], f["pof"] or 1, size)
                    o.oversample = mk.to_oversample(v)
                    f["oversample"] = v
                elif what == "pof":
                    v = f["oversample"]
                    fac = v[3] if isinstance(v, list) else v or 1
                    v = g.choice([None, 1, fac])
                    if f["psf"] is not None:
                        o.psf_oversample = v
                        f["pof"] = v
                elif what == "cache":
                    v = g.choice([True, False])
                    o.cache_grid = v
                    f["cache"] = v
                elif what in ("pa", "setting"):
                    v = round(g.uniform(-90, 90), 2)
                    o.psf_pa = v
                    f["params"][-1] = v
            for other in fam:
                ctx.sig(f["how"], what, other["how"])
            ctx.probe("changed " + what)
            last = f
        for v, _ in given:
            if not np.array_equal(v, kept[id(v)]):
                ctx.violate("settings", "%s changed a PSF that was assigned earlier" % w)
        render = (k % 4 == 3)
        for other in fam:
            check(other, w + " on the " + f["how"], render or other is last)
        ctx.log(w, len(fam))
    for f in fam:
        check(f, "end", True)
