"""C04: a rendered image depends only on the model's current state."""
import copy
import pickle

import numpy as np

from .. import modelkit as mk
from ..faults import run_with_fault, Injected

ID = "C04"
RUNS = {"quick": 2500, "thorough": 400000}
LISTS = ["ops", "models"]
RULE = ("random histories over up to three PSF-convolved models: parameter/PSF/sampling/caching changes, copies, pickles, "
        "renders of varied size, origin, shape and dtype, interrupted and out-of-memory renders; every image is compared "
        "with an independent reference renderer.  distinct_nontrivial counts distinct (previous render class, faults since, "
        "settings changed since, this render class) transitions reached")
MEASURE = "distinct transitions between consecutive renders of one object (same/changed size, origin, factor, setting, fault site)"
REAL = "all of petrofit.modeling, astropy, scipy, numpy"
STUBS = "none; the interrupt/allocation-failure injector raises at interpreter points"
ASSUMPTIONS = ["images compared to 1e-9 of the brightest sample", "pixel coordinates on a unit grid"]


def generate(rng, tier, idx):
    size = rng.choice([12, 20, 24, 24, 30])
    nm = rng.choice([1, 1, 2, 3])
    same = rng.random() < 0.4
    models = []
    for k in range(nm):
        if same and models:
            m = dict(mk.gen_model(rng, size))
            # same sizes and origins, different factors: what a shared cache would confuse
            models.append(m)
        else:
            models.append(mk.gen_model(rng, size))
    faulty = rng.random() < 0.6
    pool = [mk.gen_render(rng, size, 0.04) for _ in range(rng.choice([1, 2, 3, 5]))]
    if rng.random() < 0.4:
        pool += [mk.near_render(rng, rng.choice(pool)) for _ in range(rng.choice([1, 2]))]
    ops = []
    for _ in range(rng.choice([6, 10, 16, 25])):
        u = rng.random()
        o = {"m": rng.randrange(8)}
        if u < 0.42:
            o.update(op="render", r=rng.choice(pool) if rng.random() < 0.8 else mk.gen_render(rng, size))
        elif u < 0.56:
            if not faulty:
                o.update(op="render", r=rng.choice(pool))
            else:
                o.update(op="fault", kind=rng.choice(["interrupt", "memory", "error"]), frac=round(rng.random(), 3),
                         r=rng.choice(pool) if rng.random() < 0.5 else mk.gen_render(rng, size))
        elif u < 0.66:
            o.update(op="param", p=mk.gen_param_change(rng, 0, size))
        elif u < 0.76:
            o.update(op="oversample", pick=rng.randrange(1 << 30), sib=rng.random() < 0.5, kinds=rng.choice([["int"], ["none", "int"], ["win"], ["none", "int", "win"]]))
        elif u < 0.80:
            o.update(op="psf", psf=mk.gen_psf(rng) if rng.random() < 0.8 else None, fill=rng.random() < 0.35, tiny=rng.choice([1, 1, 1e-3, 1e-5]))
        elif u < 0.83:
            o.update(op="pa", pa=rng.choice([0, round(rng.uniform(-180, 180), 2)]), step=rng.choice([None, None, 90, 180, 360, 1, 0.03, 0.0004, -0.2]))
        elif u < 0.86:
            o.update(op="pof", pof=rng.choice([None, 1, 2, 3]))
        elif u < 0.91:
            o.update(op="cache", v=rng.choice([True, False, "clear"]))
        elif u < 0.95:
            o.update(op="copy", how=rng.choice(["copy", "deepcopy", "pickle", "wrap"]))
        elif u < 0.98:
            o.update(op="scribble", w=rng.choice(["image", "coords", "snapshot"]))
        else:
            o.update(op="fit", r=rng.choice(pool))
        ops.append(o)
    ops.append({"op": "render", "m": 0, "r": rng.choice(pool)})
    ops.append({"op": "render", "m": 1, "r": rng.choice(pool)})
    return {"models": models, "ops": ops, "size": size}


def rclass(r):
    return (r["via"], tuple(r["size"]), tuple(r["origin"]), r["dtype"])


def execute(plan, ctx):
    from ..rng import stream

    objs = []
    handed = []  # (image, pristine copy, description)
    for s in plan["models"]:
        m, st = mk.build_model(s)
        objs.append({"m": m, "st": st, "last": None, "since": []})
    if not objs:
        return
    coords = []

    def recheck(where):
        for im, ref, d in handed:
            if not np.array_equal(im, ref, equal_nan=True):
                ctx.violate("handed-out-image-changed", "image returned earlier (%s) changed during %s" % (d, where))

    for k, op in enumerate(plan["ops"]):
        ob = objs[op["m"] % len(objs)]
        m, st = ob["m"], ob["st"]
        kind = op["op"]
        tag = "op %d %s" % (k, kind)
        if kind in ("render", "fault"):
            r = op["r"]
            key = (rclass(r), repr(st["oversample"]) if not isinstance(st["oversample"], list) else "win", st["pof"])
            if kind == "render":
                try:
                    im = mk.do_render(m, r, coords, st)
                except Exception as e:
                    ctx.violate("render-raised", "%s: %s render raised %r" % (tag, r, e))
                err = mk.close(im, mk.reference(st, r))
                ctx.log(tag, rclass(r), "ok" if err is None else err)
                if ob["last"] is not None:
                    ctx.sig(tuple(ob["since"][-4:]), ob["last"][0] == key[0], ob["last"][1] == key[1], key[1] == "win",
                            ob["last"][0][1] == key[0][1], ob["last"][0][2] == key[0][2], r["via"])
                if err:
                    ctx.violate("wrong-image", "%s: %s with oversample=%s psf_oversample=%s after %s: image %s"
                                % (tag, r, st["oversample"], st["pof"], ob["since"][-6:], err))
                handed.append((im, np.array(im, copy=True), tag))
                handed[:-12] = []
                if ob["since"]:
                    ctx.count("nontrivial")
                ctx.count("renders")
            else:
                (how, val), fired = run_with_fault(op["kind"], op["frac"], lambda: mk.do_render(m, r, st=st))
                ctx.log(tag, op["kind"], fired)
                if fired:
                    ctx.fault(op["kind"])
                    ctx.probe("fault in " + fired.split(":")[1])
                    ob["since"].append((op["kind"], fired))
                    if how == "ok":
                        ctx.violate("fault-swallowed", "%s: injected %s at %s was swallowed and an image returned" % (tag, op["kind"], fired))
            if kind == "render":
                ob["since"] = []
            ob["last"] = key
        elif kind == "param":
            mk.apply_param_change(m, st, op["p"])
            ob["since"].append("param")
        elif kind == "oversample":
            v = mk.gen_oversample(stream("o", op["pick"]), st["spec"], st["pof"] or 1, plan["size"], op["kinds"] if (st["pof"] or 1) == 1 or op["kinds"] != ["none"] else ["int"])
            if op["sib"] and isinstance(st["oversample"], list):
                v = mk.gen_sibling(stream("o", op["pick"]), st["oversample"], st["pof"] or 1)
            try:
                m.oversample = mk.to_oversample(v)
                st["oversample"] = v
                ob["since"].append("oversample")
            except (ValueError, TypeError):
                pass
        elif kind == "psf":
            v = mk.build_psf(op["psf"])
            if op["fill"] and st["psf"] is not None and np.ndim(m.psf) == 2 and m.psf.flags.writeable:
                # the same array, with other values: nearly or quite another PSF
                p = st["psf"]
                q = np.roll(p, 1, axis=0) if p.shape[0] > 1 else p[:, ::-1]
                m.psf[...] = (1 - op["tiny"]) * p + op["tiny"] * q
                # copies may or may not share the array: what they report is what counts
                for other in objs:
                    p = other["m"].psf
                    other["st"]["psf"] = None if p is None else np.array(p)
                ob["since"].append("psf filled")
            else:
                m.psf = v
                st["psf"] = None if v is None else v.copy()
                ob["since"].append("psf")
        elif kind == "pa":
            v = op["pa"] if op["step"] is None else st["pa"] + op["step"]
            m.psf_pa = v
            st["pa"] = v
            ob["since"].append("pa")
        elif kind == "pof":
            f = st["oversample"]
            f = f[3] if isinstance(f, list) else (f or 1)
            if st["psf"] is not None and f % (op["pof"] or 1) == 0:
                try:
                    m.psf_oversample = op["pof"]
                    st["pof"] = op["pof"]
                    ob["since"].append("pof")
                except (ValueError, TypeError):
                    pass
        elif kind == "cache":
            if op["v"] == "clear":
                if hasattr(m, "clear_cached_grid"):
                    m.clear_cached_grid()
            else:
                m.cache_grid = op["v"]
            ob["since"].append("cache%s" % op["v"])
        elif kind == "copy":
            how = op["how"]
            if how == "pickle" and st["spec"]["kind"] in ("nuker", "core", "custom"):
                how = "deepcopy"
            if how == "copy":
                c = m.copy()
            elif how == "deepcopy":
                c = copy.deepcopy(m)
            elif how == "pickle":
                c = pickle.loads(pickle.dumps(m))
            else:
                from .. import env

                c = env.pf.PSFConvolvedModel2D(m.model, psf=m.psf, oversample=m.oversample, psf_oversample=m.psf_oversample if m.psf is not None else None)
                if st["pa"]:
                    c.psf_pa = st["pa"]
            n = {"m": c, "st": dict(mk.copy_state(st), pof=st["pof"] if how != "wrap" or st["psf"] is not None else None), "last": ob["last"], "since": [how]}
            if len(objs) < 5:
                objs.append(n)
            else:
                objs[1 + k % 4] = n
            ctx.probe("copies")
        elif kind == "scribble":
            # the caller does what it likes with arrays it owns
            if op["w"] == "image" and handed:
                im, ref, d = handed.pop()
                if getattr(im, "flags", None) is not None and im.flags.writeable:
                    im *= -3.0
                ob["since"].append("scribble-image")
            elif op["w"] == "coords" and coords:
                for a in coords[-1]:
                    a += 5
                ob["since"].append("scribble-coords")
            elif op["w"] == "snapshot":
                s = m.model
                for name in s.param_names[:3]:
                    setattr(s, name, 7.5)
                ob["since"].append("scribble-snapshot")
        elif kind == "fit":
            from .. import env

            r = dict(op["r"], size=[9, 9])
            x, y = mk.coords(dict(r, via="call", origin=[0, 0], dtype="i8"))
            img = np.asarray(mk.reference(st, {"via": "call", "size": [9, 9], "origin": [0, 0], "dtype": "f8"})[0])
            if np.isfinite(img).all():
                try:
                    env.pf.fit_model(img, m, maxiter=3)
                except Exception as e:
                    ctx.log(tag, "fit raised", type(e).__name__)
                ob["since"].append("fit")
        recheck(tag)
