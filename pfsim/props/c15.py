"""C15: plotting only observes."""
import json

import numpy as np

from .. import callkit as ck
from .. import env
from .. import fitkit as fk
from .. import gridkit as gk
from .. import imgkit as ik
from .. import modelkit as mk
from .. import objkit as ok
from .. import profkit as pk
from ..digest import snap
from ..faults import Faulter, Injected, count_points

ID = "C15"
JUDGE = True
RUNS = {"quick": 1200, "thorough": 40000}
RULE = ("every drawing call (profiles, curves of growth, apertures, segmentation maps, targets, fits, correction grids) and every "
        "measuring call with a plot option, on random objects with random earlier reads, with the drawing failing at the n-th "
        "call of 24 matplotlib operations, interrupted or out of memory at numbered points, or succeeding; values read "
        "afterwards are compared with those of an untouched process that never plotted.  distinct_nontrivial counts distinct "
        "(call, drawing operation and number that failed, error, fate) states")
MEASURE = "distinct (drawing call, failing operation, occurrence, error type, fate)"
REAL = "all of petrofit; matplotlib with the Agg backend"
STUBS = "the failing matplotlib call; interrupt/allocation failure injector"
ASSUMPTIONS = ["values agree bit for bit"]

DRAW = ("profile", "profile", "profile", "correction", "fit", "apertures", "segments", "residual", "target")
MEAS = ("radial_photometry", "radial_photometry", "source_photometry", "source_photometry", "make_catalog", "measure_fwhm", "generate_correction")
OPS = ("Axes.plot", "Axes.imshow", "Axes.scatter", "Axes.errorbar", "Axes.fill_between", "Axes.axvline", "Axes.axhline", "Axes.legend", "Axes.set_title",
       "Axes.set_xlabel", "Axes.set_ylabel", "Axes.set_xlim", "Axes.set_ylim", "Axes.tick_params", "Axes.minorticks_on", "Axes.add_patch", "Axes.add_artist",
       "Figure.add_subplot", "Figure.add_axes", "Figure.colorbar", "Figure.suptitle", "Figure.subplots", "pyplot.figure", "pyplot.show", "pyplot.gca", "pyplot.sca")


def gen_hit(rng):
    u = rng.random()
    if u < 0.4:
        return None
    if u < 0.8:
        return {"how": "op", "op": rng.choice(OPS), "nth": rng.choice([0, 0, 0, 1, 2, 5]), "err": rng.choice(["error", "value", "memory", "interrupt", "os"])}
    return {"how": "point", "kind": rng.choice(["interrupt", "interrupt", "memory", "error", "value"]), "frac": round(rng.random(), 4)}


def generate(rng, tier, idx):
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.6:
            o = {"op": "draw", "what": rng.choice(DRAW)}
            w = o["what"]
            if w == "profile":
                o.update(p=pk.gen_profile(rng, good=rng.random() < 0.8), set=pk.gen_settings(rng), pre=[pk.gen_read(rng) for _ in range(rng.randrange(3))],
                         draws=[[rng.choice(["plot", "plot", "plot_cog", "plot_cog", "imshow"]), rng.random() < 0.6, rng.random() < 0.3, ck._opts(rng, **ck.AX_OPTS), ck._opts(rng, **ck.IM_OPTS)] for _ in range(rng.choice([1, 2]))])
            elif w == "correction":
                o.update(ck.CALLS["plot_correction"].gen(rng), grid=rng.random() < 0.3)
                o["p"].update(n=rng.choice([1.0, 2.0, 4.0]), r_eff=round(rng.uniform(6, 30), 2))
            elif w == "fit":
                o.update(model=mk.gen_model(rng, 14), img=dict(ik.gen_single(rng), nan=0), cbar=rng.random() < 0.5, v=rng.choice([None, 3.0]), k=ck.plot_fit_opts(rng))
            elif w == "apertures":
                o.update(ck.CALLS["plot_apertures"].gen(rng))
            elif w in ("segments", "residual"):
                o.update(ck.CALLS["plot_segments"].gen(rng), image=rng.random() < 0.6)
                o["as"] = rng.choice(["f8", "ro", "fortran"])
            else:
                o.update(ck.CALLS["plot_target"].gen(rng))
        else:
            w = rng.choice(MEAS if rng.random() < 0.2 else MEAS[:-1])
            o = {"op": "measure", "what": w, "spec": dict(ck.CALLS[w].gen(rng), plot=True)}
            if w == "measure_fwhm":
                o["spec"]["print"] = False
            if w == "generate_correction":
                o["spec"].update(cpu=rng.choice([None, 1]), sim=None)  # plotting is refused for a pool
        o["hit"] = gen_hit(rng)
        o["ax"] = rng.random() < 0.3
        ops.append(o)
    return {"ops": ops}


# -- objects and their measured values ---------------------------------------------------
def build(o):
    w = o["what"]
    if w == "profile":
        return {"p": pk.build(o["p"], o["set"])}
    if w == "correction":
        return {"c": env.pf.PetrosianCorrection(gk.table(o["rows"]), enforce_range=False), "p": pk.build(o["p"], o["set"])}
    if w == "fit":
        m = env.pf.PSFConvolvedModel2D(mk.build_sub(o["img"]["sub"]), psf=mk.build_psf(o["model"]["psf"]), oversample=o["model"]["pof"] and 2 * o["model"]["pof"],
                                       psf_oversample=o["model"]["pof"])
        return {"model": m, "image": ik.single(o["img"])}
    if w == "apertures":
        return ck.CALLS["plot_apertures"].build(o)
    if w in ("segments", "residual"):
        return ck.CALLS["plot_segments"].build(o)
    return ck.CALLS["plot_target"].build(o)


def values(o, obj):
    """Everything measurable about the object, as plain data."""
    w = o["what"]
    if w == "profile":
        return [pk.read_snap(obj["p"], [q]) for q in pk.SCALARS] + [pk.read_snap(obj["p"], ["fraction_flux_to_r", 0.3]), snap(obj["p"].petrosian_list),
                                                                    [repr(getattr(obj["p"], k)) for k in pk.SETTINGS]]
    if w == "correction":
        out = [snap(obj["c"].grid), snap(obj["c"].unique_grid_values("n"))]
        for f in ("estimate_n", "estimate_epsilon"):
            try:
                out.append(pk.norm(getattr(obj["c"], f)(obj["p"])))
            except Exception as e:
                out.append(type(e).__name__)
        return out + [pk.read_snap(obj["p"], [q]) for q in ("r_petrosian", "r_half_light", "c2080")]
    if w == "fit":
        h, wd = obj["image"].shape
        return [fk.model_snap(obj["model"]), snap(obj["image"]), snap(np.array(env.pf.model_to_image(obj["model"], (wd, h))))]
    return ok.deep_snap({k: v for k, v in obj.items() if k != "cat"})


def draw(o, obj):
    from matplotlib import pyplot as plt

    w = o["what"]
    if w == "profile":
        for name, plot_r, own, opts, im_opts in o["draws"]:
            k = dict(opts)
            if name != "imshow":
                k["plot_r"] = plot_r
                if own:
                    k["ax"] = plt.figure().add_axes([0.1, 0.1, 0.8, 0.8])
                if name == "plot_cog" and k.get("title") == "t":
                    k["flux_unit"] = "counts"
            else:
                k = dict(im_opts)
            getattr(obj["p"], name)(**k)
    elif w == "correction":
        k = dict(o["k"])
        if o["axs"]:
            k["axs"] = list(plt.figure().subplots(1, 3))
        if o["grid"]:
            obj["c"]._plot_grid(**k)
        else:
            obj["c"].plot_correction(obj["p"], **k)
    elif w == "fit":
        env.pf.plot_fit(obj["model"], obj["image"], cbar=o["cbar"], vmax=o["v"], **o["k"])
    elif w == "apertures":
        ck.CALLS["plot_apertures"].run(obj, o)
    elif w == "segments":
        env.pf.plot_segments(obj["segm"], image=obj["image"] if o["image"] else None, title=o["title"], alpha=o["alpha"], **o["v"])
    elif w == "residual":
        env.pf.segmentation.plot_segment_residual(obj["segm"], obj["image"], **o["v"])
    else:
        ck.CALLS["plot_target"].run(obj, o)


def fresh(o):
    """Judge: the values when nothing was ever drawn."""
    import warnings

    warnings.simplefilter("ignore")
    try:
        obj = build(o)
    except Exception as e:
        return ("raised", type(e).__name__)
    return ("ok", values(o, obj))


def measure(o, inputs, plot):
    try:
        r = ck.CALLS[o["what"]].run(inputs, dict(o["spec"], plot=plot))
        return ("ok", plain(o["what"], r))
    except Exception as e:
        return ("raised", type(e).__name__)


def plain(what, r):
    if what == "make_catalog":
        cat, segm, deb = r
        t = cat.to_table()
        return repr([snap(np.asarray(segm.data)), None if deb is None else snap(np.asarray(deb.data)), [int(v) for v in cat.labels], snap(np.asarray(t["segment_flux"]))])
    return repr(snap(r))


def fresh_measure(o):
    import warnings

    warnings.simplefilter("ignore")
    return measure(o, ck.CALLS[o["what"]].build(o["spec"]), False)


class HitOp:
    """Makes the n-th call of one matplotlib operation raise, at class or module level."""

    def __init__(self, hit):
        from matplotlib import axes, figure, pyplot

        owner, self.name = hit["op"].split(".")
        self.owner = {"Axes": axes.Axes, "Figure": figure.Figure, "pyplot": pyplot}[owner]
        self.nth = hit["nth"]
        self.n = 0
        self.fired = False
        self.exc = {"error": lambda: Injected("injected"), "value": lambda: ValueError("injected"), "memory": lambda: MemoryError(),
                    "interrupt": lambda: KeyboardInterrupt("injected"), "os": lambda: OSError(5, "injected")}[hit["err"]]

    def __enter__(self):
        self.had = self.name in vars(self.owner)
        self.old = vars(self.owner).get(self.name)
        real = getattr(self.owner, self.name)

        def call(*a, **k):
            i = self.n
            self.n += 1
            if i == self.nth and not self.fired:
                self.fired = True
                raise self.exc()
            return real(*a, **k)

        setattr(self.owner, self.name, call)
        return self

    def __exit__(self, *a):
        if self.had:
            setattr(self.owner, self.name, self.old)
        else:
            delattr(self.owner, self.name)


def run_hit(hit, func, ctx):
    """(outcome, what fired) of func under the planned failure."""
    if hit is None:
        try:
            return ("ok", func()), None
        except Exception as e:
            return ("exc", e), None
    if hit["how"] == "op":
        with HitOp(hit) as h:
            try:
                out = ("ok", func())
            except BaseException as e:
                out = ("exc", e)
        if h.fired:
            ctx.fault("%s in drawing" % hit["err"])
            ctx.probe("failing " + hit["op"])
        return out, "%s#%d %s" % (hit["op"], hit["nth"], hit["err"]) if h.fired else None
    n = count_points(hit["kind"], func)
    f = Faulter(hit["kind"], at=min(int(hit["frac"] * n), max(n - 1, 0)))
    out = f.run(func)
    if f.fired:
        ctx.fault(hit["kind"] + " at a point")
        ctx.probe("fault in " + f.fired.split(":")[1])
    return out, f.fired and hit["kind"] + " " + f.fired.split(":")[1]


def drawable(o):
    w = o["what"]
    if w == "profile":
        return o["p"]["kind"] == "sersic" and o["p"]["num"] >= 8 and o["set"]["interp_kind"] in (None, "cubic", "linear", "quadratic", "nearest", 2)
    return w != "residual"


def execute(plan, ctx):
    from matplotlib import pyplot as plt

    for k, o in enumerate(plan["ops"]):
        plt.close("all")
        if o["ax"]:
            plt.figure().add_subplot(1, 2, 1)
        where = "op %d %s %s" % (k, o["op"], o["what"])
        hit = o["hit"]
        if o["op"] == "draw":
            want = ctx.pristine("fresh", o)
            if want[0] == "raised":
                ctx.probe("cannot build " + want[1])
                continue
            obj = build(o)
            if obj.get("cat", 0) is None or (obj.get("segm", 0) is None):
                ctx.count("no sources")
                continue
            for q in o.get("pre", []):
                pk.read_snap(obj["p"], q)
            (how, val), fired = run_hit(hit, lambda: draw(o, obj), ctx)
            ctx.log(where, fired, how, type(val).__name__ if how == "exc" else "")
            if how == "exc" and fired is None and drawable(o):
                ctx.violate("cannot-draw", "%s: raised %s(%s)" % (where, type(val).__name__, val))
            val = None
            got = values(o, obj)
            if got != want[1]:
                bad = [i for i, (a, b) in enumerate(zip(got, want[1])) if a != b] if isinstance(got, list) else ok.changed(want[1], got)
                ctx.violate("values-changed", "%s (%s): values %s differ from those never drawn: %s instead of %s" % (
                    where, fired or how, bad, str([got[i] for i in bad])[:300], str([want[1][i] for i in bad])[:300]))
        else:
            want = ctx.pristine("fresh_measure", o)
            inputs = ck.CALLS[o["what"]].build(o["spec"])
            if inputs.get("cat", 0) is None:
                ctx.count("no sources")
                continue

            def call():
                return plain(o["what"], ck.CALLS[o["what"]].run(inputs, o["spec"]))

            (how, val), fired = run_hit(hit, call, ctx)
            ctx.log(where, fired, how, type(val).__name__ if how == "exc" else val)
            if how == "ok":
                if want != ("ok", val):
                    ctx.violate("plot-changes-result", "%s (%s): %s with plotting, %s without (%s)" % (where, fired, val[:300], str(want)[:300], str(o["spec"])[:300]))
            elif fired is None and want[0] == "ok":
                ctx.violate("cannot-draw", "%s: raised %s(%s) with plotting, works without (%s)" % (where, type(val).__name__, val, str(o["spec"])[:300]))
            val = None
            again = measure(o, inputs, False)
            if again != want:
                ctx.violate("values-changed", "%s (%s): measured again without plotting: %s, never plotted: %s" % (where, fired or how, str(again)[:300], str(want)[:300]))
        if fired:
            ctx.count("nontrivial")
        ctx.sig(o["op"], o["what"], fired, how, o["ax"], json.dumps(o.get("draws")))
        ctx.count("drawings")
