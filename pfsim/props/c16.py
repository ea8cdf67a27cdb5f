"""C16: results are reproducible."""
import json

import numpy as np

from .. import ambient as am
from .. import callkit as ck
from .. import env
from .. import gridkit as gk
from .. import hashserver
from .. import imgkit as ik
from .. import modelkit as mk
from .. import profkit as pk
from ..rng import stream
from ..digest import short, snap

ID = "C16"
JUDGE = True
RUNS = {"quick": 700, "thorough": 40000}
LISTS = ["analyses", "reps", "reps.*.amb.kinds", "reps.*.prior"]
RULE = ("random analyses (single public calls of about 35 kinds, and whole pipelines: segmentation, catalogue, photometry, profile, "
        "correction, rendering, fit, correction grid) repeated in changed surroundings: reseeded generators, a simulated clock "
        "that stalls and jumps, processor counts, collector off / eager / forced at numbered points, other directory, locale, "
        "environment, dirtied memory, other analyses first, the same call on other data first (whose arrays are freed, or refilled in place), and in processes with another hash seed and memory fill; compared "
        "bit for bit with the same analysis in an untouched process.  distinct_nontrivial counts distinct (analysis, "
        "surroundings, place) states")
MEASURE = "distinct (analysis kind, set of changed surroundings, same process or other hash seed, what ran before)"
REAL = "all of petrofit and its dependencies"
STUBS = "clock, processor count; collector timing forced"
ASSUMPTIONS = ["same interpreter, libraries, machine and BLAS thread count"]

NAMES = [n for n, c in ck.CALLS.items() if not c.plots]
PLOTS = [n for n, c in ck.CALLS.items() if c.plots]
SERVERS = []


def prepare():
    am.make_locales()
    for seed, fill in ((1, "165"), (4242, "90")):
        SERVERS.append(hashserver.Client(ID, seed, {"MALLOC_PERTURB_": fill}))
    for s in SERVERS:
        s.wait()


def prepare_server():
    am.make_locales()


def gen_analysis(rng):
    u = rng.random()
    if u < 0.3:
        s = ik.gen_field(rng)
        return {"call": "pipeline", "spec": dict(s, k=rng.randrange(6), bg_sub=rng.random() < 0.7, sigma=rng.choice([2.0, 3.0]), err=rng.random() < 0.4, cut=rng.choice([30, 30, 24, 50, 66]), method=rng.choice(["exact", "exact", "center", "subpixel"]),
                                                 sigma_type=rng.choice(["clip", "clip", "bound"]),
                                                 plot=rng.random() < 0.1, fit=rng.random() < 0.5, set=pk.gen_settings(rng), psf={"seed": rng.randrange(1 << 20), "n": 3, "m": 0},
                                                 over=rng.choice([1, 2, ["x_0", "y_0", 4, 3]]))}
    if u < 0.33:
        return {"call": "grid", "spec": {"n": [1.0], "r": [rng.choice([2, 3, 4]), 3], "over": 2}}
    c = ck.gen(rng, NAMES)
    return ck.spiked(c, rng) if rng.random() < 0.08 else c


def generate(rng, tier, idx):
    reps = []
    n = rng.choice([1, 1, 2, 3])
    for _ in range(rng.choice([2, 3, 4])):
        reps.append({"a": rng.randrange(n), "amb": am.gen(rng), "where": rng.choice(["here", "here", "here", "here", "server0", "server1"]),
                     "twin": rng.choice([None, None, "before", "before", "mirror", "turn", "swap", "arrays", "variant", "variant", "variant"]), "var": rng.randrange(1 << 30),
                     "prior": [ck.gen(rng) for _ in range(rng.choice([0, 0, 1, 2]))]})
    analyses = [gen_analysis(rng) for _ in range(n)]
    return {"analyses": [ck.twisted(a, "quant") if rng.random() < 0.4 else a for a in analyses], "reps": reps}


def pipeline(s):
    pf = env.pf
    im = ik.wrap(ik.field(s), s["as"])
    out = []
    cat, segm, deb = pf.make_catalog(im, s["threshold"] + s["bg"], npixels=s["npixels"], nlevels=8, contrast=0.01, plot=s["plot"])
    order = pf.order_cat(cat, key="area")
    out += [snap(np.asarray(segm.data)), snap(np.asarray(deb.data)), [int(v) for v in order], [int(v) for v in cat.labels], snap(np.asarray(cat.to_table()["segment_flux"]))]
    src = cat[order[s["k"] % len(order)]]
    r = pf.make_radius_list(12, 10)
    flux, area, err = pf.source_photometry(src, im, deb, r, error=ik.error_map(s) if s["err"] else None, cutout_size=s["cut"], bg_sub=s["bg_sub"], sigma=s["sigma"], sigma_type=s["sigma_type"], method=s["method"], plot=s["plot"])
    out += [snap(flux), snap(area), snap(err)]
    p = pf.Petrosian(r, area, flux, flux_err=err if s["err"] else None, **s["set"])
    out += [pk.read_snap(p, [q]) for q in pk.SCALARS]
    c = pf.PetrosianCorrection(gk.table())
    for f in ("estimate_n", "estimate_epsilon"):
        try:
            out.append(snap(getattr(c, f)(p)))
        except Exception as e:
            out.append(type(e).__name__)
    x, y = pf.get_source_position(src)
    amp = pf.get_amplitude_at_r(4.0, im, x, y, min(pf.get_source_ellip(src), 0.8), pf.get_source_theta(src))
    out.append(snap(amp))
    if s["fit"]:
        from astropy.modeling import models

        x0, y0 = int(x), int(y)
        cut = np.array(im[max(y0 - 7, 0):y0 + 8, max(x0 - 7, 0):x0 + 8], dtype=float)
        g = models.Gaussian2D(amplitude=float(np.nanmax(cut)), x_mean=cut.shape[1] / 2, y_mean=cut.shape[0] / 2, x_stddev=2, y_stddev=2)
        g = models.Sersic2D(amplitude=float(np.nanmax(cut)) / 3 + 1, r_eff=3, n=1, x_0=cut.shape[1] / 2 + 0.1, y_0=cut.shape[0] / 2 + 0.2, ellip=0.2, theta=0.3,
                            bounds=pf.modeling.models.get_default_sersic_bounds())
        m = pf.PSFConvolvedModel2D(g, psf=mk.build_psf(s["psf"]), oversample=tuple(s["over"]) if isinstance(s["over"], list) else s["over"])
        fitted, info = pf.fit_model(cut, m, maxiter=4, calc_uncertainties=False)
        out += [snap(np.array(fitted.parameters)), snap(pf.model_to_image(fitted, cut.shape[::-1]))]
    return out


def evaluate(a, amb=None, inputs=None):
    """The analysis as plain data; with amb, in those surroundings."""
    if amb is not None:
        with am.Ambient(amb):
            return evaluate(a)
    import warnings

    warnings.simplefilter("ignore")
    try:
        if a["call"] == "pipeline":
            r = pipeline(a["spec"])
            return ("ok", [json.dumps(r, default=repr)])
        if a["call"] == "grid":
            s = a["spec"]
            t = env.pf.generate_petrosian_sersic_correction(None, r_eff_list=s["r"], n_list=s["n"], oversample=s["over"])
            return ("ok", [repr(snap(t))])
        inputs = inputs or ck.build(a)
        if inputs.get("cat", 0) is None:
            return ("ok", ["no sources"])
        r = ck.run(a, inputs)
        if a["call"] == "make_catalog":
            cat, segm, deb = r
            t = cat.to_table()
            r = [np.asarray(segm.data), None if deb is None else np.asarray(deb.data), [int(v) for v in cat.labels], np.asarray(t["segment_flux"]), np.asarray(t["xcentroid"])]
        elif a["call"] == "measure_fwhm":
            r = [float(v) for v in r[:2]] if isinstance(r, tuple) else r
        return ("ok", [repr(snap(r))])
    except Exception as e:
        return ("raised", [type(e).__name__])


def execute(plan, ctx):
    from matplotlib import pyplot as plt

    want = {}
    before = "nothing"
    for k, rep in enumerate(plan["reps"]):
        if not plan["analyses"]:
            return
        i = rep["a"] % len(plan["analyses"])
        a = plan["analyses"][i]
        if i not in want:
            want[i] = tuple(ctx.pristine("evaluate", a))
        amb = am.Ambient(rep["amb"])
        if rep["where"] == "here":
            for p in rep["prior"]:
                inputs = ck.build(p)
                if inputs.get("cat", 0) is None:
                    continue
                try:
                    ck.run(p, inputs)
                except Exception:
                    pass
                before = p["call"]
                plt.close("all")
                ctx.fault("earlier analysis")
            inputs = None
            if rep["twin"] == "before":
                evaluate(ck.sibling(a))
                ctx.fault("same call on other data before")
                before += " and other data"
            elif rep["twin"] in ("mirror", "turn", "swap"):
                evaluate(ck.twisted(a, rep["twin"]))
                ctx.fault("same call on the same pixels in another order before")
                before += " and other data"
            elif rep["twin"] == "variant":
                r = stream("variant", rep["var"])
                other = ck.CALLS[a["call"]].gen(r) if a["call"] in ck.CALLS else next((o["spec"] for o in (gen_analysis(r) for _ in range(200)) if o["call"] == a["call"]), a["spec"])
                evaluate(ck.variant(a, other, r, r.choice([1, 1, 2])))
                ctx.fault("same call with another setting before")
                before += " and another setting"
            elif rep["twin"] == "arrays" and a["call"] in ck.CALLS:
                inputs = ck.refilled(a)
                if inputs is not None:
                    ctx.fault("arrays refilled in place")
                    before += " and other data in the same arrays"
            with amb:
                got = tuple(evaluate(a, None, inputs))
            for f, n in amb.faults.items():
                ctx.fault(f, n)
            if amb.clock:
                ctx.sim_time += amb.clock.moved
                ctx.count("clock reads", amb.clock.reads)
                ctx.count("clock jumps", amb.clock.jumps)
        else:
            got = tuple(SERVERS[int(rep["where"][-1])].ask("evaluate", a, rep["amb"]))
            ctx.fault("other hash seed and memory fill")
        plt.close("all")
        name = "repetition %d of %s (%s)" % (k, a["call"], rep["where"])
        ctx.log(name, got[0], short(got[1]))
        ctx.sig(a["call"], sorted(rep["amb"]["kinds"]), rep["where"], before if rep["where"] == "here" else "")
        ctx.count("nontrivial")
        ctx.count("analyses repeated")
        if got[0] == "raised":
            ctx.probe("raised " + got[1][0])
        else:
            ctx.probe("result of " + a["call"])
        if got != want[i]:
            ctx.violate("not-reproducible", "%s in surroundings %s after %s: %s %s instead of %s %s (spec %s)" % (
                name, rep["amb"]["kinds"], before, got[0], first_diff(got[1][0], want[i][1][0]), want[i][0], first_diff(want[i][1][0], got[1][0]), str(a["spec"])[:300]))
        before = a["call"]


def first_diff(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return a[max(0, n - 30):n + 60]
