"""C13: a failed isophote fit is contained."""
import math
import warnings

import numpy as np

from .. import env
from .. import imgkit as ik
from ..faults import Faulter, count_points
from ..sched import Scheduler

ID = "C13"
JUDGE = True
RUNS = {"quick": 1300, "thorough": 50000}
LISTS = ["ops", "ops.*.threads"]
RULE = ("random histories of amplitude measurements on small images in every accepted container, good and hopeless geometries; "
        "errors of twenty types (with and without arguments, with texts of their own) raised at the n-th call of eleven photutils isophote stages (construction, sampling, harmonics, "
        "gradients, fitting, isophote attributes), interrupts and exits raised at the same stages and at numbered points of "
        "petrofit's code, failing measurements between good ones and in concurrent threads; the oracle is the photutils fit "
        "itself in an untouched process.  distinct_nontrivial counts distinct (stage, call number, error type, history) states")
MEASURE = "distinct (stage, call number, error type, container, previous fate)"
REAL = "petrofit.segmentation.get_amplitude_at_r, photutils.isophote"
STUBS = "the failing call of a photutils stage; interrupt injector; thread scheduler"
ASSUMPTIONS = ["warning filters show warnings (a user who turns warnings into errors gets errors)"]


class Odd(Exception):
    pass


class Styled(Exception):
    """Its text is not among its arguments."""

    def __init__(self, text=""):
        self.text = text
        super().__init__()

    def __str__(self):
        return "styled: " + self.text


class Numbered(OSError):
    def __new__(cls, text=""):
        return OSError(5, text)


class Deep(Exception):
    def __init__(self, text=""):
        super().__init__({"why": text}, None)


ERRORS = {"ValueError": ValueError, "IndexError": IndexError, "ZeroDivisionError": ZeroDivisionError, "Odd": Odd, "MemoryError": MemoryError,
          "RuntimeError": RuntimeError, "OSError": OSError, "StopIteration": StopIteration, "LinAlgError": np.linalg.LinAlgError,
          "AttributeError": AttributeError, "FloatingPointError": FloatingPointError, "AssertionError": AssertionError, "TypeError": TypeError,
          "Warning": UserWarning, "KeyError": KeyError, "Styled": Styled, "Numbered": Numbered, "Deep": Deep,
          "OverflowError": OverflowError, "RecursionError": RecursionError}
STOPS = {"KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit}


def stages():
    import photutils.isophote as iso
    import photutils.isophote.fitter as fitter
    import photutils.isophote.isophote as isoph
    import photutils.isophote.sample as sample

    out = {
        "geometry": (iso.EllipseGeometry, "__init__"), "ellipse": (iso.Ellipse, "__init__"), "fit": (iso.Ellipse, "fit_isophote"),
        "sample": (sample.EllipseSample, "__init__"), "extract": (sample.EllipseSample, "extract"), "update": (sample.EllipseSample, "update"),
        "fitter": (fitter.EllipseFitter, "fit"), "isophote": (isoph.Isophote, "__init__"), "coords": (iso.EllipseGeometry, "to_polar"),
        "find_center": (iso.EllipseGeometry, "find_center"), "intens": (isoph.Isophote, "intens"),
    }
    return {k: v for k, v in out.items() if hasattr(v[0], v[1]) or k == "intens"}


def gen_m(rng):
    good = rng.random() < 0.7
    return {"img": rng.randrange(4), "r": rng.choice([3, 4.5, 6.0, 8]) if good else rng.choice([0, 0.3, 40, -3, 20]),
            "ellip": rng.choice([0.1, 0.3, 0.2]) if good else rng.choice([0.0, 0.95, 1.0, -0.2]),
            "theta": rng.choice([0.3, 1.2, 2.0]), "dx": rng.choice([0, 0, 0.3]) if good else rng.choice([0, 40, -40, 9]),
            "np": rng.random() < 0.2}


def gen_hit(rng):
    return {"stage": rng.choice(sorted(["geometry", "ellipse", "fit", "sample", "extract", "update", "fitter", "isophote", "coords", "find_center", "intens"])),
            "nth": rng.choice([0, 0, 0, 1, 2, 7]), "err": rng.choice(sorted(ERRORS) + sorted(STOPS) * 2), "text": rng.choice(["t", "t", "t", "none", "empty", "braces", "uni", "lines", "long"])}


def generate(rng, tier, idx):
    images = []
    for _ in range(rng.choice([1, 2])):
        s = dict(ik.gen_single(rng, sizes=(24,)), nan=rng.choice([0, 0, 0, 5]))
        s["shape"] = [24, 24]
        s["as"] = rng.choice(["f8", "f8", "f4", "ro", "ccd", "cutout", "fortran", "masked", "i4", "big-endian"])
        if rng.random() < 0.1:
            s["blank"] = rng.choice(["nan", "zero"])
        elif rng.random() < 0.12:
            s["spike"] = [rng.choice(["inf", "-inf", "both", "huge", "nan"]), rng.randrange(1 << 30), rng.choice([1, 3, 20])]
        images.append(s)
    known = [gen_m(rng) for _ in range(2)]

    def meas():
        """A measurement, sometimes (almost) one made before on this or another image."""
        u = rng.random()
        if u < 0.6:
            return gen_m(rng)
        m = dict(rng.choice(known), img=rng.randrange(4))
        k = rng.choice(["r", "ellip" if 0 < m["ellip"] < 0.5 else "r", "theta", "dx"])   # (some others keep photutils busy for ever)
        return m if u < 0.8 else dict(m, **{k: m[k] + rng.choice([0.4, 0.05, 1e-3, -1e-5])})

    if rng.random() < 0.3:   # the same pixels in another order
        images[0]["twist"] = "quant"
        images.insert(1, dict(images[0], twist=rng.choice(["mirror", "turn", "swap"])))
    ops = []
    for _ in range(rng.choice([2, 3, 5])):
        u = rng.random()
        if u < 0.3:
            ops.append({"op": "measure", "m": meas()})
        elif u < 0.75:
            ops.append({"op": "hit", "m": meas(), "hit": gen_hit(rng)})
        elif u < 0.88:
            ops.append({"op": "point", "m": meas(), "kind": rng.choice(["interrupt", "error", "memory", "value", "os"]), "frac": round(rng.random(), 4)})
        else:
            ops.append({"op": "threads", "threads": [meas() for _ in range(rng.choice([2, 3]))], "seed": rng.randrange(1 << 40), "p": rng.choice([0.1, 0.4])})
    ops.append({"op": "measure", "m": meas()})
    return {"images": images, "ops": ops}


def image(s):
    im = ik.single(s)
    if s.get("blank") == "nan":
        im[:] = np.nan
    elif s.get("blank") == "zero":
        im[:] = 0
    return ik.wrap(im, s["as"])


def _args(m, im):
    f = np.float64 if m["np"] else (lambda v: v)
    return f(m["r"]), im, f(12 + m["dx"]), f(12), f(m["ellip"]), f(m["theta"])


def direct(s, m):
    """Judge: what the isophote fit itself gives."""
    from photutils.isophote import Ellipse, EllipseGeometry

    warnings.simplefilter("ignore")
    im = image(s)
    im = im.data if s["as"] in ("ccd", "cutout") else im
    r, im, x, y, e, t = _args(m, im)
    try:
        v = Ellipse(im, geometry=EllipseGeometry(x, y, 1.0, e, t)).fit_isophote(float(r)).intens
        return ("ok", float(v))
    except Exception as ex:
        return ("raised", type(ex).__name__, str(ex))


class Hit:
    """Makes the n-th call of one photutils stage raise, at class level."""

    def __init__(self, hit, token):
        self.cls, self.name = stages()[hit["stage"]]
        self.nth = hit["nth"]
        self.n = 0
        self.fired = False
        text = {"t": token, "empty": "", "none": None, "lines": token + "\nsecond line", "braces": token + " {} %s {0}", "uni": token + " \u2603 Nan photometric_value",
                "long": token + " of many words" * 40 + " end"}[hit["text"]]
        e = {**ERRORS, **STOPS}[hit["err"]]
        self.exc = (lambda: e()) if text is None else (lambda: e(text))
        self.text = str(self.exc())

    def trip(self):
        i = self.n
        self.n += 1
        if i == self.nth and not self.fired:
            self.fired = True
            raise self.exc()

    def __enter__(self):
        hit = self
        self.had = self.name in vars(self.cls)
        self.old = vars(self.cls).get(self.name)
        if self.name == "intens":
            def get(iso):
                hit.trip()
                return iso.__dict__["intens"]

            def put(iso, v):
                iso.__dict__["intens"] = v

            setattr(self.cls, self.name, property(get, put))
        else:
            real = getattr(self.cls, self.name)

            def call(*a, **k):
                hit.trip()
                return real(*a, **k)

            setattr(self.cls, self.name, call)
        return self

    def __exit__(self, *a):
        if self.had:
            setattr(self.cls, self.name, self.old)
        else:
            delattr(self.cls, self.name)


def measured(m, im):
    """('ok', value, warning texts) or ('raised', exception)."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            v = env.pf.segmentation.get_amplitude_at_r(*_args(m, im))
        except BaseException as e:
            return ("raised", e, [str(x.message) for x in w])
    return ("ok", v, [str(x.message) for x in w])


def execute(plan, ctx):
    if not plan["images"]:
        return
    ims = [image(s) for s in plan["images"]]
    prev = "start"

    def want(m):
        return ctx.pristine("direct", plan["images"][m["img"] % len(ims)], m)

    def close(a, b):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b))

    def is_nan(v):
        try:
            return math.isnan(float(v))
        except (TypeError, ValueError):
            return False

    def judge(m, got, where, x):
        """A measurement without injected failure."""
        if got[0] == "raised":
            ctx.violate("raised", "%s: %s(%s) instead of %s (%s)" % (where, type(got[1]).__name__, got[1], x[:2], m))
        texts = got[2]
        if x[0] == "ok":
            if not close(float(got[1]), x[1]):
                ctx.violate("wrong-amplitude", "%s: amplitude %r, the fit gives %r (%s)" % (where, got[1], x[1], m))
            bad = [t for t in texts if "could not be computed" in t and "Exception" in t]
            if bad and x[1] == x[1]:
                ctx.violate("false-warning", "%s: warns %r about a successful fit" % (where, bad))
        else:
            ctx.probe("natural " + x[1])
            if not is_nan(got[1]):
                ctx.violate("not-nan", "%s: amplitude %r although the fit fails with %s" % (where, got[1], x[1:]))
            n = sum(x[2] in t for t in texts)
            if (n != 1 and x[2]) or not texts:
                ctx.violate("warnings", "%s: %d warnings carry the error's text %r: %s" % (where, n, x[2], texts))

    for k, op in enumerate(plan["ops"]):
        kind = op["op"]
        where = "op %d %s after %s" % (k, kind, prev)
        if kind == "threads":
            ms = op["threads"]
            if not ms:
                continue
            sch = Scheduler(plan.get("policy%d" % k) or {"mode": "rand", "seed": op["seed"], "p": op["p"]}, extra=_extra())

            def body(m):
                return lambda: env.pf.segmentation.get_amplitude_at_r(*_args(m, ims[m["img"] % len(ims)]))

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res = sch.run([body(m) for m in ms])
            ctx.explicit["policy%d" % k] = {"mode": "explicit", "switches": sch.switches}
            ctx.fault("thread switch", len(sch.switches))
            if sch.switches:
                ctx.sig("threads", sch.sig.hexdigest())
                ctx.count("nontrivial")
            for m, (ok, val) in zip(ms, res):
                x = want(m)
                ctx.log(where, ok, val)
                if not ok:
                    ctx.violate("raised", "%s: thread got %s(%s) instead of %s" % (where, type(val).__name__, val, x[:2]))
                if not close(float(val), x[1] if x[0] == "ok" else math.nan):
                    ctx.violate("wrong-amplitude", "%s: thread got %r, the fit gives %s" % (where, val, x))
            prev = "threads"
            continue
        m = op["m"]
        im = ims[m["img"] % len(ims)]
        how = plan["images"][m["img"] % len(ims)]["as"]
        if kind == "measure":
            got = measured(m, im)
            ctx.log(where, got)
            judge(m, got, where, want(m))
            ctx.sig("measure", how, prev)
            prev = "measure"
            ctx.count("measurements")
        elif kind == "hit":
            token = "pfsim-%d-%d" % (plan["idx"], k)
            with Hit(op["hit"], token) as h:
                got = measured(m, im)
            h_name = "%s#%d %s" % (op["hit"]["stage"], op["hit"]["nth"], op["hit"]["err"])
            ctx.log(where, h_name, h.fired, got)
            if not h.fired:
                judge(m, got, where, want(m))
                prev = "measure"
                continue
            ctx.fault(op["hit"]["err"])
            ctx.probe("stage " + op["hit"]["stage"])
            ctx.count("nontrivial")
            ctx.sig(op["hit"]["stage"], op["hit"]["nth"], op["hit"]["err"], how, prev)
            prev = "failure in " + op["hit"]["stage"]
            if op["hit"]["err"] in STOPS:
                if got[0] != "raised" or type(got[1]) is not STOPS[op["hit"]["err"]]:
                    ctx.violate("interrupt-swallowed", "%s: %s: got %s" % (where, h_name, got[:2]))
                continue
            if got[0] == "raised":
                # photutils may translate the error, but nothing may escape
                ctx.violate("raised", "%s: %s: raised %s(%s)" % (where, h_name, type(got[1]).__name__, got[1]))
            if not is_nan(got[1]):
                x = want(m)
                if _absorbed(plan["images"][m["img"] % len(ims)], m, op["hit"], token, ctx):
                    ctx.probe("absorbed by photutils")
                    continue
                ctx.violate("not-nan", "%s: %s: amplitude %r (%s)" % (where, h_name, got[1], x))
            if op["hit"]["text"] not in ("empty", "none"):
                n = sum(token in t for t in got[2])
                if n != 1 or not any(h.text in t for t in got[2]):
                    if n == 0 and _absorbed(plan["images"][m["img"] % len(ims)], m, op["hit"], token, ctx):
                        ctx.probe("absorbed by photutils")
                        continue
                    ctx.violate("warnings", "%s: %s: %d warnings carry the error's text: %s" % (where, h_name, n, got[2]))
            elif not any(h.text in t for t in got[2]):
                ctx.violate("warnings", "%s: %s: no warning with the error's text %r: %s" % (where, h_name, h.text, got[2]))
        else:
            run = lambda: env.pf.segmentation.get_amplitude_at_r(*_args(m, im))
            n = count_points(op["kind"], run)
            f = Faulter(op["kind"], at=min(int(op["frac"] * n), max(n - 1, 0)))
            how2, val = f.run(run)
            ctx.log(where, f.fired, how2)
            if f.fired:
                ctx.fault(op["kind"] + " at a point")
                ctx.count("nontrivial")
                ctx.sig("point", op["kind"], f.fired.split(":")[1], how, prev)
                prev = "fault"
                if op["kind"] == "interrupt" and how2 == "ok":
                    ctx.violate("interrupt-swallowed", "%s: interrupt at %s was swallowed" % (where, f.fired))


def absorbed(s, m, hit, token):
    """Judge: does photutils itself survive this failure?"""
    from photutils.isophote import Ellipse, EllipseGeometry

    warnings.simplefilter("ignore")
    im = image(s)
    im = im.data if s["as"] in ("ccd", "cutout") else im
    r, im, x, y, e, t = _args(m, im)
    with Hit(hit, token) as h:
        try:
            Ellipse(im, geometry=EllipseGeometry(x, y, 1.0, e, t)).fit_isophote(float(r)).intens
            return True
        except Exception as ex:
            return type(ex) is not type(h.exc()) or str(ex) != h.text


def _absorbed(s, m, hit, token, ctx):
    return ctx.pristine("absorbed", s, m, hit, token)


def _extra():
    import photutils.isophote.ellipse as e
    import photutils.isophote.sample as s

    return (e.__file__, s.__file__)
