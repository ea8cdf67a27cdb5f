"""C06: rejected sampling settings change nothing; accepted ones can be rendered."""
import copy
import pickle

import numpy as np

from .. import env
from .. import modelkit as mk
from ..digest import snap_model, snap
from ..faults import run_with_fault

ID = "C06"
RUNS = {"quick": 2500, "thorough": 400000}
LISTS = ["ops"]
RULE = ("random sequences of valid and invalid assignments of PSF, oversample, psf_oversample and cache_grid, some interrupted "
        "or out of memory, on copies and originals, against a reference state machine; renders of every accepted state are "
        "compared with an independent renderer.  distinct_nontrivial counts distinct (state class, assignment, outcome) "
        "transitions reached")
MEASURE = "distinct (settings state class, assigned value class, outcome) transitions"
REAL = "all of petrofit.modeling, astropy, scipy, numpy"
STUBS = "none; the interrupt/allocation-failure injector raises at interpreter points"
ASSUMPTIONS = ["renderable means: two-dimensional PSF, window centred on finite numbers or on the model's own parameter names"]

BAD_OVER = [0, -1, -4, 2.0, 1.5, "x", "x_0", [1, 2, 3], [1, 2, 3, 4, 5], [5, 5, 3, 0], [5, 5, 3, -2], [5, 5, 3.0, 2], [5, 5, 3, 2.0],
            [5, 5, "3", 2], {"a": 1}, [], ["x_0", "y_0", 4, 0]]
BAD_PO = [0, -1, -3, 2.0, "2", [2], {"a": 1}, 0.5]
# numbers of other types: either refused or as good as the integer
ODD = [{"i8": 2}, {"i8": 3}, {"i4": 4}, {"u1": 2}, {"i8": 1}, {"f8": 2.0}, {"i8": 0}, {"i8": -2}, True, False, {"f4": 1.5}]
ODD_WIN = [["CX", "CY", 4, {"i8": 2}], ["CX", "CY", {"i8": 4}, 3], [{"f8": 5.5}, {"f4": 4.25}, 4, 2], [{"i8": 5}, {"u1": 3}, 3, 4], ["CX", 5, True, 2], [4, "CY", 3, True],
           ["CX", "CY", {"u1": 3}, {"u1": 4}], [{"i4": -3}, "CY", 5, 2]]


def decode(v):
    """The value a plan names: {"i8": 2} is np.int64(2)."""
    if isinstance(v, dict) and len(v) == 1 and list(v)[0] in ("i8", "i4", "u1", "f8", "f4"):
        (t, x), = v.items()
        return np.dtype(t).type(x)
    if isinstance(v, list):
        return [decode(x) for x in v]
    return v


def plain(v):
    """The same value in Python's own types."""
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, np.generic):
        v = v.item()
    return int(v) if isinstance(v, float) and v == int(v) else v


def odd(v):
    """A value the documentation does not promise to take (nor to refuse)."""
    if isinstance(v, (list, tuple)):
        return len(v) == 4 and (odd(v[2]) or odd(v[3]))
    return isinstance(v, (bool, np.generic))


def generate(rng, tier, idx):
    size = rng.choice([10, 16, 20])
    model = mk.gen_model(rng, size)
    ops = []
    for _ in range(rng.choice([4, 8, 14, 20])):
        u = rng.random()
        fault = rng.choice([None] * 5 + ["interrupt", "memory", "error"])
        o = {"fault": fault, "frac": round(rng.random(), 3)}
        if u < 0.33:
            w = rng.random()
            if w < 0.08:
                v, how = rng.choice(ODD + ODD_WIN), rng.choice(["tuple", "list"])
            elif w < 0.3:
                v, how = rng.choice(BAD_OVER), "any"
            elif w < 0.45:
                v, how = None, "any"
            elif w < 0.7:
                v, how = rng.randrange(1, 9), "any"
            else:
                v = [rng.choice(["CX", "CX", round(rng.uniform(-30, size + 30), 2), 5, -3, size - 1]),
                     rng.choice(["CY", "CY", round(rng.uniform(-30, size + 30), 2), 5, -3, size - 1]),
                     rng.choice([1, 2, 3, 4, 7, 8, 30]), rng.randrange(1, 9)]
                how = rng.choice(["tuple", "tuple", "list"])
            o.update(op="oversample", v=v, how=how)
        elif u < 0.58:
            v = rng.choice(BAD_PO if rng.random() < 0.7 else ODD) if rng.random() < 0.4 else rng.choice([None, 1, 2, 2, 3, 4, 6])
            o.update(op="pof", v=v)
        elif u < 0.72:
            w = rng.random()
            if w < 0.6:
                o.update(op="psf", psf=mk.gen_psf(rng))
            elif w < 0.75:
                o.update(op="psf", psf=None)
            elif w < 0.85:
                o.update(op="psf", psf=dict(mk.gen_psf(rng), scale=3.0))
            else:
                o.update(op="badpsf", v=rng.choice(["x", [1, 2], 5, {"a": 1}]))
        elif u < 0.79:
            o.update(op="cache", v=rng.choice([True, False, True, False, 1, 0, "yes", None]))
        elif u < 0.84:
            o.update(op="copy", how=rng.choice(["copy", "pickle", "deepcopy"]))
        elif u < 0.88:
            o.update(op="ctor", v=rng.choice([None, 1, 2, 3, 4, 6, 0, "CW"]), p=rng.choice([None, 1, 2, 3, 0, "2"]), psf=rng.choice([None, mk.gen_psf(rng)]))
        elif u < 0.91:
            o.update(op="pa", pa=rng.choice([0, 37.5, -90.0]))
        else:
            o.update(op="render", r=mk.gen_render(rng, size))
        ops.append(o)
    return {"model": model, "ops": ops, "size": size, "final": [mk.gen_render(rng, size) for _ in range(2)]}


def factor(o):
    return o[3] if isinstance(o, (tuple, list)) else (1 if o is None else o)


def visible(m):
    """Everything the settings determine."""
    return (snap(m.psf), snap(m.oversample), snap(m.psf_oversample), bool(m.cache_grid), snap(np.array(m.parameters)),
            snap_model(m.model))


def execute(plan, ctx):
    m, st = mk.build_model(plan["model"])
    names = mk.center_names(plan["model"]["sub"])

    def over_value(v, how):
        v = decode(v)
        if isinstance(v, list):
            v = [names[0] if x == "CX" else names[1] if x == "CY" else x for x in v]
            return tuple(v) if how == "tuple" else v
        return v

    def invariant(where):
        f, p = factor(m.oversample), 1 if m.psf_oversample is None else m.psf_oversample
        if not (f >= 1 and p >= 1 and f % p == 0):
            ctx.violate("bad-state", "%s: oversample %r is not a multiple of psf_oversample %r" % (where, m.oversample, m.psf_oversample))

    def same_psf(a, b):
        return (a is None and b is None) or (a is not None and b is not None and np.array_equal(a, b))

    def check_state(where):
        want = mk.to_oversample(st["oversample"])
        if not (m.oversample == want and (isinstance(m.oversample, tuple) == isinstance(want, tuple))):
            ctx.violate("settings", "%s: oversample is %r instead of %r" % (where, m.oversample, want))
        if m.psf_oversample != st["pof"]:
            ctx.violate("settings", "%s: psf_oversample is %r instead of %r" % (where, m.psf_oversample, st["pof"]))
        if not same_psf(m.psf, st["psf"]):
            ctx.violate("settings", "%s: psf is not the one assigned" % where)
        invariant(where)

    def render(where, r):
        try:
            im = mk.do_render(m, r, st=st)
        except Exception as e:
            ctx.violate("render-raised", "%s: %s with oversample=%r psf_oversample=%r raised %r" % (where, r, m.oversample, m.psf_oversample, e))
        e = mk.close(im, mk.reference(st, r))
        ctx.log(where, e or "ok")
        if e:
            ctx.violate("wrong-image", "%s: %s with oversample=%r psf_oversample=%r: image %s" % (where, r, m.oversample, m.psf_oversample, e))
        ctx.count("renders")

    def assign(where, name, value, valid, commit, fault, frac):
        """valid: True must be accepted, False must be refused, None either."""
        before = visible(m)
        if fault:
            (how, exc), fired = run_with_fault(fault, frac, lambda: setattr(m, name, value))
            if fired:
                ctx.fault(fault)
                ctx.probe("fault in assignment")
        else:
            fired = None
            try:
                setattr(m, name, value)
                how = "ok"
            except Exception as e:
                how, exc = "exc", e
        after = visible(m)
        ctx.log(where, name, how, fired or "")
        ctx.sig(name, repr(type(value)), valid, how, bool(fired), factor(st["oversample"]) % 7, st["pof"], isinstance(st["oversample"], list), st["psf"] is None)
        ctx.count("nontrivial")
        if how == "ok":
            if valid is False:
                # a refusal is not required by itself: the state it leads to must be sound
                invariant(where)
            commit()
            check_state(where)
            ctx.probe("accepted")
            if odd(value):
                ctx.probe("number of another type accepted")
                render(where + " then render", {"via": "image", "size": [plan["size"], plan["size"]], "origin": [0, 0], "dtype": "f8"})
        else:
            ctx.probe("refused" if not fired else "interrupted assignment")
            if after != before:
                if fired:
                    old = (st["oversample"], st["pof"], st["psf"])
                    commit()
                    check_state(where + " (interrupted)")
                else:
                    ctx.violate("half-applied", "%s: %s=%r raised %r and changed the model: %s" % (where, name, value, exc, diff(before, after)))
            elif valid and not fired:
                ctx.violate("valid-refused", "%s: %s=%r raised %r with psf_oversample=%r oversample=%r" % (where, name, value, exc, m.psf_oversample, m.oversample))
        check_state(where)

    def diff(a, b):
        n = ("psf", "oversample", "psf_oversample", "cache_grid", "parameters", "model")
        return [k for k, x, y in zip(n, a, b) if x != y]

    for k, op in enumerate(plan["ops"]):
        kind = op["op"]
        w = "op %d %s" % (k, kind)
        fault, frac = op.get("fault"), op.get("frac", 0)
        if kind == "oversample":
            v = over_value(op["v"], op["how"])
            p = st["pof"] or 1
            ok = v is None or type(v) is int and v > 0 or (
                isinstance(v, (tuple, list)) and len(v) == 4 and type(v[2]) is int and type(v[3]) is int and v[3] > 0)
            ok = bool(ok and factor(v) % p == 0)
            clean = plain(v)
            if odd(v):
                ok = None if ok or factor(plain(v)) != 0 and factor(plain(v)) % p == 0 else False

            def commit(clean=clean):
                st["oversample"] = clean

            assign(w, "oversample", v, ok, commit, fault, frac)
            if isinstance(v, list) and isinstance(m.oversample, (tuple, list)) and list(m.oversample) == v:
                v.append(9)  # the caller's list stays the caller's
                check_state(w + " then changed the list")
        elif kind == "pof":
            v = decode(op["v"])
            f = factor(st["oversample"])
            ok = v is None or (type(v) is int and v > 0 and st["psf"] is not None and f % v == 0)

            ok = None if ok and odd(v) or not ok and odd(v) and st["psf"] is not None and plain(v) != 0 and f % plain(v) == 0 else bool(ok)

            def commit(v=plain(v)):
                st["pof"] = v

            assign(w, "psf_oversample", v, ok, commit, fault, frac)
        elif kind == "psf":
            v = mk.build_psf(op["psf"])
            if v is not None and "scale" in op["psf"]:
                v = v * op["psf"]["scale"]

            def commit(v=v):
                st["psf"] = None if v is None else v.copy()

            assign(w, "psf", v, True, commit, fault, frac)
        elif kind == "badpsf":
            before = visible(m)
            try:
                m.psf = op["v"]
            except Exception:
                if visible(m) != before:
                    ctx.violate("half-applied", "%s: psf=%r raised and changed %s" % (w, op["v"], diff(before, visible(m))))
                ctx.probe("refused")
            else:
                m.psf = None if st["psf"] is None else st["psf"].copy()
            check_state(w)
        elif kind == "cache":
            before = visible(m)
            v = op["v"]
            if fault:
                (how, _), fired = run_with_fault(fault, frac, lambda: setattr(m, "cache_grid", v))
                if fired:
                    ctx.fault(fault)
            else:
                try:
                    m.cache_grid = v
                    if v is True or v is False:
                        if m.cache_grid is not v:
                            ctx.violate("settings", "%s: cache_grid is %r after setting %r" % (w, m.cache_grid, v))
                except Exception as e:
                    if v is True or v is False:
                        ctx.violate("valid-refused", "%s: cache_grid=%r raised %r" % (w, v, e))
                    if visible(m) != before:
                        ctx.violate("half-applied", "%s: cache_grid=%r raised and changed the model" % (w, v))
            check_state(w)
        elif kind == "copy":
            how = op["how"]
            if how == "pickle" and plan["model"]["sub"]["kind"] in ("nuker", "core", "custom"):
                how = "deepcopy"
            m = m.copy() if how == "copy" else copy.deepcopy(m) if how == "deepcopy" else pickle.loads(pickle.dumps(m))
            check_state(w)
        elif kind == "ctor":
            v, p = op["v"], op["p"]
            v = (names[0], names[1], 4, 6) if v == "CW" else v
            psf = mk.build_psf(op["psf"])
            ok = (v is None or factor(v) >= 1) and (p is None or (type(p) is int and p > 0 and psf is not None and factor(v) % p == 0))
            try:
                c = env.pf.PSFConvolvedModel2D(m.model, psf=psf, oversample=v, psf_oversample=p)
            except Exception as e:
                if ok:
                    ctx.violate("valid-refused", "%s: PSFConvolvedModel2D(oversample=%r, psf_oversample=%r) raised %r" % (w, v, p, e))
            else:
                f, q = factor(c.oversample), 1 if c.psf_oversample is None else c.psf_oversample
                if not (f >= 1 and q >= 1 and f % q == 0):
                    ctx.violate("bad-state", "%s: constructor accepted oversample %r psf_oversample %r" % (w, v, p))
                m = c
                st.update(psf=None if psf is None else psf.copy(), oversample=list(v) if isinstance(v, tuple) else v, pof=p, pa=0)
                check_state(w)
        elif kind == "pa":
            m.psf_pa = op["pa"]
            st["pa"] = op["pa"]
        elif kind == "render":
            render(w, op["r"])
    for r in plan["final"]:
        render("final", r)
