"""C11: calls leave process-wide state as they found it."""
import contextlib
import gc
import logging
import multiprocessing
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np

from .. import callkit as ck
from .. import env
from ..faults import Faulter, count_points
from ..rng import stream
from .c15 import HitOp, OPS

ID = "C11"
JUDGE = False
RUNS = {"quick": 900, "thorough": 80000}
RULE = ("random sequences of public calls (about 47 kinds) from a randomised ambient state (warning filters, floating-point "
        "error handling, print options, random generator states, working directory, environment, plotting defaults, signal "
        "handlers, open figures and files), returning, raising, interrupted, out of memory or with failing library calls (at numbered points, or in a matplotlib operation); the "
        "whole process state is compared before and after each call.  distinct_nontrivial counts distinct (call, ambient, fate, "
        "point of fault) states")
MEASURE = "distinct (call, ambient state class, outcome, function the fault hit)"
REAL = "all of petrofit, astropy, photutils, scipy, matplotlib (Agg)"
STUBS = "interrupt/allocation/library failure injector"
ASSUMPTIONS = ["interrupts arrive at function starts and before calls: an interrupt between a state change and the entry of its "
               "try block cannot be survived by any Python code",
               "calls by several threads at once are outside this property (warning filters are process-wide)"]


def generate(rng, tier, idx):
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        u = rng.random()
        c = ck.gen(rng)
        o = dict(ck.spiked(c, rng) if rng.random() < 0.12 else c, amb=rng.randrange(1 << 30) if rng.random() < 0.7 else None)
        if u < 0.6:
            o.update(fault=rng.choice(["interrupt-clean", "interrupt-clean", "memory", "error", "value", "os"]), frac=round(rng.random(), 4))
        if ck.CALLS[o["call"]].plots or o["spec"].get("plot"):
            if rng.random() < 0.5:
                o.update(fault="draw", pick=rng.randrange(1 << 30))
        ops.append(o)
    return {"ops": ops}


def _handler(*a):
    pass


def disturb(seed, ctx):
    """Put the process into a seeded, unusual but legal state."""
    import matplotlib
    from matplotlib import pyplot as plt

    rng = stream("ambient", seed)
    cls = []
    if rng.random() < 0.5:
        warnings.resetwarnings()
        for _ in range(rng.randrange(3)):
            warnings.filterwarnings(rng.choice(["ignore", "always", "once", "default"]), "msg%d" % rng.randrange(9))
        warnings.simplefilter(rng.choice(["ignore", "ignore", "always", "error"]))
        cls.append("filters:" + warnings.filters[0][0])
    if rng.random() < 0.5:
        np.seterr(**{k: rng.choice(["ignore", "warn", "ignore", "raise"]) for k in ("divide", "over", "under", "invalid")})
        cls.append("seterr")
    if rng.random() < 0.3:
        np.set_printoptions(precision=rng.randrange(3, 9), threshold=rng.choice([5, 100]))
        cls.append("print")
    random.seed(rng.randrange(99))
    np.random.seed(rng.randrange(99))
    if rng.random() < 0.4:
        d = ck.scratch_dir()
        os.chdir(d)
        cls.append("cwd")
    if rng.random() < 0.3:
        os.environ["PFSIM_AMBIENT"] = str(rng.random())
        cls.append("env")
    if rng.random() < 0.4:
        matplotlib.rcParams["figure.figsize"] = [rng.choice([3, 4]), 3]
        matplotlib.rcParams["image.cmap"] = rng.choice(["gray", "viridis"])
        matplotlib.rcParams["font.size"] = rng.choice([8, 9, 12])
        cls.append("rc")
    # started in the background, this process would have interrupts ignored
    signal.signal(signal.SIGINT, signal.default_int_handler)
    if rng.random() < 0.3:
        signal.signal(rng.choice([signal.SIGUSR1, signal.SIGINT, signal.SIGALRM, signal.SIGWINCH]), _handler)
        cls.append("signal")
    if rng.random() < 0.3:
        plt.figure()
        cls.append("figure")
    if rng.random() < 0.5:
        plt.ion()
        cls.append("interactive")
    if rng.random() < 0.15:
        logging.getLogger(rng.choice(["", "astropy", "petrofit", "matplotlib"])).setLevel(rng.choice([logging.ERROR, logging.CRITICAL]))
        cls.append("logging")
    if rng.random() < 0.15:
        os.umask(rng.choice([0o077, 0o027]))
        cls.append("umask")
    if rng.random() < 0.2:
        sys.setrecursionlimit(rng.choice([1500, 3000]))
        cls.append("reclimit")
    if rng.random() < 0.2:
        gc.disable() if gc.isenabled() else gc.enable()
        cls.append("gc")
    return cls


def state(plotting):
    """Everything process-wide that the property names."""
    import locale
    import resource
    import tempfile

    import astropy.units
    import matplotlib
    import matplotlib.style
    from matplotlib import pyplot as plt

    st = {}
    st["warning filters"] = [(f[0], getattr(f[1], "pattern", f[1]), f[2].__name__, getattr(f[3], "pattern", f[3]), f[4]) for f in warnings.filters]
    st["showwarning"] = (id(warnings.showwarning), id(warnings._showwarnmsg_impl))
    st["floating-point errors"] = (np.geterr(), id(np.geterrcall()))
    st["print options"] = repr(np.get_printoptions())
    if not plotting:
        st["random"] = hash(random.getstate())
        s = np.random.get_state()
        st["numpy random"] = (s[0], s[1].tobytes(), s[2:])
        st["figures"] = plt.get_fignums()
    st["cwd"] = os.getcwd()
    st["environ"] = dict(os.environ)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        st["rcParams"] = repr(sorted(matplotlib.rcParams.items()))
    st["backend"] = matplotlib.get_backend()
    st["interactive"] = (matplotlib.is_interactive(),)
    sig = {}
    for n in signal.valid_signals():
        h = signal.getsignal(n)
        sig[int(n)] = repr(h)
    st["signal handlers"] = sig
    st["itimer"] = signal.getitimer(signal.ITIMER_REAL)[0] > 0
    fds = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if not t.startswith("/proc") and "/fonts/" not in t:  # matplotlib caches open fonts
            fds[int(fd)] = t
    st["open files"] = fds
    st["std streams"] = (id(sys.stdout), id(sys.stderr), id(sys.stdin), id(sys.excepthook), id(sys.displayhook))
    st["recursion limit"] = sys.getrecursionlimit()
    st["gc"] = (gc.isenabled(), gc.get_threshold())
    st["threads"] = threading.active_count()
    st["logging"] = [(n, lg.level, lg.disabled, lg.propagate, len(lg.handlers)) for n in ("", "astropy", "petrofit", "matplotlib", "py.warnings")
                     for lg in (logging.getLogger(n),)] + [logging.root.manager.disable]
    m = os.umask(0o022)
    os.umask(m)
    st["umask"] = m
    st["start method"] = multiprocessing.get_start_method()
    st["child processes"] = len(multiprocessing.active_children())
    st["locale"] = locale.setlocale(locale.LC_ALL)
    st["sys.path"] = list(sys.path)
    st["trace"] = (sys.gettrace(), sys.getprofile())
    st["switch interval"] = sys.getswitchinterval()
    st["affinity"] = os.sched_getaffinity(0)
    st["priority"] = os.getpriority(os.PRIO_PROCESS, 0)
    st["limits"] = [resource.getrlimit(getattr(resource, n)) for n in sorted(dir(resource)) if n.startswith("RLIMIT_")]
    st["temporary directory"] = tempfile.gettempdir()
    st["buffer size"] = np.getbufsize()
    st["default plotting settings"] = repr(sorted(matplotlib.rcParamsDefault.items()))
    st["colour maps"] = sorted(matplotlib.colormaps)
    st["styles"] = len(matplotlib.style.library)
    reg = astropy.units.get_current_unit_registry()
    st["units"] = (len(reg.all_units), len(reg.equivalencies))
    return st


def execute(plan, ctx):
    gc.collect()
    gc.freeze()
    for v in [v for v in os.environ if v.endswith("_NUM_THREADS") or v.startswith(("PYTHON", "MPL"))]:
        del os.environ[v]  # set by the harness: a user has none of them
    signal.signal(signal.SIGINT, signal.default_int_handler)
    for k, o in enumerate(plan["ops"]):
        c = ck.CALLS[o["call"]]
        plotting = c.plots or (c.plots is None and bool(o["spec"].get("plot")))
        cls = []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            old = np.seterr(all="ignore")
            inputs = ck.build(o)
            np.seterr(**old)
        if inputs.get("cat", 0) is None:
            ctx.count("no sources")
            continue
        fired = None
        at = None
        if o.get("fault") and o["fault"] != "draw":
            n = count_points(o["fault"], lambda: _amb_run(o, inputs, ctx))
            at = min(int(o["frac"] * n), max(n - 1, 0))
        if o["amb"] is not None:
            cls = disturb(o["amb"], ctx)
        if o.get("fault") == "draw":
            drawing(ctx, k, o, inputs, plotting, cls)
            continue
        gc.collect()
        before = state(plotting)
        f = Faulter(o.get("fault") or "error", at=at)
        if at is None:
            try:
                ck.run(o, inputs)
                fate = "ok"
            except Exception as e:
                fate = type(e).__name__
                e = None
        else:
            how, val = f.run(lambda: ck.run(o, inputs))
            fired = f.fired
            fate = "ok" if how == "ok" else type(val).__name__
            if how == "exc":
                val.__traceback__ = None
            val = None
        gc.collect()
        compare(ctx, k, o, cls, fate, fired, before, state(plotting))
        if fired:
            ctx.fault(o["fault"])
            ctx.probe("fault in " + fired.split(":")[1])
        if cls:
            ctx.fault("ambient state", len(cls))
        if fired or cls:
            ctx.count("nontrivial")
        ctx.sig(o["call"], bool(plotting), fate, fired and (o["fault"], fired.split(":")[1]), tuple(c.split(":")[0] for c in cls[:2]))
        ctx.count("calls")


def compare(ctx, k, o, cls, fate, fired, before, after):
    ctx.log(k, o["call"], cls, fired, fate)
    bad = [x for x in before if before[x] != after[x]]
    if bad:
        x = bad[0]
        ctx.violate("state-changed:" + x, "op %d %s (%s%s) changed the %s: %s -> %s" % (
            k, o["call"], fate, ", %s at %s" % (o.get("fault"), fired) if fired else "", ", ".join(bad), _diff(before[x], after[x]), _diff(after[x], before[x])))


def drawing(ctx, k, o, inputs, plotting, cls):
    """The same call again and again, another of the matplotlib operations it uses failing each time."""
    from matplotlib import pyplot as plt

    rng = stream("draw", o["pick"])
    with contextlib.ExitStack() as st:
        used = [st.enter_context(HitOp({"op": op, "nth": -1, "err": "error"})) for op in OPS]
        try:
            ck.run(o, inputs)
        except Exception:
            pass
        made = {op: h.n for op, h in zip(OPS, used) if h.n}
    todo = sorted(made)
    rng.shuffle(todo)
    todo.sort(key=lambda op: not op.startswith("pyplot"))
    for op in todo[:6]:
        plt.close("all")
        gc.collect()
        before = state(plotting)
        with HitOp({"op": op, "nth": rng.randrange(made[op]), "err": rng.choice(["error", "value", "memory", "interrupt", "os"])}) as hit:
            try:
                ck.run(o, inputs)
                fate = "ok"
            except (Exception, KeyboardInterrupt) as e:
                fate = type(e).__name__
                e = None
        gc.collect()
        fired = "library:%s" % op if hit.fired else None
        compare(ctx, k, o, cls, fate, fired, before, state(plotting))
        if hit.fired:
            ctx.fault("failing drawing operation")
            ctx.count("nontrivial")
            ctx.probe("failing " + op)
        ctx.sig(o["call"], "draw", op, fate, tuple(c.split(":")[0] for c in cls[:2]))
        ctx.count("calls")
    plt.close("all")


def _amb_run(o, inputs, ctx):
    if o["amb"] is not None:
        disturb(o["amb"], ctx)
    return ck.run(o, inputs)


def _diff(a, b):
    if isinstance(a, dict):
        return str({k: v for k, v in a.items() if b.get(k) != v})[:300]
    if isinstance(a, list):
        return "%d entries %s" % (len(a), str([x for x in a if x not in b])[:300])
    return str(a)[:200]
