"""Fork-per-run simulation engine: seeds, runs, judging, minimising, replay files, evidence."""
import collections
import hashlib
import importlib
import json
import os
import pickle
import selectors
import signal
import subprocess
import sys
import time
import traceback

from . import env
from .faults import fork_call, die_with_parent, ChildFailed
from .rng import derive, stream

RUN_TIMEOUT = float(os.environ.get("PFSIM_RUN_TIMEOUT", "240"))
NPROC = int(os.environ.get("PFSIM_NPROC", "0")) or min(8, os.cpu_count() or 1)


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg


class Ctx:
    """What one simulated run may use."""

    def __init__(self, mod, plan, verbose=False):
        self.mod = mod
        self.plan = plan
        self.stats = collections.Counter()
        self.events = []
        self.sigs = set()
        self.sim_time = 0.0
        self.explicit = {}
        self.verbose = verbose
        self._judge = None
        self._scratch = None

    def log(self, *a):
        s = " ".join(str(x) for x in a)
        if self._scratch:
            s = s.replace(self._scratch, "SCRATCH")
        self.events.append(s)
        if self.verbose:
            print("   ", s)
            sys.stdout.flush()

    def count(self, key, n=1):
        self.stats[key] += n

    def fault(self, kind, n=1):
        self.stats["fault:" + kind] += n

    def probe(self, key, n=1):
        self.stats["probe:" + key] += n

    def sig(self, *parts):
        """A state/interleaving reached by this run (hashed)."""
        self.sigs.add(hashlib.sha256(repr(parts).encode()).hexdigest()[:12])

    def violate(self, cls, msg):
        raise Violation(cls, msg)

    @property
    def scratch(self):
        if self._scratch is None:
            self._scratch = os.path.join(env.scratch_root(), "run-%d" % os.getpid())
            os.mkdir(self._scratch)
        return self._scratch

    # -- pristine evaluation ---------------------------------------------
    def start_judge(self):
        """A server forked before this run does anything: evaluates in untouched processes."""
        import socket

        a, b = socket.socketpair()
        pid = os.fork()
        if pid == 0:
            try:
                die_with_parent()
                a.close()
                _judge_loop(b, self.mod)
            finally:
                os._exit(0)
        b.close()
        self._judge = (a, pid)

    def pristine(self, fname, *args):
        """Evaluate module function `fname` in a fresh fork of the untouched process."""
        s, _ = self._judge
        _send(s, (fname, args))
        ok, val = _recv(s)
        if not ok:
            raise RuntimeError("judge failed: %s" % val)
        return val

    def stop_judge(self):
        if self._judge:
            s, pid = self._judge
            s.close()
            os.waitpid(pid, 0)
            self._judge = None


def _send(s, obj):
    d = pickle.dumps(obj, protocol=4)
    s.sendall(len(d).to_bytes(8, "big") + d)


def _recvn(s, n):
    out = b""
    while len(out) < n:
        c = s.recv(min(1 << 20, n - len(out)))
        if not c:
            raise EOFError
        out += c
    return out


def _recv(s):
    n = int.from_bytes(_recvn(s, 8), "big")
    return pickle.loads(_recvn(s, n))


def _judge_loop(s, mod):
    while True:
        try:
            fname, args = _recv(s)
        except EOFError:
            return
        try:
            _send(s, (True, fork_call(getattr(mod, fname), *args)))
        except BaseException as e:
            _send(s, (False, repr(e)))


# ---------------------------------------------------------------------------
def load(pid):
    return importlib.import_module("pfsim.props." + pid.lower())


def make_plan(mod, seed, tier, idx):
    rng = stream(seed, mod.ID, idx)
    plan = mod.generate(rng, tier, idx)
    plan["seed"] = seed
    plan["idx"] = idx
    # plans are JSON: what is executed is exactly what a replay file contains
    return json.loads(json.dumps(plan))


def execute_here(mod, plan, verbose=False):
    """Execute one plan in this process (which must be a disposable fork)."""
    import warnings

    ctx = Ctx(mod, plan, verbose)
    res = {"violation": None, "harness": None}
    sys.stdout.flush()
    out_fd = None
    if not verbose:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("PFSIM_DEBUG"):
            os.dup2(devnull, 2)
        os.close(devnull)
    warnings.simplefilter("ignore")
    try:
        if getattr(mod, "JUDGE", False):
            ctx.start_judge()
        mod.execute(plan, ctx)
    except Violation as v:
        res["violation"] = {"class": v.cls, "message": v.msg}
    except BaseException as e:
        tb = traceback.format_exc()
        res["harness"] = tb
        if verbose:
            print(tb)
    finally:
        try:
            ctx.stop_judge()
        except BaseException:
            pass
        if ctx._scratch:
            import shutil

            subprocess_safe = os.path.basename(ctx._scratch).startswith("run-")
            if subprocess_safe:
                shutil.rmtree(ctx._scratch, ignore_errors=True)
    res["stats"] = dict(ctx.stats)
    res["sigs"] = sorted(ctx.sigs)
    res["sim_time"] = ctx.sim_time
    res["log"] = hashlib.sha256("\n".join(ctx.events).encode()).hexdigest()[:16]
    res["events"] = ctx.events[-60:]
    res["explicit"] = ctx.explicit
    return res


class Pool:
    """Runs plans in forks of this process, up to NPROC at once, results in any order."""

    def __init__(self, mod, nproc=NPROC, timeout=RUN_TIMEOUT):
        self.mod = mod
        self.nproc = nproc
        self.timeout = timeout
        self.sel = selectors.DefaultSelector()
        self.live = {}

    def start(self, key, plan):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                die_with_parent()
                os.close(r)
                os.setpgid(0, 0)
                res = execute_here(self.mod, plan)
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(res, protocol=4))
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(w)
        self.live[r] = {"key": key, "pid": pid, "buf": [], "t": time.monotonic()}
        self.sel.register(r, selectors.EVENT_READ)

    def step(self):
        """Wait a little; returns finished [(key, result)]."""
        done = []
        for k, _ in self.sel.select(0.5):
            fd = k.fd
            d = os.read(fd, 1 << 16)
            st = self.live[fd]
            if d:
                st["buf"].append(d)
                continue
            done.append(self._finish(fd))
        now = time.monotonic()
        for fd, st in list(self.live.items()):
            if now - st["t"] > self.timeout:
                self._kill(st)
                self.sel.unregister(fd)
                os.close(fd)
                del self.live[fd]
                done.append((st["key"], {"violation": None, "harness": "run exceeded %.0f s wall clock" % self.timeout,
                                         "stats": {}, "sigs": [], "sim_time": 0.0, "log": "", "events": [], "explicit": {}}))
        return done

    def _kill(self, st):
        try:
            os.killpg(st["pid"], signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            os.waitpid(st["pid"], 0)
        except ChildProcessError:
            pass

    def _finish(self, fd):
        st = self.live.pop(fd)
        self.sel.unregister(fd)
        os.close(fd)
        os.waitpid(st["pid"], 0)
        try:
            os.killpg(st["pid"], signal.SIGKILL)  # stray grandchildren
        except (ProcessLookupError, PermissionError):
            pass
        try:
            res = pickle.loads(b"".join(st["buf"]))
        except Exception:
            res = {"violation": None, "harness": "run process died without a result", "stats": {}, "sigs": [],
                   "sim_time": 0.0, "log": "", "events": [], "explicit": {}}
        return st["key"], res

    def close(self):
        for fd, st in list(self.live.items()):
            self._kill(st)
            self.sel.unregister(fd)
            os.close(fd)
        self.live.clear()


def run_one(mod, plan, timeout=RUN_TIMEOUT):
    p = Pool(mod, 1, timeout)
    p.start(0, plan)
    while True:
        d = p.step()
        if d:
            return d[0][1]


def run_many(mod, plans, nproc=NPROC):
    """Execute a list of plans, results in list order."""
    out = [None] * len(plans)
    p = Pool(mod, nproc)
    i = 0
    while i < len(plans) or p.live:
        while i < len(plans) and len(p.live) < nproc:
            p.start(i, plans[i])
            i += 1
        for k, r in p.step():
            out[k] = r
    return out


# ---------------------------------------------------------------------------
def minimise(mod, plan, cls, budget):
    """Greedy delta debugging over the plan's lists, then property-specific simplifications."""
    t0 = time.monotonic()
    tried = 0

    def fails(cands):
        """index of the first failing candidate (evaluated in parallel), or None"""
        nonlocal tried
        for base in range(0, len(cands), NPROC):
            if time.monotonic() - t0 > budget:
                return None
            batch = cands[base:base + NPROC]
            tried += len(batch)
            for j, r in enumerate(run_many(mod, batch)):
                if r["violation"] and r["violation"]["class"] == cls:
                    return base + j
        return None

    def get(p, path):
        for k in path:
            p = p[k]
        return p

    def put(p, path, val):
        q = json.loads(json.dumps(p))
        get(q, path[:-1])[path[-1]] = val
        return q

    changed = True
    while changed and time.monotonic() - t0 < budget:
        changed = False
        for path in list_paths(mod, plan):
            try:
                n = len(get(plan, path))
            except (IndexError, KeyError, TypeError):
                continue  # the element holding this list has been removed
            size = max(1, n // 2)
            while size >= 1 and time.monotonic() - t0 < budget:
                lst = get(plan, path)
                if not lst:
                    break
                cands = [put(plan, path, lst[:i] + lst[i + size:]) for i in range(0, len(lst), size)]
                j = fails(cands)
                if j is not None:
                    plan = cands[j]
                    changed = True
                    continue
                if size == 1:
                    break
                size //= 2
        if hasattr(mod, "shrink"):
            while time.monotonic() - t0 < budget:
                cands = [json.loads(json.dumps(c)) for c in mod.shrink(plan)]
                j = fails(cands) if cands else None
                if j is None:
                    break
                plan = cands[j]
                changed = True
    return plan, tried


def list_paths(mod, plan):
    """Paths of the plan's shrinkable lists: mod.LISTS names, '*' for every element."""
    out = []

    def rec(node, rest, path):
        if not rest:
            if isinstance(node, list):
                out.append(path)
            return
        k = rest[0]
        if k == "*":
            if isinstance(node, list):
                for i, x in enumerate(node):
                    rec(x, rest[1:], path + [i])
        elif isinstance(node, dict) and k in node:
            rec(node[k], rest[1:], path + [k])

    for name in getattr(mod, "LISTS", ["ops"]):
        rec(plan, name.split("."), [])
    out.sort(key=len)
    return out


# ---------------------------------------------------------------------------
def known_findings():
    path = os.path.join(env.VERIF, "known_findings.json")
    if os.path.exists(path):
        with open(path) as f:
            return json.load(f)
    return {"known": [], "fixed": []}


def match_known(pid, v):
    for k in known_findings()["known"]:
        if k["property"] == pid and v["class"] == k["class"] and all(s in v["message"] for s in k.get("contains", [])):
            return k
    return None


def write_replay(mod, plan, viol, events):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": mod.ID, "plan": plan, "violation": viol, "events": events}
    h = hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (mod.ID, h))
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def check(pid, tier, seed, runs=None, budget=None, report_only=False):
    """The check of one property; returns the exit code."""
    mod = load(pid)
    t0 = time.monotonic()
    env.setup()
    if hasattr(mod, "prepare"):
        mod.prepare()
    setup_s = time.monotonic() - t0
    want = runs or mod.RUNS[tier]
    budget = budget or (330 if tier == "quick" else 4 * 3600)
    print("pfsim %s tier=%s VERIF_SEED=%d runs=%d nproc=%d" % (pid, tier, seed, want, NPROC))
    sys.stdout.flush()

    pool = Pool(mod)
    nxt = 0
    stats = collections.Counter()
    sigs = set()
    logs = hashlib.sha256()
    results = 0
    nontrivial = 0
    harness = []
    found = []  # (idx, violation, explicit)
    sim_time = 0.0
    samples = []
    first_viol_t = None
    known_hits = {}
    log_by_idx = {}
    while True:
        now = time.monotonic() - t0
        stop = now > budget or len(harness) >= 5 or (found and now - first_viol_t > 10) or len(found) >= 8
        if not stop:
            while nxt < want and len(pool.live) < pool.nproc:
                pool.start(nxt, make_plan(mod, seed, tier, nxt))
                nxt += 1
        if not pool.live:
            break
        if found and now - first_viol_t > 40:
            pool.close()
            break
        for idx, res in pool.step():
            results += 1
            stats.update(res["stats"])
            for s in res["sigs"]:
                sigs.add(s)
            sim_time += res["sim_time"]
            log_by_idx[idx] = res["log"]
            if res["stats"].get("nontrivial"):
                nontrivial += 1
            if res["harness"]:
                harness.append((idx, res["harness"]))
            if res["violation"]:
                k = match_known(pid, res["violation"])
                if k is not None:
                    known_hits.setdefault(k["id"], (k, idx, res["violation"]))
                else:
                    found.append((idx, res))
                    if first_viol_t is None:
                        first_viol_t = time.monotonic() - t0
    search_s = time.monotonic() - t0 - setup_s
    for idx in range(min(3, want)):
        pl = make_plan(mod, seed, tier, idx)
        samples.append({"run": idx, "plan": json.loads(json.dumps(pl))})
    for idx in sorted(log_by_idx):
        logs.update((str(idx) + log_by_idx[idx]).encode())

    code = 0
    nviol = 0
    if found:
        found.sort(key=lambda x: x[0])
        by_cls = {}
        for idx, res in found:
            by_cls.setdefault(res["violation"]["class"], (idx, res))
        # the interesting one first: a class that replays
        for cls, (idx, res) in list(by_cls.items())[:3]:
            plan = make_plan(mod, seed, tier, idx)
            plan.update(json.loads(json.dumps(res["explicit"])))
            again = run_one(mod, plan)
            if not (again["violation"] and again["violation"]["class"] == cls):
                plan = make_plan(mod, seed, tier, idx)
            mini, tried = minimise(mod, plan, cls, 40 if tier == "quick" else 180)
            final = run_one(mod, mini)
            if not (final["violation"] and final["violation"]["class"] == cls):
                mini = plan
                final = run_one(mod, mini)
            v = final["violation"] or res["violation"]
            path = write_replay(mod, mini, v, final["events"])
            ok = replay_fresh(path)
            print("violation class=%s run=%d shrunk with %d executions; replay in a fresh process: %s"
                  % (cls, idx, tried, "reproduced" if ok else "NOT reproduced"))
            print("  " + v["message"])
            if ok:
                print("VIOLATION property=%s replay=%s" % (pid, path))
                nviol += 1
                code = 1
                break
            harness.append((idx, "violation %s did not replay in a fresh process: %s" % (cls, v["message"])))
        if code == 0:
            code = 2
    for kid, (k, idx, v) in sorted(known_hits.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if harness and code != 1:
        code = 2
        for idx, h in harness[:3]:
            print("HARNESS ERROR in run %d:\n%s" % (idx, h))
    if code == 0 and results < max(1, min(want, want // 10)):
        print("HARNESS ERROR: only %d of %d runs within the time budget" % (results, want))
        code = 2

    wall = time.monotonic() - t0
    evid = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": results,
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples,
            "runs_requested": want,
            "runs_with_workload_and_fault_or_schedule": nontrivial,
            "runs_per_hour": round(results / max(search_s, 1e-3) * 3600),
            "seeds": "VERIF_SEED=%d, run indices 0..%d, one derived seed per run" % (seed, max(nxt - 1, 0)),
            "simulated_time_s": round(sim_time, 3),
            "faults_injected": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")},
            "probes": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")},
            "counters": {k: v for k, v in sorted(stats.items()) if ":" not in k and k != "nontrivial"},
            "states_measure": getattr(mod, "MEASURE", ""),
            "event_log_digest": logs.hexdigest()[:16],
            "components_real": getattr(mod, "REAL", "all petrofit code and its numerical dependencies"),
            "components_stubbed": getattr(mod, "STUBS", "none"),
            "known_findings_seen": sorted(known_hits),
            "harness_errors": len(harness),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
    print("%s: %d runs, %d distinct non-trivial, %d violations, %.1f s (%.1f s setup), log digest %s -> exit %d"
          % (pid, results, len(sigs), nviol, wall, setup_s, evid["coverage"]["event_log_digest"], code))
    print("faults: %s" % evid["coverage"]["faults_injected"])
    print("probes: %s" % evid["coverage"]["probes"])
    return code


def replay_fresh(path):
    r = subprocess.run([sys.executable, "-m", "pfsim.check", "--replay", path, "--quiet"], cwd=env.VERIF,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    return r.returncode == 1


def replay(path, quiet=False):
    """Replay a file in this fresh process.  Exit 1 (and a VIOLATION line) when it reproduces."""
    with open(path) as f:
        body = json.load(f)
    mod = load(body["property"])
    env.setup()
    if hasattr(mod, "prepare"):
        mod.prepare()
    plan = body["plan"]
    if quiet:
        res = run_one(mod, plan)
    else:
        sys.stdout.flush()
        res = fork_call(execute_here, mod, plan, True)
    v = res["violation"]
    if v is None:
        print("replay: no violation%s" % (" (harness error: %s)" % res["harness"] if res["harness"] else ""))
        return 2 if res["harness"] else 0
    print("replay: %s: %s" % (v["class"], v["message"]))
    same = v["class"] == body["violation"]["class"]
    print("VIOLATION property=%s replay=%s" % (body["property"], path))
    return 1 if same else 3
