"""Plant bugs and try the checks on them (never touches /repo: everything happens in copies under /tmp).

    seedkit.py make DEFS.py [ID...]     write seeded/<id>/ from the definitions in DEFS.py
    seedkit.py try [--no-tests] [--no-check] [--check C07[,C10]] ID...

A definition is  bug(id, property, edits=[(file, old, new)], needs=..., breaks=..., demo=python source).
"""
import json
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = "/repo"
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\nimport matplotlib\nmatplotlib.use('Agg')\nimport warnings\n"


def clone(name):
    d = "/tmp/mut_" + name
    if os.path.isdir(d):
        shutil.rmtree(d)
    shutil.copytree(REPO, d, symlinks=True)
    return d


def make(defs, only):
    def bug(id, property, edits, needs, breaks, demo):
        if only and id not in only:
            return
        d = clone("mk")
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                print("!!", id, f, "matches", s.count(old))
                return
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
        out = os.path.join(ROOT, "seeded", id)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(HEAD + demo.lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        print("made", id)
        shutil.rmtree(d)
    exec(open(defs).read(), {"bug": bug})


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def own_lines(d, diff):
    """Lines the patch removes or replaces that the base commit does not have."""
    base = subprocess.run(["git", "-C", d, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
    bad = []
    f = None
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            src = subprocess.run(["git", "-C", d, "show", "%s:%s" % (base, f)], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in src:
            bad.append(l)
    return bad


def attempt(id, tests=True, check=True, which=None):
    out = os.path.join(ROOT, "seeded", id)
    meta = json.load(open(os.path.join(out, "meta.json")))
    d = clone(id)
    line = [id]
    try:
        r = subprocess.run(["git", "-C", d, "apply", os.path.join(out, "patch.diff")], capture_output=True, text=True)
        if r.returncode:
            print(id, "patch does not apply", r.stderr)
            return
        bad = own_lines(d, open(os.path.join(out, "patch.diff")).read())
        if bad:
            line.append("OWN-LINES %s" % bad)
        a, oa = run(["bash", os.path.join(out, "demo.sh")], REPO, timeout=300)
        b, ob = run(["bash", os.path.join(out, "demo.sh")], d, timeout=300)
        line.append("demo %d/%d%s" % (a, b, "" if a == 0 and b != 0 else "  BAD-DEMO\n" + oa[-600:] + "\n--\n" + ob[-600:]))
        if b:
            line.append("(%s)" % ob.strip().splitlines()[-1][:150] if ob.strip() else "")
        if tests:
            shutil.rmtree(os.path.join(d, "petrofit/tests/test_output_dir"), ignore_errors=True)
            x = "/tmp/mut_%s.xml" % id
            run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "6", "--timeout=300", "--randomly-seed=1", "--randomly-dont-reorganize",
                 "-o", "junit_family=xunit2", "--junitxml=" + x], d,
                {"MPLBACKEND": "Agg", "PYTHONHASHSEED": "0", "PYTHONPATH": d, "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1"})
            run([sys.executable, "/opt/vp/results.py", "/tmp/mut_%s.json" % id, "junit:" + x], d)
            res = json.load(open("/tmp/mut_%s.json" % id))
            want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            miss = [t for t in want if t not in res["passed"]]
            line.append("tests ok" if not miss else "TESTS FAIL %s" % miss)
            for p in (x, "/tmp/mut_%s.json" % id):
                os.remove(p)
        if check:
            for c in (which or [meta["property"]]):
                code, o = run([PY, "-m", "pfsim.check", c, "--tier", "quick"], ROOT, {"PFSIM_REPO": d, "VERIF_SEED": "1"})
                v = re.findall(r"VIOLATION property=\S+", o)
                line.append("%s exit %d %s" % (c, code, "CAUGHT" if code == 1 and v else "MISSED" if code == 0 else "???" + o[-500:]))
        print("  ".join(line), flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make":
        make(a[1], a[2:])
    else:
        a = a[1:]
        which = None
        if "--check" in a:
            k = a.index("--check")
            which = a[k + 1].split(",")
            del a[k:k + 2]
        t, c = "--no-tests" not in a, "--no-check" not in a
        for id in [x for x in a if not x.startswith("--")] or sorted(os.listdir(os.path.join(ROOT, "seeded"))):
            attempt(id, t, c, which)
