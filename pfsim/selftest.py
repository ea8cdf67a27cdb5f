"""Set-up command: the simulator imports petrofit from /repo, and a few runs repeat exactly.

python -m pfsim.selftest [--deep]
"""
import sys

from . import env


def main():
    env.reexec_pinned(["-m", "pfsim.selftest"] + sys.argv[1:])
    from . import engine

    pids = ["C04", "C05", "C07"]
    n = 3
    if "--deep" in sys.argv:
        import glob
        import os

        pids = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(os.path.dirname(__file__), "props", "c*.py")))
        n = 40
    env.setup()
    bad = 0
    for pid in pids:
        mod = engine.load(pid)
        if hasattr(mod, "prepare"):
            mod.prepare()
        plans = [engine.make_plan(mod, 1, "quick", i) for i in range(n)]
        if plans != [engine.make_plan(mod, 1, "quick", i) for i in range(n)]:
            print("%s: plans do not repeat" % pid)
            bad += 1
            continue
        a = engine.run_many(mod, plans, nproc=2)
        b = engine.run_many(mod, plans, nproc=engine.NPROC)
        key = ("log", "sigs", "stats", "violation", "harness")
        diff = [i for i in range(n) if any(a[i][k] != b[i][k] for k in key)]
        print("%s: %d runs executed twice, %d differ" % (pid, n, len(diff)), diff[:5])
        for i in diff[:3]:
            for k in key:
                if a[i][k] != b[i][k]:
                    print("   run", i, k, a[i][k], b[i][k])
        bad += bool(diff)
    if bad and "--deep" in sys.argv:
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
