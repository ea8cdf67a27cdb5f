"""python -m pfsim.check C01 [--tier quick|thorough] | --replay FILE | --run N (one run, verbose)"""
import argparse
import os
import sys

from . import env


def main():
    env.reexec_pinned(["-m", "pfsim.check"] + sys.argv[1:])
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--quiet", action="store_true")
    ap.add_argument("--run", type=int)
    ap.add_argument("--plan", type=int)
    a = ap.parse_args()
    from . import engine

    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            from .rng import derive

            seed = derive(os.environ["VERIF_SEED"]) % (1 << 31)
    try:
        if a.replay:
            return engine.replay(a.replay, a.quiet)
        if a.run is not None or a.plan is not None:
            mod = engine.load(a.property)
            env.setup()
            if hasattr(mod, "prepare"):
                mod.prepare()
            plan = engine.make_plan(mod, seed, a.tier, a.run if a.run is not None else a.plan)
            import json

            print(json.dumps(plan, indent=1))
            if a.plan is not None:
                return 0
            sys.stdout.flush()
            from .faults import fork_call

            res = fork_call(engine.execute_here, mod, plan, True)
            print({k: res[k] for k in ("violation", "stats", "log")})
            return 1 if res["violation"] else (2 if res["harness"] else 0)
        return engine.check(a.property.upper(), a.tier, seed, a.runs, a.budget)
    except SystemExit:
        raise
    except BaseException:
        import traceback

        print("HARNESS ERROR")
        traceback.print_exc(file=sys.stdout)
        return 2


if __name__ == "__main__":
    sys.stdout.flush()
    code = main()
    sys.stdout.flush()
    sys.exit(code)
