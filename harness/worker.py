"""One shard of one check: generate cases, run the code under test, let the monitors decide."""
import argparse
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.setrecursionlimit(5000)

import core  # noqa: E402

CASE_CPU_S = 90.0


def on_timer(_signum, _frame):
    raise core.CaseTimeout()


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("check")
    parser.add_argument("--tier", default="quick")
    parser.add_argument("--seed", type=int, default=1)
    parser.add_argument("--shard", type=int, default=0)
    parser.add_argument("--nshards", type=int, default=1)
    parser.add_argument("--impl", default="pypy")
    parser.add_argument("--out", required=True)
    parser.add_argument("--replay")
    args = parser.parse_args()

    started = time.time()
    core.import_repo()
    check = importlib.import_module(args.check.lower())
    mon = core.Mon()
    if args.replay:
        with open(args.replay, encoding="utf-8") as handle:
            cases = iter([json.load(handle)["case"]])
    else:
        rng = random.Random("%s/%s/%s/%s" % (args.seed, args.check, args.tier, args.shard))
        cases = check.cases(rng, args.tier, args.shard, args.nshards, args.impl)
    error = None
    signal.signal(signal.SIGPROF, on_timer)
    limit = getattr(check, "CASE_CPU_S", CASE_CPU_S)
    try:
        for case in cases:
            mon.case = case
            mon.evaluations += 1
            random.seed(json.dumps(case, sort_keys=True, default=str))
            signal.setitimer(signal.ITIMER_PROF, limit)
            try:
                check.run(case, mon)
            except core.StopChecking:
                raise
            except Exception as problem:  # raised inside the code under test, where the monitor relied on it: an observation
                where = [f.filename for f in traceback.extract_tb(problem.__traceback__)]
                if not any(os.path.realpath(name).startswith(os.path.realpath(core.REPO) + os.sep) for name in where):
                    raise
                mon.violation("the code under test raised %s: %s in a step that cannot fail" % (type(problem).__name__, core.short(str(problem), 300)),
                              trace=traceback.format_exc()[-1500:])
            except core.CaseTimeout:
                mon.violation("no result after %d s of CPU time (such cases normally take well under a second)" % limit)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
    except core.StopChecking:
        pass
    except core.CaseTimeout:
        pass
    except Exception:  # noqa: a bug of the harness, never a verdict
        error = traceback.format_exc() + "\ncase: " + core.short(mon.case)
    out = mon.result()
    out.update({"shard": args.shard, "impl": args.impl, "hashseed": os.environ.get("PYTHONHASHSEED"),
                "error": error, "wall_s": round(time.time() - started, 2), "python": sys.version.split()[0],
                "rule": getattr(check, "RULE", ""), "required": getattr(check, "REQUIRED", [])})
    with open(args.out, "w", encoding="utf-8") as handle:
        json.dump(out, handle, default=str)


if __name__ == "__main__":
    main()
