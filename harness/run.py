#!/usr/bin/env python3
"""Driver: run.py <CHECK> <quick|thorough> | run.py <CHECK> --replay FILE

Exit 0 held on everything explored, 1 violation, 2 inconclusive or harness error.
"""
import collections
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVIDENCE = os.path.join(VERIF, "evidence")
PYPY = "/opt/venv/bin/python"
NSHARDS = 8
WALL = {"quick": 780, "thorough": 3 * 3600}


def cpython_site(tmp):
    """A site directory that lets CPython import /repo's code: the environment's own pure
    Python rply, and stand-ins for the plotting libraries (plots are only checked on PyPy)."""
    import glob

    sites = glob.glob("/opt/venv/lib/*/site-packages")
    site = os.path.join(tmp, "cpysite")
    os.makedirs(os.path.join(site, "matplotlib"))
    os.makedirs(os.path.join(site, "PIL"))
    for name in ("rply", "appdirs.py"):
        for base in sites:
            if os.path.exists(os.path.join(base, name)):
                os.symlink(os.path.join(base, name), os.path.join(site, name))
                break
    for rel in ("matplotlib/__init__.py", "matplotlib/pyplot.py", "PIL/__init__.py"):
        open(os.path.join(site, rel), "w").close()
    with open(os.path.join(site, "PIL", "Image.py"), "w") as handle:
        handle.write("class Image:\n    pass\n")
    return site


def environment(tmp, impl, shard, site, seed):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = str((shard * 7919 + seed * 31) % 4294967295) if shard else "0"
    env["MPLBACKEND"] = "Agg"
    env["MPLCONFIGDIR"] = os.path.join(tmp, "mpl")
    env["OMP_NUM_THREADS"] = "1"
    if impl == "cpython":
        env["PYTHONPATH"] = site
    return env


def interpreter(impl):
    return PYPY if impl == "pypy" else "/usr/bin/python3"


def main():
    if len(sys.argv) < 3:
        print(__doc__)
        return 2
    check = sys.argv[1]
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % check)
    try:
        mpl = os.path.join(tmp, "mpl")
        if os.path.isdir("/opt/vp/mplconfig"):
            shutil.copytree("/opt/vp/mplconfig", mpl)
        else:
            os.makedirs(mpl)
        return drive(check, sys.argv[2:], tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def drive(check, rest, tmp):
    started = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    site = cpython_site(tmp)
    if rest[0] == "--replay":
        with open(rest[1], encoding="utf-8") as handle:
            recorded = json.load(handle)
        plan = [(recorded.get("impl", "pypy"), recorded.get("shard", 0))]
        seed = recorded.get("seed", seed)
        tier, extra = "quick", ["--replay", os.path.abspath(rest[1])]
    else:
        tier, extra = rest[0], []
        sys.path.insert(0, HERE)
        sys.path.insert(0, os.path.join(HERE, "checks"))
        pypy_only = check in ("C13",)
        cpy = False
        if not pypy_only:
            probe = subprocess.run(
                ["/usr/bin/python3", "-c", "import sys; sys.path.insert(0, %r); import python_dice; python_dice.PythonDiceInterpreter().roll(['d6'])"
                 % os.environ.get("VERIF_REPO", "/repo")],
                env=environment(tmp, "cpython", 1, site, seed), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            cpy = probe.returncode == 0
        plan = [("cpython" if cpy and shard % 2 else "pypy", shard) for shard in range(NSHARDS)]
    running = []
    for impl, shard in plan:
        out = os.path.join(tmp, "out%d.json" % shard)
        err = open(os.path.join(tmp, "err%d" % shard), "w+")
        command = [interpreter(impl), os.path.join(HERE, "worker.py"), check, "--tier", tier, "--seed", str(seed),
                   "--shard", str(shard), "--nshards", str(len(plan) if not extra else NSHARDS), "--impl", impl, "--out", out] + extra
        running.append((impl, shard, out, err, subprocess.Popen(
            command, env=environment(tmp, impl, shard, site, seed), stdout=err, stderr=err, cwd=tmp, start_new_session=True)))
    results, problems = [], []
    deadline = started + WALL[tier]
    for impl, shard, out, err, process in running:
        try:
            process.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(process.pid, 9)
            process.wait()
            problems.append("shard %d (%s): stopped by the wall-clock watchdog" % (shard, impl))
        if os.path.exists(out):
            with open(out, encoding="utf-8") as handle:
                result = json.load(handle)
            results.append(result)
            if result["error"]:
                problems.append("shard %d (%s): %s" % (shard, impl, result["error"]))
        elif not any(p.startswith("shard %d " % shard) for p in problems):
            err.seek(0)
            problems.append("shard %d (%s): no result, exit %s: %s" % (shard, impl, process.returncode, err.read()[-3000:]))
        err.close()
    return report(check, tier, seed, results, problems, started, bool(extra))


def report(check, tier, seed, results, problems, started, replaying):
    events, skipped, distinct, samples, known = collections.Counter(), collections.Counter(), set(), [], {}
    violations, evaluations, per_impl = [], 0, collections.Counter()
    for result in results:
        events.update(result["events"])
        skipped.update(result["skipped"])
        distinct.update(result["distinct"])
        samples.extend(result["samples"][:2])
        evaluations += result["evaluations"]
        per_impl["%s %s" % (result["impl"], result["python"])] += result["evaluations"]
        for key, (count, text) in result["known"].items():
            old = known.get(key, (0, text))
            known[key] = (old[0] + count, old[1])
        for violation in result["violations"]:
            violations.append((result, violation))
    required = results[0]["required"] if results else []
    if not replaying and not violations:
        for name in ["oracle_decisions"] + list(required):
            if not events.get(name):
                problems.append("monitor event %r was never observed" % name)

    listed = {}
    path = os.path.join(VERIF, "known_findings.json")
    with open(path, encoding="utf-8") as handle:
        for entry in json.load(handle)["findings"]:
            for prop in entry["properties"]:
                listed[(prop, entry["key"])] = entry
    for key, (count, text) in sorted(known.items()):
        if (check, key) in listed:
            print("KNOWN-FINDING: property=%s %s (%s; seen %d times, e.g. %s)" % (check, key, listed[(check, key)]["what"], count, text))
        else:
            violations.append((results[0], {"message": "unlisted finding %s: %s" % (key, text), "detail": {}, "case": None}))

    os.makedirs(os.path.join(EVIDENCE, "replays"), exist_ok=True)
    shown = 0
    for number, (result, violation) in enumerate(violations[:5]):
        name = os.path.join(EVIDENCE, "replays", "%s-%d.json" % (check, number))
        if not replaying:
            with open(name, "w", encoding="utf-8") as handle:
                json.dump({"property": check, "tier": tier, "seed": seed, "impl": result["impl"], "shard": result["shard"],
                           "hashseed": result["hashseed"], "message": violation["message"], "detail": violation["detail"],
                           "case": violation["case"]}, handle, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (check, name))
        print("  " + violation["message"])
        for key, value in violation["detail"].items():
            print("  %s: %s" % (key, value))
        shown += 1
    if not replaying:
        evidence = {
            "property": check, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evaluations, "distinct_nontrivial": len(distinct),
                "rule": results[0]["rule"] if results else "", "samples": samples[:10],
                "monitor_events": dict(sorted(events.items())), "cases_per_implementation": dict(per_impl),
                "skipped": dict(skipped), "known_findings_seen": {k: v[0] for k, v in known.items()},
                "shards": len(results), "problems": [p[:2000] for p in problems],
            },
            "assumptions": ["held on the executions described above; says nothing about executions not produced"],
            "wall_s": round(time.time() - started, 2), "violations": len(violations),
        }
        with open(os.path.join(EVIDENCE, check + ".json"), "w", encoding="utf-8") as handle:
            json.dump(evidence, handle, indent=1, default=str)
    print("%s %s: %d cases, %d distinct, %d oracle decisions, %.1f s" % (
        check, tier, evaluations, len(distinct), events.get("oracle_decisions", 0), time.time() - started))
    if violations:
        return 1
    if problems:
        for problem in problems:
            print("INCONCLUSIVE: " + problem)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
