"""C17: reading and evaluating ordinary-sized programs finishes in bounded time."""
import json
import os
import subprocess
import sys

import core

RULE = ("families of growing texts (chains, nesting, custom dice with and without blanks, unterminated brackets, long names, blanks and "
        "digits, garbage) lexed and parsed, and families of growing programs (dice pools, keep/drop pools, variable chains) evaluated, each "
        "in a child process with a CPU limit one to two orders of magnitude above what the unchanged code needs; non-trivial: the child "
        "reached the call under the limit; distinct by (family, size)")
REQUIRED = ["children_measured", "texts_measured", "programs_measured", "estimates_measured"]
CASE_CPU_S = 900.0
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def texts(n):
    yield "sum chain", " + ".join(["d6"] * n)
    yield "mixed chain", " ".join(["1 + 2 * 3 - 4 // 5 ==" for _ in range(n // 5)]) + " 1"
    yield "parentheses", "(" * n + "1" + ")" * n
    yield "parentheses around operators", "(1 + " * n + "1" + ")" * n
    yield "ABS nest", "ABS(" * n + "-1" + ")" * n
    yield "right nest", "1 - (" * n + "1" + ")" * n
    yield "keep chain", " + ".join(["3d6k2"] * n)
    yield "names", " + ".join("n" + "ab"[i % 2] * (i % 9) for i in range(n))
    yield "long comparison chain", " == ".join(["1"] * n)
    yield "line breaks", "\n".join(["1 +"] * n) + "\n1"
    yield "spaces and tabs before garbage", "1 + 2" + " \t" * (n * 10) + "$"
    yield "booleans", " AND ".join(["True", "False"] * (n // 2))
    yield "leading zeros", "0" * (n * 2) + "1 + 0d6"
    yield "underscores", "_" * (n * 5) + " + " + "_a" * n
    yield "underscores then capital", "_a" * (n * 3) + "B"
    yield "stars", "d[1" + "*2" * n + "]"
    yield "dashes in custom dice", "d[" + "1-2" * n + "]"
    yield "bracket letters", "d[" * n
    yield "custom dice unterminated after blank", "d[" + ",".join("1" for _ in range(n)) + " "
    yield "percent dice", " - ".join(["2d%", "dF"] * (n // 2))
    yield "open parentheses", "(" * n
    yield "nots", "!" * n + "1"
    yield "minmax nest", "MAX(1, " * n + "1" + ")" * n
    yield "left minmax nest", "MIN(" * n + "1" + ", 2)" * n
    yield "custom dice", "d[" + ",".join(str(i) for i in range(n)) + "]"
    yield "custom ranges", "d[" + ",".join("%d-%d*2" % (i, i + 3) for i in range(n)) + "]"
    yield "custom keep", "3d[" + ",".join(str(i) for i in range(n)) + "]k2"
    yield "unterminated custom dice", "d[" + ",".join(str(i) for i in range(n))
    yield "bad custom entry", "d[" + ",".join(["1-2*3"] * n) + ",x]"
    yield "custom negatives", "d[" + ",".join("-%d--%d" % (i + 2, i) for i in range(n)) + ",]"
    yield "many dice", " + ".join("%dd[1,2,%d]k1" % (i + 1, i) for i in range(n // 4))
    yield "long name", "a" * (n * 20)
    yield "almost a name", "a" * (n * 20) + "1"
    yield "blanks", "1" + " " * (n * 50) + "+ 2"
    yield "new lines and garbage", "1 +\n" * n + "?"
    yield "digits", "1" * (n * 2)
    yield "digits then d", "9" * (n * 2) + "d"
    yield "minus signs", "1 " + "- " * n + "1"
    yield "binary operators", "1" + " == 1 AND 2 OR 3" * (n // 3)
    yield "equals signs", "=" * n
    yield "d letters", "d" * n
    yield "keep letters", "3d6" + "k1d1" * (n // 2)
    yield "commas", "MAX(" + "1," * n
    yield "assignment", "VAR " + "x" * n + " = " + "1 * " * n + "1"


def programs(scale):
    yield "pool", ["%dd6" % (30 * scale)]
    yield "fate pool", ["%ddF" % (60 * scale)]
    yield "weighted pool", ["%dd[1*5,2,9]" % (15 * scale)]
    yield "keep", ["%dd6k3" % (8 + 2 * scale)]
    yield "drop", ["%dd6d%d" % (8 + 2 * scale, 5 + 2 * scale)]
    yield "keep half", ["%dd6k6" % (11 + scale)]
    yield "drop half", ["%dd6d6" % (11 + scale)]
    yield "keep most", ["%dd4k%d" % (11 + scale, 7 + scale)]
    yield "keep custom", ["%dd[1*3,2,5]k5" % (10 + scale)]
    yield "keep fate", ["%ddFk7" % (11 + scale)]
    yield "drop one", ["%dd4d1" % (11 + scale)]
    yield "keep almost all", ["%dd6k%d" % (11 + scale, 9 + scale)]
    yield "drop two", ["%dd6d2" % (11 + scale)]
    yield "drop one of fate", ["%ddFd1" % (13 + scale)]
    yield "keep pairs", ["4d6k3 + 4d6k3 - 4d6d1 * 2"]
    yield "big sides", ["d%d" % (400 * scale), "2d%d" % (60 * scale)]
    yield "comparison of pools", ["%dd6 > %dd6" % (8 * scale, 8 * scale)]
    yield "pool plus constants", ["%dd6" % (15 * scale) + " + 1" * 30]
    yield "many lines", ["d6 + %d" % i for i in range(40 * scale)]
    yield "many constants", ["VAR %s = %d" % ("v" + "ab"[i % 2] * (i // 2 + 1), i) for i in range(25 * scale)] + ["va + vb"]
    yield "reassigned dice", ["VAR a = d6"] * (20 * scale) + ["a"]
    yield "read often", ["VAR a = d6"] + ["a + %d" % i for i in range(30 * scale)]
    yield "variable used often", ["VAR a = 3", " + ".join(["a"] * (20 * scale))]
    yield "added dice", [" + ".join(["d6"] * (20 * scale))]
    yield "subtracted dice", [" - ".join(["d6"] * (20 * scale))]
    yield "multiplied", [" * ".join(["d3"] * (6 + 2 * scale))]
    yield "minmax chain", ["MAX(d6, " * (15 * scale) + "d6" + ")" * (15 * scale)]
    yield "boolean chain", [" AND ".join(["(d6 > 2)"] * (15 * scale))]
    yield "or chain", [" OR ".join(["(d6 > 2)"] * (15 * scale))]
    yield "reassigned constant", ["VAR a = 1"] + ["VAR a = a + 1"] * (12 * scale) + ["a"]
    yield "independent variables", ["VAR %s = d2" % n for n in "abcdef"[: 3 + scale]] + [" + ".join("abcdef"[: 3 + scale])]
    yield "half damage", ["VAR s = d20", "VAR dmg = %dd6 + 10" % (2 * scale), "VAR p = (s >= 10)", "VAR h = dmg // (p + 1)", "h"]
    yield "not chain", ["!" * (20 * scale) + "(d6 - 3)"]
    deep = 30 * scale
    nests = [("parentheses", "(", ")"), ("left MAX", "MAX(", ", 1)"), ("right MIN", "MIN(7, ", ")"), ("ABS", "ABS(", ")"), ("left MIN", "MIN(", ", 3)"), ("ABS of difference", "ABS(2 - ", ")"),
             ("not", "!(", ")"), ("sum left", "(", " + 1)"), ("sum right", "(1 + ", ")"), ("difference", "(3 - ", ")"), ("product", "(", " * 1)"), ("division left", "(", " // 1)"),
             ("division right", "(12 // ", ")"), ("comparison", "(", " > 0)"), ("comparison right", "(1 <= ", ")"), ("AND", "(", " AND 1)"), ("OR right", "(0 OR ", ")"), ("equality", "(1 == ", ")"),
             ("mixed", "MAX(ABS(", " - 1) * 1, 2)"), ("mixed right", "MIN(3, (2 * ABS(", ")) // 2)")]
    for start in range(0, len(nests), 4):  # several nestings per child
        batch = []
        for name, head, tail in nests[start:start + 4]:
            batch.append([head * deep + ("2" if name == "division right" else "(d2 * 3)") + tail * deep])
            batch.append(["VAR v = 2", "VAR w = " + head * (deep // 2) + ("v" if name == "division right" else "(v + d2)") + tail * (deep // 2), "w"])
        yield "nested " + ", ".join(name for name, _, _ in nests[start:start + 4]), batch
    yield "variable chain", ["VAR va = 2"] + ["VAR v%s = MAX(v%s, 1) + 0" % ("b" * (i + 1), "b" * i if i else "a") for i in range(8 * scale)]
    yield "doubled constant", ["VAR a = 1"] + ["VAR a = a + a"] * (10 * scale) + ["a"]
    yield "negated constant", ["VAR a = 1"] + ["VAR a = !a"] * (12 * scale) + ["a"]
    yield "compared constant", ["VAR a = 5"] + ["VAR a = MAX(a, 3) * 1"] * (10 * scale) + ["a"]
    yield "abs of pools", ["ABS(%dd6 - %dd6)" % (6 * scale, 6 * scale)]


def spaced(n, keep=False):
    return "3d[" + ", ".join(str(i) for i in range(n)) + "]" + ("k2" if keep else "")


def cases(rng, tier, shard, nshards, impl):
    jobs = []
    # the recorded slow family: blanks after the commas of custom dice (keep the trigger, and the sizes below it)
    for n in (4, 8, 12):
        jobs.append({"kind": "text", "family": "custom dice with blanks", "size": n, "text": spaced(n), "cpu": 15})
        jobs.append({"kind": "text", "family": "custom keep dice with blanks", "size": n, "text": spaced(n, True), "cpu": 15})
    jobs.append({"kind": "text", "family": "custom dice with blanks", "size": 40, "text": spaced(40), "cpu": 15})
    for size in ([60, 300] if tier == "quick" else [60, 120, 200, 350, 600, 900]):
        for family, text in texts(size):
            jobs.append({"kind": "text", "family": family, "size": size, "text": text, "cpu": 20})
    for scale in ([1, 2] if tier == "quick" else [1, 2, 3]):
        for family, lines in programs(scale):
            jobs.append({"kind": "program", "family": family, "size": scale, "lines": lines if isinstance(lines[0], list) else [lines], "cpu": 45, "cost_cpu": 10})
    for i, job in enumerate(jobs):
        if i % nshards == shard:
            yield job


def run(case, mon):
    done = subprocess.run([sys.executable, os.path.join(HERE, "c17_child.py")], input=json.dumps(case), stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, text=True, env=dict(os.environ))
    rows = done.stdout.strip().split("\n")
    if rows[0] != "ready":
        raise RuntimeError("child did not start: " + done.stderr[-1500:])
    mon.event("children_measured")
    mon.event({"text": "texts_measured", "program": "programs_measured"}[case["kind"]], len(case.get("lines", [0])))
    mon.nontrivial((case["kind"], case["family"], case["size"]))
    if "estimated" in rows:
        mon.event("estimates_measured", len(case["lines"]))
        rows.remove("estimated")
    if len(rows) < 2:
        if done.returncode not in (-24, -9):
            raise RuntimeError("child died with %s: %s" % (done.returncode, done.stderr[-1500:]))
        if case["family"] == "custom dice with blanks" and case["size"] >= 30:
            mon.event("oracle_decisions")
            mon.finding("K-REDOS", "%s, %d sides" % (case["text"][:40], case["size"]))
            return
        what = "estimate" if case["kind"] == "program" and "estimated" not in done.stdout else "result"
        mon.check(False, "%s of size %s: no %s within %d s of CPU time" % (case["family"], case["size"], what, case["cost_cpu" if what == "estimate" else "cpu"]),
                  input=case.get("text", case.get("lines")))
        return
    result = json.loads(rows[1])
    mon.event("cpu_ms_total", int(result["cpu"] * 1000))
    mon.check(result["outcome"] != "RecursionError", "%s of size %s: recursion limit" % (case["family"], case["size"]), input=case.get("text", case.get("lines")))
    mon.sample({"family": case["family"], "size": case["size"], "cpu_s": result["cpu"], "outcome": result["outcome"]})
