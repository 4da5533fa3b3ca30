"""C14: the cost estimate follows its rules for every program, and is cheap to get."""
import core
import gen
import refmodel as R
from common import nested, parse_lines

RULE = ("random programs (also ones whose evaluation would divide by zero or be astronomically large) against an independent cost model; "
        "whole-program estimates against sums of line-by-line estimates on one interpreter, and against re-spaced texts; non-trivial: an "
        "operator or a variable; distinct by program structure")
REQUIRED = ["estimates_compared", "additive_checks", "huge_programs", "variable_reads", "nested_assignments"]
HUGE = [["1000000d6"], ["5000d1000"], ["100d%k50"], ["100d%d50"], ["VAR a = 300d300", "a * a * a * a"], ["1 // 0"], ["VAR a = 1 // 0", "a // 0"],
        ["MAX(400d400, 500d500) * 600d600"], ["!(1000d1000)"], ["99999d[1-9*9,5]"], ["ABS(10000d6 - 10000d6)"],
        ["VAR a = 1 // 0", "VAR b = a * 3", "!b"], ["500d500k250", "500d500d250"], ["VAR a = 200d200k100", "VAR a = a * a", "VAR a = a * a", "VAR a = a * a", "a"], ["MAX(1 // 0, 9999d9999)"],
        ["d[1-4000]", "3000d[1-4000*7]"], ["5 // (d6 - 3)", "VAR a = 5 // (d6 - 3)", "a // a"], ["1000000000d1000"], ["!9999999999999999999d1"], ["!1%sd6" % ("0" * 320)], ["!!123456789012345678d7", "!(99999999999d99)"], ["d[1*1000000000,2]"], ["+".join(["90d90"] * 40)], ["VAR a = 80d80"] + ["VAR a = a * a"] * 12 + ["a"]]


def cases(rng, tier, shard, nshards, impl):
    if True:
        for texts in HUGE[shard::nshards]:
            yield {"lines": texts, "huge": True, "salt": 0}
        for texts in [["5"], ["True"], ["d6"], ["3d6"], ["3d6k2"], ["3d6k3"], ["3d6k4"], ["3d6k0"], ["3d6d0"], ["3d6d1"], ["3d6d3"], ["3d6d4"], ["dF"], ["2d%"],
                      ["d[1,1,2]"], ["d[1*5,2]"], ["2d[1-3,2-5]"], ["!d6"], ["!!d20"], ["!(4)"], ["(d6)"], ["ABS(d6)"], ["MAX(d6, 2)"], ["VAR a = d6"],
                      ["VAR a = d6", "a"], ["VAR a = d6", "a + a"], ["VAR a = d6", "VAR a = a + 1", "a"], ["0d6"], ["d6k1"], ["d[3*0,1]"], ["3d[3*0,1]k1"], ["5d[1,1,2,9]k2"], ["5d[1,1,2,9]d2"], ["5d[1,1,2,9]k5"], ["5d[1,1,2,9]d5"], ["d6d0"],
                      ["d6d1"], ["d6k0"], ["d6k2"], ["0d6k0"], ["0d6k2"], ["0d6d0"], ["10d10k3"], ["10d10d3"], ["10d10k9"], ["10d10d9"], ["2d%k1"], ["2d%d1"], ["7dFk2"], ["7dFd2"], ["7dFk7"], ["7dFd7"],
                      ["-5"], ["10000000"], ["False"], ["((((5))))"], ["!!!!d100"], ["!(!(d7) + 1)"], ["!0"], ["!a".replace("a", "d9")], ["MIN(MAX(d6, d8), ABS(2d10))"], ["1 + 2 - 3 * 4 // 5"], ["1 == 2 AND 3 OR 4"],
                      ["VAR a = 5", "VAR b = a", "VAR c = b", "c + b + a"], ["VAR a = d6", "VAR a = a", "VAR a = a", "a"], ["VAR a = 3d6", "5"], ["VAR a = 3d6", "VAR b = !a", "VAR a = 1", "b + a"],
                      ["VAR a = 3d6k2", "VAR b = 4d6d1", "a * b"], ["d6", "d6", "d6"], ["VAR a = d6"] * 5, ["d[1-10*9,5-15]"], ["4d[1-10*9,5-15]k2"], ["d[-3--1,-2]"], ["d[5-1]"], ["100d[7]"], ["100d[7]k50"], ["d1"], ["d1k1"]][shard::nshards]:
            yield {"lines": texts, "huge": False, "salt": 0}
    for i in range(150 if tier == "quick" else 1500):
        yield {"lines": nested(rng), "huge": False, "salt": rng.randint(0, 10 ** 6), "nested": True}
    for i in range(1500 if tier == "quick" else 8000):
        big = rng.random() < 0.2
        lines = gen.program(rng, rng.choice([1, 2, 3, 4, 5, 6, 6, 15]), rng.choice([1, 2, 3, 4]), rng.choice([6, 100, 20]))
        if big:  # dice no one could evaluate
            lines = [line[:-1] + [enlarge(rng, line[-1])] for line in lines]
        yield {"lines": gen.texts(lines), "huge": big, "salt": rng.randint(0, 10 ** 6)}


def enlarge(rng, node):
    kind = node[0]
    if kind in ("dice", "dk"):
        n = rng.choice([0, 1, 7, 100, 999, 10 ** 6])
        sides = rng.choice([node[2], ["%"], ["F"], ["n", rng.randint(1, 900)]])
        return [kind, n, sides] + ([node[3], rng.choice([0, 1, n // 2, max(0, n - 1), n, n + 1])] if kind == "dk" else [])
    return [enlarge(rng, child) if isinstance(child, list) else child for child in node]


def run(case, mon):
    import random

    lines = parse_lines(case["lines"])
    expected = R.program_cost(lines)
    if any(R.size(l[-1]) > 1 for l in lines) or len(lines) > 1:
        mon.nontrivial(gen.program_shape(lines))
    if case["huge"]:
        mon.event("huge_programs")
    if any(R.names_in(l[-1]) for l in lines):
        mon.event("variable_reads")
    if case.get("nested"):
        mon.event("nested_assignments")
    mon.event("estimates_compared")
    seen = core.observe(core.new_interpreter().get_estimated_cost, case["lines"])
    if not mon.check(seen[0] == "ok" and seen[1] == expected, "estimated cost", seen=seen[1:3], expected=expected, program=case["lines"]):
        return
    one = core.new_interpreter()
    parts = [core.observe(one.get_estimated_cost, [text]) for text in case["lines"]]
    mon.event("additive_checks")
    mon.check(all(p[0] == "ok" for p in parts) and sum(p[1] for p in parts) == expected, "line estimates do not add up to the program's",
              seen=[p[1:2] for p in parts], expected=expected, program=case["lines"])
    rng = random.Random(case["salt"])
    respaced = [R.line_text(line, rng) for line in lines]
    seen = core.observe(core.new_interpreter().get_estimated_cost, respaced)
    mon.check(seen[0] == "ok" and seen[1] == expected, "estimated cost of the re-spaced program", seen=seen[1:3], expected=expected, program=respaced)
    mon.sample({"program": case["lines"], "cost": expected})
