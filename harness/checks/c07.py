"""C07: max() and min() are the ends of the possible outcomes."""
import core
import gen
import refmodel as R
from common import entangled, parse_lines, run_program, sized_program

RULE = ("straight-line programs evaluated with max() and min(), whole or line by line; stdout and every variable must be the largest / "
        "smallest value the exact joint distribution allows, and what the distribution reports; non-trivial: more than one possible "
        "outcome; distinct by program structure")
REQUIRED = ["extremes_compared", "programs_with_minmax", "programs_with_negatives", "nested_assignments"]
DIRECTED = [
    ["VAR a_name = d6 + 10", "VAR b_name = d6 - 10"], ["VAR a = d6", "MAX(a, 7 - a)"], ["VAR a = d6", "a - a"], ["VAR a = dF", "a * a"],
    ["VAR a = dF", "VAR b = a * -1", "a + b"], ["(d3 - 2) * (d3 - 2)"], ["d6 // -2"], ["ABS(d6 - 4)"], ["!(d6 - 3)"], ["d6 > 7"], ["d6 < 7"],
    ["3d[-4,2]k2"], ["3d[-4,2]d2"], ["4dFd1"], ["MIN(d6, 3) - MAX(d4, 2)"], ["VAR a = d6 - 3", "VAR b = ABS(a)", "b - a"], ["0d6"], ["3d6d3"],
    ["VAR a = d6", "VAR a = 10 - a", "a"], ["(d6 - 3) AND (d6 - 3)"], ["(d6 - 7) OR (dF)"], ["d[-5--2] * d[-5--2]"], ["-3 // 2"],
    ["ABS(d[-30-40])"], ["ABS(d[-40-30])"], ["ABS(d[-30,40])"], ["ABS(d[-40,30])"], ["ABS(d[3,-40])"], ["ABS(d[-9--4])"], ["ABS(d[-9,4,6])"], ["ABS(2d[-9,4,6])"], ["ABS(100d2 - 120)"],
    ["d[-30-40] * d[-7-3]"], ["d[-3-4] * d[-7--3]"], ["d[-3--4] * d[3-7]"], ["(d8 - 3) * (d8 - 6) * (d4 - 3)"], ["d[-30-40] // d[-7--3]"], ["d[-30-40] // d[-3,2]"], ["d[-7,5] // d[-2,3]"], ["20 // d[-5,-1,1,5]"],
    ["(d9 - 5) // d[-2,-1,1,2]"], ["d% - d%"], ["d% * -1"], ["-1 * d[-3,7]"], ["d[5,-5] - d[9,-9]"], ["d6 == 7"], ["d6 != 7"], ["d6 == d1"], ["1 == 1"], ["1 != 1"], ["d6 > 6"], ["d6 >= 6"], ["d6 >= 7"],
    ["d6 <= 0"], ["d6 < 1"], ["d6 < 2"], ["d6 <= 1"], ["d6 > 0"], ["d6 >= 1"], ["d2 == 1"], ["d4 != d4"], ["d1 == d1"], ["d1 != d1"], ["d[1,3] == d[2,4]"], ["d[1,3] != d[2,4]"], ["d[1,3] == d[3,5]"],
    ["d[2,4] < d[5,7]"], ["d[2,4] < d[1,2]"], ["d[2,4] <= d[1,2]"], ["d[2,4] >= d[4,9]"], ["d[2,4] > d[4,9]"], ["(d6 > 6) AND (d6 > 0)"], ["(d6 > 6) OR (d6 > 0)"], ["(d6 > 3) AND 1"], ["(d6 > 3) OR 0"], ["(d6 > 0) OR (d6 > 3)"],
    ["5 AND 3"], ["4 AND 3"], ["2 AND 1"], ["d[2,4] AND d[1,5]"], ["d4 AND d4"], ["-1 AND -1"], ["-1 OR 1"], ["-1 OR -2"], ["0 OR 0"], ["!-3"], ["!5"], ["!d[-3,5]"], ["!d[3,5]"], ["!d[-3,-5]"], ["!(d6 > 3)"],
    ["MAX(d4, d[-7,9])"], ["MIN(d4, d[-7,9])"], ["MAX(d[-7,9], d4)"], ["MAX(d[-7--2], -4)"], ["MIN(d[-7--2], -4)"], ["MAX(MIN(d4, 2), MIN(d6, 3))"], ["10d[-4,2]k3"], ["10d[-4,2]d3"], ["6d[-3--1]k2"], ["6d[-3--1]d2"],
    ["6d[-3--1]k9"], ["6d[-3--1]d9"], ["3d[5,9]k0"], ["3d[5,9]d0"], ["0d[5,9]k1"], ["0d[-5]"], ["100d6"], ["99dF"], ["40d[-1000,1]"], ["d[1*0,5,6*0]"], ["d[3*0,2]"], ["d[9007199254740993,9007199254740992]"],
    ["d[-9007199254740993,5] * d[9007199254740993,7]"], ["d[-9007199254740993,9007199254740992] // 3"], ["ABS(d[-9007199254740993,9007199254740992])"], ["True"], ["False"], ["True - d[0,4]"], ["(1)"], ["( d[-3,9] )"],
    ["VAR a = d[-3,9]", "VAR b = a * a", "b - a"], ["VAR a = d[-3,9]", "a * a - 10 * a"], ["VAR a = d[1,4]", "VAR b = d[2,3]", "(a - b) * (b - a)"], ["VAR a = d4", "VAR b = d4", "(a == b) * (a + b)"],
    ["VAR a = d10", "(a - 5) * (a - 5)"], ["VAR a = d10", "VAR b = (a > 5) * a", "b - a"], ["VAR a = d[-2,5]", "ABS(a) - a"], ["VAR a = d4", "VAR b = a", "VAR a = d6", "b - a"], ["VAR a = d4", "VAR a = a * a - 5 * a", "a"],
    ["VAR a = d4", "VAR b = d6", "VAR c = a + b", "c - a", "c - b"], ["VAR a = 3d2k2", "a - 2"], ["VAR a = d[-4-4]", "a * (a == ABS(a))"], ["VAR a = d20", "(a >= 11) * 5 - (a < 11) * 7 + a"],
    ["VAR a = 3", "a * a", "VAR b = a - d4", "b"], ["VAR a = d2", "VAR b = d2", "VAR c = d2", "a * b * c - a - b - c"],
]


# assignments inside an expression: (program, what max and min are recorded to report instead (finding K-NESTED), if wrong)
NESTED = [
    (["VAR a = VAR b = d6", "a - b"], {"a": 6, "b": 6, "stdout": 5}, {"a": 1, "b": 1, "stdout": -5}),
    (["(VAR a = d6) + 1"], {"stdout": 7}, {"stdout": 2}), (["(VAR a = d6) - a"], {"stdout": 5}, {"stdout": -5}),
    (["MAX(VAR a = d6, a + 1)", "a"], None, None), (["VAR a = VAR b = VAR c = d[-2,7]"], None, None), (["VAR a = (VAR b = d4 - 2)", "b"], None, None),
    (["VAR a = 1 + (VAR b = d6)"], {"a": 7, "stdout": 7}, {"a": 2, "stdout": 2}), (["VAR a = ABS(VAR b = d6)", "a + b"], {"a": 6, "stdout": 12}, {"a": 1, "stdout": 2}),
    (["VAR a = 2", "(VAR a = d6) + 1", "a"], {"a": 2, "stdout": 2}, {"a": 2, "stdout": 2}), (["MIN(VAR a = d6, VAR b = d4)", "b"], None, None),
]


def run_nested(case, mon):
    program, *recorded = NESTED[case["nested"]]
    lines, _ = R.hoist(parse_lines(program))
    ref, joint, _ = run_program(lines, 10 ** 7)
    for mode, pick, old in (("max", max, recorded[0]), ("min", min, recorded[1])):
        want = {name: pick(joint.marginal(name)) for name in joint.names()}
        want["stdout"] = pick(ref[-1][0])
        seen = core.observe(getattr(core.new_interpreter(), mode), program)
        mon.event("nested_assignments")
        mon.nontrivial((mode, program))
        if seen[0] == "ok" and old is not None and seen[1] == old != want:
            mon.event("oracle_decisions")
            mon.finding("K-NESTED", "%s of %s" % (mode, " ; ".join(program)))
            continue
        mon.check(seen[0] == "ok" and seen[1] == want, "%s() of a program with an assignment inside an expression" % mode, seen=seen[1:3], expected=want, program=program)


def cases(rng, tier, shard, nshards, impl):
    for index in range(shard, len(NESTED), nshards):
        yield {"nested": index}
    for texts in DIRECTED[shard // 2::nshards // 2]:
        for mode in ("max", "min"):
            yield {"lines": texts, "mode": mode, "whole": shard % 2 == 0}
    for i in range(400 if tier == "quick" else 3000):
        yield {"lines": entangled(rng), "mode": rng.choice(["max", "min"]), "whole": rng.random() < 0.5}
    for i in range(700 if tier == "quick" else 3000):
        lines = sized_program(rng, 3000 if tier == "quick" else 12000, nontrivial=False, n_lines=rng.randint(1, 5),
                              depth=rng.choice([1, 2, 2, 3]), max_faces=rng.choice([2, 4, 6]), reassign=0.3)
        if rng.random() < 0.35:  # spread the constants and sides out
            lines = stretch(rng, lines)
            try:
                ref, _, _ = run_program(lines, 12000)
            except R.TooBig:
                continue
            if R.ZDE in ref[-1][0]:
                continue
        yield {"lines": gen.texts(lines), "mode": rng.choice(["max", "min"]), "whole": rng.random() < 0.5}


def stretch(rng, lines):
    """The same program with other numbers in it: far apart, of either sign."""
    def change(node):
        kind = node[0]
        if kind == "int":
            return ["int", rng.choice([node[1], -node[1], rng.randint(-60, 60), rng.choice([-1, 1]) * 10 ** rng.randint(2, 17)])]
        if kind in ("dice", "dk") and rng.random() < 0.6:
            span = rng.choice([9, 40, 1000])
            sides = ["c", [[rng.randint(-span, span), None, rng.choice([None, None, 2])] for _ in range(rng.randint(1, 4))]]
            return node[:2] + [sides] + node[3:]
        return [change(child) if isinstance(child, list) and kind not in ("dice", "dk") else child for child in node]

    return [line[:-1] + [change(line[-1])] for line in lines]


def run(case, mon):
    if "nested" in case:
        return run_nested(case, mon)
    lines = parse_lines(case["lines"])
    ref, joint, _ = run_program(lines, 10 ** 7)
    mode = case["mode"]
    pick = max if mode == "max" else min
    if any(len(m) > 1 for m, _ in ref):
        mon.nontrivial((mode, gen.program_shape(lines)))
    if any(k.startswith("mm") for l in lines for k in R.kinds_in(l[-1])):
        mon.event("programs_with_minmax")
    if any(v < 0 for m, _ in ref for v in m):
        mon.event("programs_with_negatives")
    # expected value of every line, and what the recorded interval rule (K-MINMAX) would say
    exact, old, clean, legacy = [], [], {}, {}
    world = R.Joint()
    for line in lines:
        marginal, per_world = world.eval(line[-1])
        support = lambda node: [v for v in world.eval(node)[0]]
        exact.append(pick(marginal))
        old.append(R.structural_extreme(line[-1], mode, legacy, support))
        if line[0] == "var":
            world.assign(line[1], per_world)
            clean[line[1]], legacy[line[1]] = exact[-1], old[-1]
    interpreter = core.new_interpreter()
    steps = [(case["lines"], len(lines) - 1)] if case["whole"] else [([t], i) for i, t in enumerate(case["lines"])]
    for texts, index in steps:
        seen = core.observe(getattr(interpreter, mode), texts)
        mon.event("extremes_compared")
        if not mon.check(seen[0] == "ok" and isinstance(seen[1], dict), "%s raised" % mode, seen=seen[1:3], program=case["lines"]):
            return
        got = dict(seen[1])
        if index == len(lines) - 1:
            want, bad = dict(clean, stdout=exact[index]), dict(legacy, stdout=old[index])
        else:
            want, bad, got = {"stdout": exact[index]}, {"stdout": old[index]}, {"stdout": got.get("stdout")}
        if got != want and got == bad:
            mon.event("oracle_decisions")
            mon.finding("K-MINMAX", "%s of %s" % (mode, " ; ".join(case["lines"][:index + 1])))
            continue
        if not mon.check(got == want, "%s() after line %d" % (mode, index + 1), seen=got, expected=want, program=case["lines"]):
            return
    mon.sample({"program": case["lines"], "mode": mode, "value": exact[-1]})
