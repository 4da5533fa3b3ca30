"""C04: a variable stands for one shared random value (exact joint semantics)."""
import core
import gen
import refmodel as R
from common import compare_known, entangled, nested, parse_lines, run_program, sized_program

RULE = ("straight-line programs of 2..7 lines with assignments, re-assignments (also in terms of themselves), chains and several "
        "uses of a variable in one expression; oracle enumerates worlds (one value per variable); half of the programs use "
        "uniform variables only, where the recorded weighting defect cannot show; non-trivial: a variable is read; "
        "distinct by program structure")
REQUIRED = ["distributions_compared", "programs_whole", "programs_line_by_line", "repeated_uses", "reassignments", "uniform_programs", "nested_assignments"]
DIRECTED = [
    ["VAR a = d6", "a - a"], ["VAR a = d6", "a + a"], ["VAR a = d6", "a == a"], ["VAR a = d6", "VAR b = a", "a - b"],
    ["VAR a = d6", "VAR a = a + 1", "a - a"], ["VAR a = d6", "VAR b = a + 1", "VAR a = d6", "b - a"],
    ["VAR a = d4", "VAR b = a // 2", "VAR c = a - b * 2", "a == b * 2 + c"], ["VAR a = d2", "VAR b = d2", "(a + b) * (a - b)"],
    ["VAR a = d6", "VAR b = 7 - a", "MAX(a, b) + MIN(a, b)"], ["VAR a = d4", "(a == 1) + (a == 2) + (a == 3) + (a == 4)"],
    ["VAR a = dF", "ABS(a) * ABS(a) - a * a"], ["VAR a = d3", "!(a > 2) + (a > 2)"], ["VAR a = d3", "(!(a > 2)) + (a > 2)"],
    ["VAR a = 2d2", "a + a"], ["VAR a = 2d2", "a"], ["VAR a = 2d2", "a + d2"], ["VAR a = d[1*3,2]", "a * a"],
    ["VAR save_roll = d20", "VAR damage = d6 + 10", "VAR pass_save = ( save_roll >= 10 )", "damage // (pass_save + 1)"],
    ["VAR a = d2", "VAR a = a + d2", "VAR a = a + d2", "a"], ["VAR a = d3", "VAR b = a", "VAR c = b", "VAR a = d3", "(b == c) + (a == c)"],
    ["VAR a = d2", "VAR a_ = d2", "VAR a__ = d2", "a + a_ * 10 + a__ * 100"],
    ["VAR a = d2", "VAR b = d2", "VAR c = a + b", "VAR d = a - b", "c + d - 2 * a"],
    ["VAR a = d2", "VAR x = a"] + ["VAR a = d2"] * 10 + ["x * 10 + a"],
    ["VAR a = d2", "VAR x = a"] + ["VAR a = d2"] * 9 + ["VAR y = a", "VAR a = d2", "x * 100 + y * 10 + a"],
    ["VAR a = d3"] + ["VAR a = a + 1"] * 12 + ["a - a"],
    ["VAR a = d2", "VAR b = d2", "VAR c = d2", "VAR d = d2", "VAR e = d2", "a + b * 2 + c * 4 + d * 8 + e * 16", "(a + b + c) - (a + b + c)"],
    ["VAR a = d300", "a - a"], ["VAR a = d[1000,-1000,257]", "VAR b = a", "a == b"],
    ["VAR a = 5", "VAR a = a + d4", "VAR b = a", "VAR a = 1", "a + b"],
]


def scaled(tier):
    """Long histories: a copy kept across many re-assignments, long self-referring chains, many variables, long names."""
    for n in list(range(1, 41)) + [47, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300]:
        yield ["VAR a = d2", "VAR x = a"] + ["VAR a = d2"] * n + ["x * 10 + a"]
    for n in (15, 16, 17, 31, 32, 33, 50, 64):
        yield ["VAR a = 1"] + ["VAR a = a + 1"] * n + ["a - a + d2"]
    for n in (5, 8, 12, 15):
        yield ["VAR a = d2"] + ["VAR a = 3 - a"] * n + ["a * 2 - a"]
    for n in (3, 10, 25, 26, 60, 130):
        names = ["v" + "".join("ab"[(i >> b) & 1] for b in range(8)) for i in range(n)]
        dice = {names[0], names[n // 2], names[-1]} if n > 10 else set(names)
        yield ["VAR %s = %s" % (name, "d2" if name in dice else "7") for name in names] + ["%s * 4 + %s * 2 + %s" % (names[0], names[n // 2], names[-1]), "%s - %s" % (names[-1], names[-1])]
        yield ["VAR %s = %d" % (name, i) for i, name in enumerate(names)] + ["VAR z = d2", "z - z + %s - %s" % (names[-1], names[0])]
    for n in (5, 9, 17, 25, 33, 65, 129, 257):
        stem = "long_variable_name_" * 14
        yield ["VAR %sa = d2" % stem[:n], "VAR %sb = d2" % stem[:n], "%sa * 10 + %sb" % (stem[:n], stem[:n]), "%sa - %sa" % (stem[:n], stem[:n])]
        yield ["VAR a%s = d2" % stem[:n], "VAR b%s = d2" % stem[:n], "VAR c%s = a%s" % (stem[:n], stem[:n]), "a%s - c%s + b%s" % (stem[:n], stem[:n], stem[:n])]
    for big in (255, 256, 257, 1000, 65536, 2 ** 31, 2 ** 63, 10 ** 20):
        yield ["VAR a = d[%d,-%d,%d]" % (big, big, big + 1), "VAR b = a", "a - b", "a == b", "a * a"]
    for n in (3, 9, 10, 11, 33, 101):
        yield ["VAR a = d2"] + ["a + %d" % i for i in range(n)] + ["VAR b = a", "b - a"]


def cases(rng, tier, shard, nshards, impl):
    for i, texts in enumerate(scaled(tier)):
        if i % nshards == shard:
            yield {"lines": texts, "whole": i % 3 != 0}
    if shard in (0, 1):
        for texts in DIRECTED:
            yield {"lines": texts, "whole": shard == 0}
    for i in range(300 if tier == "quick" else 3000):
        yield {"lines": entangled(rng), "whole": rng.random() < 0.6, "chunk": rng.choice([None, 2])}
    for i in range(120 if tier == "quick" else 1500):
        yield {"lines": nested(rng), "whole": rng.random() < 0.6, "nested": True}
    total = 900 if tier == "quick" else 3000
    cap = 3000 if tier == "quick" else 15000
    for i in range(total):
        uniform = i % 2 == 0
        names = rng.choice([None, None, ["a", "a_", "a__", "b"]])
        if rng.random() < 0.12:  # long histories of a few variables
            lines = sized_program(rng, cap, n_lines=rng.randint(10, 18), depth=1, max_faces=2, uniform=uniform, names=names, reassign=0.8)
            yield {"lines": gen.texts(lines), "whole": rng.random() < 0.6}
            continue
        lines = sized_program(rng, cap, n_lines=rng.randint(2, 7), depth=rng.choice([1, 2, 2, 3]), max_faces=rng.choice([2, 3, 4, 6]),
                              uniform=uniform, names=names, reassign=rng.choice([0.1, 0.3, 0.6]))
        yield {"lines": gen.texts(lines), "whole": rng.random() < 0.6, "chunk": rng.choice([None, 2, 3])}


def run(case, mon):
    lines = parse_lines(case["lines"])
    if case.get("nested"):
        mon.event("nested_assignments")
        flat, where = R.hoist(lines)
        exact, joint, _ = run_program(flat, 10 ** 7)
        legacy, ref = R.Legacy(10 ** 7), []
        for line, at in zip(lines, where):
            old = legacy.eval(line[-1])
            if line[0] == "var":
                legacy.assign(line[1], old)
            ref.append((exact[at][0], R.Legacy.marginal(old)))
    else:
        ref, joint, legacy = run_program(lines, 10 ** 7)
    mon.nontrivial(gen.program_shape(lines))
    if case["whole"]:
        mon.event("programs_whole")
    else:
        mon.event("programs_line_by_line")
    uses, seen_names = 0, set()
    for line in lines:
        names = [n for n in flat_names(line[-1])]
        uses = max([uses] + [names.count(n) for n in names])
        if line[0] == "var":
            if line[1] in seen_names:
                mon.event("reassignments")
            seen_names.add(line[1])
    if uses > 1:
        mon.event("repeated_uses")
    if all(R.normal(m) == R.normal(l) for m, l in ref):
        mon.event("uniform_programs")
    interpreter = core.new_interpreter()
    if case["whole"]:
        steps = [(case["lines"], len(lines) - 1)]
    else:
        steps, at = [], 0
        while at < len(lines):
            size = 1 if case.get("chunk") is None else min(case["chunk"], len(lines) - at)
            steps.append((case["lines"][at:at + size], at + size - 1))
            at += size
    for texts, index in steps:
        seen = core.observe(interpreter.get_probability_distributions, texts)
        maps = [("stdout", ref[index])]
        if index == len(lines) - 1:
            for name in sorted(joint.names()):
                maps.append((name, (joint.marginal(name), R.Legacy.marginal(legacy.vars[name]))))
        for key, (expected, old) in maps:
            got = core.observe(lambda: dict(seen[1][key].get_result_map())) if seen[0] == "ok" else seen
            compare_known(mon, got, expected, old, "K-NESTED" if case.get("nested") else "K-WEIGHT", " ; ".join(case["lines"][:index + 1]),
                          "%s after line %d" % (key, index + 1), program=case["lines"])
    mon.sample({"program": case["lines"], "worlds": len(joint.worlds)})


def flat_names(node):
    if node[0] == "name":
        return [node[1]]
    if node[0] in ("dice", "dk", "int", "bool"):
        return []
    return [n for c in node[1:] if isinstance(c, list) for n in flat_names(c)]
