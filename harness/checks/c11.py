"""C11: division by zero is reported exactly when it can happen / did happen."""
import core
import gen
import refmodel as R
from c06 import bad_cells
from common import entangled, parse_lines, run_program

RULE = ("programs with integer divisions whose divisors are constants, dice, comparisons, keep/drop, or (correlated) variables; "
        "distribution, average, max and min must raise ZeroDivisionError iff a divisor has zero among its possible values; a roll must "
        "raise iff the divisor just rolled is zero (checked by membership, and by frequency for directed programs); non-trivial: a "
        "divisor that depends on dice; distinct by program structure and outcome")
REQUIRED = ["raised_as_required", "did_not_raise_as_required", "roll_zero_seen", "roll_ok_seen", "state_checked"]

DIRECTED = [
    ["1 // 0"], ["0 // 1"], ["d6 // (d6 - 1)"], ["d6 // (d6 - 7)"], ["6 // dF"], ["6 // ABS(dF)"], ["6 // (dF * 2 + 3)"], ["10 // (d4 > 2)"],
    ["10 // ((d4 > 2) + 1)"], ["10 // (d4 > 0)"], ["10 // (d4 > 4)"], ["1 // (d[0*3,1] + 0)"], ["1 // 3d6k0"], ["1 // 3d[0,1]k1"], ["1 // 3d[0,1]d2"],
    ["VAR a = d3", "6 // (a - 1)"], ["VAR a = d3", "6 // (a - a)"], ["VAR a = d3", "6 // (a - a + 1)"], ["VAR a = d3", "VAR b = 4 - a", "6 // (a + b - 4)"],
    ["VAR a = d3", "VAR b = 4 - a", "6 // (a + b - 3)"], ["VAR a = d2 - 1", "VAR b = !a", "6 // (a + b)"], ["VAR a = d2 - 1", "VAR b = !a", "6 // (a * b)"],
    ["VAR a = dF", "(a + 5) // (a == a)"], ["VAR a = dF", "a // (a + 2)"], ["MAX(1 // d2, 6 // (d2 - 1))"], ["5 + 6 // (d2 - 1) * 0"], ["(1 // (d2 - 1)) // 1"],
    ["1 // (6 // d6)"], ["1 // (6 // d8)"], ["7 // MIN(d4, 0)"], ["7 // MAX(d4, 0)"], ["7 // !(d4 > 2)"], ["7 // d1"], ["7 // (0d6 + 1)"], ["7 // 0d6"], ["!(1 // (d2 - 1))"],
    ["VAR a = d6 // (d2 - 1)", "1"],
    ["5 // d[-1,1]"], ["5 // d[-3-3]"], ["5 // d[-3--1,1-3]"], ["5 // d[3--3]"], ["5 // 2d[-1,1]"], ["5 // 3d[-1,1]"], ["5 // d[-1000,1000]"], ["5 // (d[-1000,1000] + 1000)"], ["5 // d[0*0,1]"], ["5 // d[0*1,1*99]"],
    ["d[-9,9] // d[-2,-1,1,2]"], ["-9 // d[-2,-1,1,2]"], ["0 // 0"], ["0 // dF"], ["0 // d[0,1]"], ["(d2 - 1) // (d2 - 1)"], ["1 // False"], ["1 // True"], ["1 // (1 == 2)"], ["1 // (d6 == 7)"], ["1 // (d6 != 7)"],
    ["1 // (d1 - 1)"], ["1 // (d6 - d6)"], ["1 // (2d6 - 2)"], ["1 // (2d6 - 1)"], ["1 // (2d6 - 12)"], ["1 // (2d6 - 13)"], ["1 // (d[2,4] - 3)"], ["1 // (d[2,4] - 2)"], ["1 // (d[2,4] * 0)"], ["1 // (d[2,4] // 3)"],
    ["1 // ABS(d[-4,4])"], ["1 // ABS(d[-4,0])"], ["1 // !d[-4,4]"], ["1 // !d[-4,-5]"], ["1 // !d[4,5]"], ["1 // ((d4 > 2) OR (d4 < 3))"], ["1 // ((d4 > 4) OR (d4 < 1))"], ["1 // MIN(d4, 1)"],
    ["1 // MIN(d4 - 1, 1)"], ["1 // MAX(d4 - 4, 1)"], ["1 // MAX(d4 - 4, -1)"], ["1 // 4d[-1,1]k2"], ["1 // 4d[-1,1]k3"], ["1 // 4d[0,5]d3"], ["1 // 4d[1,5]d4"], ["1 // 4d[1,5]k0"], ["1 // (d6 // 7)"], ["1 // (0 - d6 // 7)"],
    ["1 // ((0 - d6) // 7)"], ["(1 // d2) // (d2 // d1)"], ["(1 // (d3 - 2)) * 0 + 1"], ["0 * (1 // (d3 - 2))"], ["False AND (1 // (d3 - 2) > 5)"], ["True OR (1 // (d3 - 2) > 5)"], ["MAX(100, 1 // (d3 - 2))"],
    ["(1 // (d3 - 2)) == (1 // (d3 - 2))"], ["ABS(4 // dF)"], ["VAR a = dF", "VAR b = a * a + 1", "6 // b"], ["VAR a = dF", "VAR b = a * a", "6 // b"], ["VAR a = dF", "VAR b = (a == 0)", "6 // (a + b)"],
    ["VAR a = dF", "VAR b = (a == 0)", "6 // (a * b + 1)"], ["VAR a = d4", "VAR b = d4", "6 // (a - b)"], ["VAR a = d4", "VAR b = d4 + 4", "6 // (a - b)"], ["VAR a = d4", "VAR b = d4 + 4", "6 // (b - a)"],
    ["VAR a = d4", "VAR a = a - 4", "6 // a"], ["VAR a = d4", "VAR a = a - 5", "6 // a"], ["VAR a = 0", "VAR b = 6 // a", "1"], ["VAR a = 0", "VAR a = 2", "6 // a"], ["VAR a = 2", "VAR a = 0", "6 // a"],
    ["VAR a = d3", "a // a"], ["VAR a = d3 - 1", "a // a"], ["VAR a = d3", "VAR b = a // a", "VAR c = b - 1", "1 // c"], ["VAR a = d10", "VAR b = a > 5", "VAR c = a < 6", "10 // (b + c)"], ["VAR a = d10", "VAR b = a > 5", "VAR c = a < 5", "10 // (b + c)"],
    ["VAR a = d2", "VAR b = d2", "VAR c = d2", "9 // (a + b + c - 3)"], ["VAR a = d2", "VAR b = d2", "VAR c = d2", "9 // (a + b + c - 2)"], ["VAR a = d2", "VAR b = a", "VAR a = d2", "9 // (a - b)"], ["VAR a = d2", "VAR b = a", "VAR a = 3", "9 // (a - b)"],
    ["9007199254740993 // (9007199254740993 - 9007199254740992)"], ["9007199254740993 // (d[9007199254740993,9007199254740992] - 9007199254740992)"], ["1 // d200"], ["1 // (d200 - 150)"], ["1 // (50d2 - 75)"], ["1 // (50d2 - 49)"], ["1 // 60dF"],
    ["5 // d[0,1*10000000000000]"], ["5 // d[0,1*1%s]" % ("0" * 290)], ["5 // d[0*1%s,1]" % ("0" * 290)], ["5 // 9d[0,1*1000]"], ["1 // (30d6 - 30)"], ["1 // (30d6 - 180)"], ["1 // (30d6 - 181)"], ["1 // (25d20 - 25)"], ["1 // (12d%k1 - 1)"],
    ["VAR a = d[0,1*1000000000000000000]", "6 // a"], ["VAR a = d[3,1*1000000000000000000]", "VAR b = a - 3", "6 // (b * 2)"], ["VAR a = d[0,1*1000000000000000]", "VAR b = d[0,1*1000000000000000]", "VAR c = a OR b", "6 // c"],
]


def cases(rng, tier, shard, nshards, impl):
    for i, texts in enumerate(DIRECTED):
        if i % nshards == shard:
            yield {"lines": texts, "rolls": 3000 if tier == "quick" else 30000, "freq": True}
    for i in range(150 if tier == "quick" else 2500):
        while True:
            texts = entangled(rng, 2500, allow_zde=True, and_too=False)
            if any("//" in t for t in texts):
                break
        yield {"lines": texts, "rolls": 25, "freq": False}
    made = 0
    while made < (450 if tier == "quick" else 3500):
        lines = gen.program(rng, rng.randint(1, 4), rng.choice([1, 2, 3]), rng.choice([2, 3, 4]), uniform=rng.random() < 0.5)
        node = lines[-1][-1]
        names = sorted({l[1] for l in lines[:-1] if l[0] == "var"})
        if rng.random() < 0.6:
            divisor = gen.fix_not(gen.expr(rng, rng.choice([0, 1, 1, 2]), names, 3, True, 0.7, division=False))
            node = ["bin", "//", paren(node), paren(divisor)]
            if rng.random() < 0.4:
                node = rng.choice([["bin", "+", node, ["int", 1]], ["abs", node], ["mm", "MAX", node, ["int", 0]], ["par", node], ["not", node],
                                   ["bin", "==", ["par", node], ["int", 1]], ["bin", "*", node, ["int", 0]]])
            lines[-1] = lines[-1][:-1] + [node]
        if not any("bin://" in R.kinds_in(l[-1]) for l in lines):
            continue
        if any("bin:AND" in R.kinds_in(l[-1]) for l in lines):
            continue
        try:
            ref, _, _ = run_program(lines, 2500)
        except R.TooBig:
            continue
        if max([abs(v) for m, _ in ref for v in m if v != R.ZDE] or [0]) > 10 ** 9:
            continue
        if rng.random() < 0.25:
            from c07 import stretch

            lines = stretch(rng, lines)
            try:
                ref, _, _ = run_program(lines, 2500)
            except R.TooBig:
                continue
        made += 1
        yield {"lines": gen.texts(lines), "rolls": 25, "freq": False}


def paren(node):
    return ["par", node]


def run(case, mon):
    lines = parse_lines(case["lines"])
    ref, joint, legacy = run_program(lines, 10 ** 7)
    last = len(ref) - 1
    fails = R.ZDE in ref[last][0]
    mon.nontrivial((gen.program_shape(lines), fails))
    detail = {"program": case["lines"]}
    # distribution based modes
    for mode in ("get_probability_distributions", "get_average", "get_probability_distributions_dict", "max", "min"):
        interpreter = core.new_interpreter()
        seen = core.observe(getattr(interpreter, mode), case["lines"])
        if fails:
            mon.event("raised_as_required")
            if not mon.check(core.is_exc(seen, "ZeroDivisionError"), "%s must raise ZeroDivisionError: a divisor can be zero" % mode, seen=seen[1:3], **detail):
                return
            target = lines[last][1] if lines[last][0] == "var" else None
            if target and target not in {l[1] for l in lines[:last] if l[0] == "var"}:
                mon.event("state_checked")
                probe = core.observe(getattr(interpreter, mode), [target])
                mon.check(core.is_exc(probe, "KeyError"), "%s was assigned although its line failed" % target, seen=probe[1:3], **detail)
        else:
            mon.event("did_not_raise_as_required")
            if not mon.check(seen[0] == "ok", "%s must not raise: no divisor can be zero" % mode, seen=seen[1:3], **detail):
                return
            if mode == "get_probability_distributions":
                got = core.observe(lambda: dict(seen[1]["stdout"].get_result_map()))
                mon.check(got[0] == "ok" and set(got[1]) == set(ref[last][0]), "possible outcomes of a division", seen=got[1:3],
                          expected=sorted(ref[last][0]), **detail)
    # rolling
    interpreter = core.new_interpreter()
    if case["freq"] and len(lines) <= 2:
        frequency(case, lines, interpreter, mon)
    for _ in range(25):
        env = {}
        for line, text in zip(lines, case["lines"]):
            exact = R.dist(line[-1], env)
            seen = core.observe(interpreter.roll, [text])
            if core.is_exc(seen, "ZeroDivisionError"):
                value = R.ZDE
                mon.event("roll_zero_seen")
            elif seen[0] == "ok":
                value = seen[1]["stdout"]
                mon.event("roll_ok_seen")
            else:
                mon.check(False, "roll raised something else", seen=seen[1:3], line=text, values=env, **detail)
                return
            if not mon.check(value in exact, "roll gave %r, which is impossible" % (value,), line=text, values=env, possible=list(exact), **detail):
                return
            if value == R.ZDE:
                break
            if line[0] == "var":
                env[line[1]] = value
    mon.sample({"program": case["lines"], "can_fail": fails})


def frequency(case, lines, interpreter, mon):
    """Rolls of the whole program, the division error counted as one more outcome."""
    worlds, expected = {(): 1}, {}
    for i, line in enumerate(lines):
        nxt = {}
        for world, weight in worlds.items():
            d = R.dist(line[-1], dict(world))
            total = sum(d.values())
            for v, p in d.items():
                p = weight * p / total
                if v == R.ZDE or i == len(lines) - 1:
                    expected[v] = expected.get(v, 0) + p
                else:
                    env = dict(world)
                    if line[0] == "var":
                        env[line[1]] = v
                    key = tuple(sorted(env.items()))
                    nxt[key] = nxt.get(key, 0) + p
        worlds = nxt
    counter = {}
    for _ in range(case["rolls"]):
        seen = core.observe(interpreter.roll, case["lines"])
        if core.is_exc(seen, "ZeroDivisionError"):
            value = R.ZDE
        elif seen[0] == "ok":
            value = seen[1]["stdout"]
        else:
            value = "raised " + seen[1]
        counter[value] = counter.get(value, 0) + 1
    total = sum(expected.values())
    expected = {k: min(1.0, v / total) if len(expected) > 1 else 1.0 for k, v in expected.items()}
    problems = bad_cells(counter, case["rolls"], expected, mon, "frequency_cells")
    mon.check(not problems, "how often rolling divides by zero refutes the calculated probability", program=case["lines"], cells=problems[:6])
