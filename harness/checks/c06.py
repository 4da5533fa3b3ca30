"""C06: rolling draws from the calculated distribution."""
import random
from math import log

import core
import gen
import refmodel as R
from common import entangled, parse_lines

RULE = ("(a) random programs rolled line by line many times: each rolled value must be possible given the values just rolled; "
        "(b) programs rolled thousands of times: frequencies of outcomes, of variable tuples and of successive pairs against the "
        "exact probabilities, with a Chernoff bound that wrongly rejects with probability below 1e-9 per run; "
        "non-trivial: more than one possible outcome; distinct by program structure")
REQUIRED = ["coherence_rolls", "frequency_rolls", "frequency_cells", "pair_cells", "cumulative_cells", "token_rolls", "blocks_compared", "fresh_interpreter_rolls", "processes_compared"]

ALPHA = 1e-9
TESTS = 1e6  # upper bound on the number of cells tested in one run (Bonferroni)

FREQ = [
    ["d6"], ["2d6"], ["3d6k2"], ["3d6d2"], ["4d4k1"], ["4d4d1"], ["d%"], ["3dF"], ["d[1*9,2]"], ["2d[1*3,5,-2]"], ["3d[1*5,6]k1"],
    ["3d[1*5,6]d1"], ["d[1-3*2,1,4]"], ["10 * d6 + d6"], ["100 * d4 + 10 * d4 + d4"], ["d6 - d6"], ["d4 * d4"], ["2d10 // d3"],
    ["d6 == d6"], ["d6 != d6"], ["d6 < d6"], ["d6 <= d6"], ["d6 > d6"], ["d6 >= d6"], ["!(d6 > 4)"], ["(d6 > 3) AND (d6 > 3)"],
    ["(d6 > 3) OR (d6 > 3)"], ["MAX(d6, d6)"], ["MIN(d6, d6)"], ["ABS(d6 - d6)"], ["(dF) OR (dF)"], ["!(dF)"], ["dF AND dF"],
    ["d3 AND d3"], ["VAR a = d6", "a"], ["VAR a = d6", "a + a"], ["VAR a = d6", "VAR b = a", "a - b + d2"],
    ["VAR a = d4", "VAR b = d4", "VAR c = a + b", "c * 10 + a"], ["VAR a = d3", "VAR a = a * 10 + d3", "a * 10 + d3"],
    ["VAR a = 2d2", "VAR b = a == 3", "b * 10 + a"], ["0d6"], ["3d6k0"], ["3d6d3"], ["3d6k5"], ["True"], ["False"], ["-3"],
    ["VAR save = d20", "VAR dmg = 2d6", "dmg // ((save >= 10) + 1)"], ["d[0,0,1]"], ["5d2"], ["6d2k3"], ["6d2d3"],
    ["60d2"], ["100d2"], ["128dF"], ["200d2"], ["33d[1*3,2]"], ["70d[0*9,1]"], ["300d6"], ["1000d2"], ["20d2k10"], ["20d2d10"], ["40d[0*3,1]k12"], ["30d4d25"],
    ["64d[0*7,1]d3"], ["d1000"], ["d[1-500*3,1000]"], ["d[0*999,1]"], ["d[-1000000000000,1000000000000*2]"], ["d12 * d12 - d12"], ["2d% + 2d%"],
    ["d2 + d2 + d2 + d2 + d2 + d2 + d2 + d2 + d2 + d2 + d2 + d2"], ["MAX(MAX(d6, d6), MAX(d6, d6))"], ["MIN(3d6k1, 2d8)"], ["ABS(20d2 - 30)"],
    ["VAR a = 30d2", "VAR b = a - 45", "ABS(b) * 100 + (b > 0)"], ["VAR a = d4", "VAR a = a + d4", "VAR a = a + d4", "VAR a = a + d4", "a"],
    ["VAR a = d2", "VAR b = d2", "VAR c = d2", "VAR d = d2", "VAR e = d2", "a + b * 2 + c * 4 + d * 8 + e * 16"],
    ["d6", "d6", "d6 * 10 + d6"], ["VAR x = d8", "VAR y = 9 - x", "(x > y) * 10 + (x == 8)"], ["(d2 == 1) OR (d2 == 1) OR (d2 == 1)"], ["!(!(d3 - 2))"],
    ["VAR a = VAR b = d6", "a * 10 + b"], ["(VAR a = d4) * 10 + a"], ["MAX(VAR a = d4, a + d2) * 10 + a"], ["VAR a = (VAR b = d4) + d4", "b * 10 + a - b"], ["(VAR a = d3) + 10 * (VAR b = d3)", "VAR a = b", "a * 10 + b"], ["!(VAR a = d4 > 2)", "a"],
    ["MAX(2d4, d6) - MIN(d4, 2)"], ["d2 + d2 * 10 + d2 * 100 + d2 * 1000"], ["d[-5--2]"], ["2d[-2--5]k1"], ["1d1"],
]


def cases(rng, tier, shard, nshards, impl):
    rolls = 9000 if tier == "quick" else 24000
    for i, texts in enumerate(FREQ):
        if i % nshards == shard:
            yield {"kind": "freq", "lines": texts, "rolls": rolls}
    for i, texts in enumerate([["d6"], ["d%"], ["3d6k2"], ["d6 * 10 + d6"], ["VAR a = d8", "a * 10 + d8"], ["d[1*9,2,3]"], ["5dF"], ["d1000"]]):
        if i % nshards == shard:
            yield {"kind": "fresh", "lines": texts, "rolls": rolls // 3}
    for texts in [[["d1000"], ["VAR a = 2d20", "a * 100 + d100"], ["20d6k3"], ["d6"]][shard % 4]]:
        yield {"kind": "process", "lines": texts, "rolls": 40}
    for i, (text, times) in enumerate([("3000d2", 1500), ("2500d[0*3,1]", 1500), ("1100d6", 500), ("700dF", 700), ("5000d2", 800), ("300d[-1,0,5]", 900), ("600d2k1", 300), ("1500d4", 300)]):
        if i % nshards == shard:
            yield {"kind": "freq", "lines": [text], "rolls": times}
    if shard == 0:
        for zeros in (20, 150, 290, 320):
            for text in ["d[3*1%s,4*2%s]" % ("0" * zeros, "0" * zeros), "3d[3*1%s,4*2%s]k2" % ("0" * zeros, "0" * zeros)]:
                yield {"kind": "huge", "lines": [text], "rolls": 400}
    if tier == "thorough":
        for i, texts in enumerate(FREQ):
            if (i + 1) % nshards == shard:
                yield {"kind": "freq", "lines": texts, "rolls": rolls}
    for i in range(40 if tier == "quick" else 160):
        node = gen.keepdrop(rng, 9, 8) if i % 2 else ["dice", rng.choice([None, 1, 2, 3, 7, 20]), gen.sides(rng, 12)]
        if R.dice_dist(node) and len(R.dice_dist(node)) > 1:
            yield {"kind": "token" if i % 3 else "freq", "lines": [R.atom_text(node)], "rolls": rolls // 2}
    for i in range(12 if tier == "quick" else 80):
        node = gen.fix_not(gen.expr(rng, 2, (), 5, division=False, and_bias=False))
        if 1 < len(R.dist(node, {})) <= 400 and "bin:AND" not in R.kinds_in(node):
            yield {"kind": "token", "lines": [R.line_text(["expr", node])], "rolls": rolls // 2}
    for i in range(12 if tier == "quick" else 80):
        yield {"kind": "freq", "lines": gen.texts(small_program(rng, 60)), "rolls": rolls // 2}
    for i in range(60 if tier == "quick" else 400):
        yield {"kind": "coherence", "lines": entangled(rng, 2000, and_too=False), "rolls": 60}
    for i in range(150 if tier == "quick" else 800):
        yield {"kind": "coherence", "lines": gen.texts(small_program(rng, 4000)), "rolls": 60}


def small_program(rng, outcomes):
    while True:
        lines = gen.program(rng, rng.randint(1, 5), rng.choice([1, 2, 2, 3]), rng.choice([2, 4, 6]), division=False)
        if not any("bin:AND" in R.kinds_in(l[-1]) for l in lines) or rng.random() < 0.3:
            try:
                marginal, joint = expected_joint(lines)
            except R.TooBig:
                continue
            if 1 < len(marginal) <= outcomes:
                return lines


def expected_joint(lines, bitwise=False):
    """Exact distribution of (final variable values, stdout)."""
    joint, out = R.Joint(), {}
    for i, line in enumerate(lines):
        node = line[-1]
        per_world, work = [], 0
        for world, weight in joint.worlds.items():
            d = R.dist(node, dict(world), bitwise)
            work += len(d)
            if work > 20000:
                raise R.TooBig()
            per_world.append((world, weight, d))
        if i == len(lines) - 1:
            for world, weight, d in per_world:
                for v, p in d.items():
                    key = dict(world)
                    if line[0] == "var":
                        key[line[1]] = v
                    key["stdout"] = v
                    key = tuple(sorted(key.items()))
                    out[key] = out.get(key, 0) + weight * p
        if line[0] == "var":
            joint.assign(line[1], per_world)
    return out, joint


def kl(p, q):
    total = 0.0
    if p > 0:
        total += p * log(p / q)
    if p < 1:
        total += (1 - p) * log((1 - p) / (1 - q))
    return total


def rejects(hits, n, prob):
    """True when hits of n independent draws refute probability prob (two-sided Chernoff bound)."""
    if prob <= 0:
        return hits > 0
    if prob >= 1:
        return hits < n
    p = hits / n
    if abs(p - prob) < 1e-12:
        return False
    return n * kl(p, prob) > log(2 * TESTS / ALPHA)


def bad_cells(counter, n, expected, mon=None, event=None):
    total = sum(expected.values())
    bad = []
    for key in counter:
        if key not in expected:
            bad.append((key, counter[key], 0.0))
    cells = 0
    for key, weight in expected.items():
        cells += 1
        if rejects(counter.get(key, 0), n, weight / total):
            bad.append((key, counter.get(key, 0), weight / total))
    if mon is not None:
        mon.event(event, cells)
    return bad


def run(case, mon):
    lines = parse_lines(case["lines"])
    mon.nontrivial((case["kind"], gen.program_shape(lines)))
    interpreter = core.new_interpreter()
    if case["kind"] == "process":
        processes(case, lines, mon)
    elif case["kind"] == "coherence":
        coherence(case, lines, interpreter, mon)
    else:
        frequency(case, lines, interpreter, mon)
    mon.sample(case)


def coherence(case, lines, interpreter, mon):
    memo = {}
    for number in range(case["rolls"]):
        env = {}
        for index, (line, text) in enumerate(zip(lines, case["lines"])):
            seen = core.observe(interpreter.roll, [text])
            mon.event("coherence_rolls")
            if not mon.check(seen[0] == "ok" and "stdout" in seen[1], "roll of line %d raised" % (index + 1), seen=seen[1:3], program=case["lines"]):
                return
            value = seen[1]["stdout"]
            reads = R.names_in(line[-1])
            key = (index, tuple(sorted((n, env[n]) for n in reads)))
            if key not in memo:
                memo[key] = (R.dist(line[-1], env), R.dist(line[-1], env, True))
            exact, bitwise = memo[key]
            if value not in exact and value in bitwise:
                mon.event("oracle_decisions")
                mon.finding("K-AND", "%s with %s rolled %r" % (text, env, value))
            elif not mon.check(value in exact, "line %d rolled a value that is impossible given the values just rolled" % (index + 1),
                               seen=value, values=env, possible=sorted(exact), program=case["lines"]):
                return
            if line[0] == "var":
                env[line[1]] = value
            if not mon.check({k: v for k, v in seen[1].items() if k in env} == env, "the roll report disagrees with the values just rolled",
                             seen=seen[1], values=env, program=case["lines"]):
                return


CHILD = """
import json, sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
from python_dice import PythonDiceInterpreter
lines = json.loads(sys.argv[2])
interpreter = PythonDiceInterpreter()
print(json.dumps([interpreter.roll(lines)["stdout"] for _ in range(int(sys.argv[3]))]))
"""


def processes(case, lines, mon):
    """Separate processes roll independently: the same long sequence twice has no real probability."""
    import json
    import subprocess
    import sys

    args = [sys.executable, "-c", CHILD, core.REPO, json.dumps(case["lines"]), str(case["rolls"])]
    seen = [subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for _ in range(2)]
    if not mon.check(all(r.returncode == 0 for r in seen), "rolling raised", seen=seen[0].stderr[-800:] or seen[1].stderr[-800:]):
        return
    rolled = [json.loads(r.stdout) for r in seen]
    exact, _ = expected_joint(lines)
    top = max(exact.values()) / sum(exact.values())
    mon.event("processes_compared", 2)
    same = sum(x == y for x, y in zip(*rolled))
    mon.check(not (rolled[0] == rolled[1] and top ** case["rolls"] < 1e-30), "two processes rolled the same sequence", rolls=rolled[0], equal=same, program=case["lines"])


def repeated_blocks(sequence, marginal, mon, case):
    """Independent rolls do not repeat long stretches: two given blocks of length L agree with probability at most top ** L."""
    top = max(marginal.values()) / sum(marginal.values())
    n = len(sequence)
    if top > 0.9 or n < 100:
        return
    length = int((2 * log(n) + log(TESTS / ALPHA)) / -log(top)) + 2
    if length * 2 > n:
        return
    places, letters = {}, {}
    word = "".join(chr(0x4e00 + letters.setdefault(value, len(letters))) for value in sequence)  # (tuples of -1 and -2 all have one hash)
    for i in range(n - length + 1):
        block = word[i:i + length]
        if block in places:
            mon.check(False, "a stretch of %d rolls was repeated exactly" % length, first=places[block], again=i, program=case["lines"])
            return
        places[block] = i
    mon.event("blocks_compared", len(places))


def frequency(case, lines, interpreter, mon):
    n = case["rolls"]
    lines, _ = R.hoist(lines)
    exact, _ = expected_joint(lines)
    counter, pairs, last = {}, {}, None
    names = sorted({l[1] for l in lines if l[0] == "var"})
    marginal, counts = {}, {}
    for key, weight in exact.items():
        v = dict(key)["stdout"]
        marginal[v] = marginal.get(v, 0) + weight
    roll = interpreter.roll
    if case["kind"] == "token":
        token = core.shared_parser().parse(case["lines"][0])[0]
        roll = lambda _: {"stdout": token.roll()}
        mon.event("token_rolls", n)
    if case["kind"] == "fresh":
        roll = lambda texts: core.new_interpreter().roll(texts)
        mon.event("fresh_interpreter_rolls", n)
    sequence = []
    for number in range(n):
        seen = core.observe(roll, case["lines"])
        if case["kind"] == "huge" and seen[:2] == ("exc", "OverflowError") and "0" * 308 in case["lines"][0]:
            mon.event("oracle_decisions")
            mon.finding("K-HUGE", case["lines"][0])
            return
        if seen[0] != "ok" or "stdout" not in seen[1]:
            mon.check(False, "roll raised", seen=seen[1:3], program=case["lines"])
            return
        report = seen[1]
        value = report["stdout"]
        sequence.append(value)
        counts[value] = counts.get(value, 0) + 1
        key = tuple(sorted([(name, report.get(name)) for name in names] + [("stdout", value)]))
        counter[key] = counter.get(key, 0) + 1
        if number % 2:
            pairs[(last, value)] = pairs.get((last, value), 0) + 1
        last = value
    mon.event("frequency_rolls", n)
    if not any("bin:AND" in R.kinds_in(line[-1]) for line in lines):  # (recorded exception: AND)
        repeated_blocks(sequence, marginal, mon, case)
    if n < 100:
        return
    problems = bad_cells(counter, n, exact, mon, "frequency_cells") if len(exact) <= 200 else []
    problems += bad_cells(counts, n, marginal, mon, "frequency_cells")
    if len(marginal) > 2:
        below, hits, below_expected, below_seen = 0, 0, {}, {}
        for v in sorted(marginal):
            below += marginal[v]
            hits += counts.get(v, 0)
            below_expected["at most %d" % v], below_seen["at most %d" % v] = below, hits
        below_expected.pop("at most %d" % max(marginal))
        total = sum(marginal.values())
        mon.event("cumulative_cells", len(below_expected))
        problems += [(k, below_seen[k], w / total) for k, w in below_expected.items() if rejects(below_seen[k], n, w / total)]
        if len(marginal) > 12:  # spread: how often a roll lies within a band around the mean
            mean = sum(v * w for v, w in marginal.items()) // total
            around = {}
            for v, w in marginal.items():
                cell = around.setdefault(abs(v - mean), [0, 0])
                cell[0], cell[1] = cell[0] + w, cell[1] + counts.get(v, 0)
            inside, hits = 0, 0
            for reach in sorted(around)[:-1]:
                inside, hits = inside + around[reach][0], hits + around[reach][1]
                mon.event("spread_cells")
                if rejects(hits, n, inside / total):
                    problems.append(("within %d of %d" % (reach, mean), hits, inside / total))
    if len(marginal) <= 12:
        total = sum(marginal.values())
        pair_expected = {(x, y): (p / total) * (q / total) for x, p in marginal.items() for y, q in marginal.items()}
        problems += bad_cells(pairs, n // 2, pair_expected, mon, "pair_cells")
    if problems:
        old, _ = expected_joint(lines, True)
        old_marginal = {}
        for key, weight in old.items():
            v = dict(key)["stdout"]
            old_marginal[v] = old_marginal.get(v, 0) + weight
        if old != exact and not bad_cells(counter, n, old) and not bad_cells(counts, n, old_marginal):
            mon.event("oracle_decisions")
            mon.finding("K-AND", " ; ".join(case["lines"]))
            return
    mon.check(not problems, "observed frequencies refute the calculated probabilities", program=case["lines"], rolls=n,
              cells=[(k, c, "expected probability %.6f" % p) for k, c, p in problems[:8]])
