"""Shared oracles."""
from fractions import Fraction

import core
import refmodel as R


def norm_seen(seen_map):
    """Observed integer count map -> exact probabilities; None when it is not such a map."""
    try:
        if any(v < 0 for v in seen_map.values()) or not all(isinstance(k, int) for k in seen_map):
            return None
        total = sum(seen_map.values())
        if total <= 0:
            return None
        return {int(k): Fraction(v, total) for k, v in seen_map.items()}
    except (TypeError, ValueError):
        return None


def compare_dist(mon, seen, expected, what, **detail):
    """Observation of a result map against exact reference weights."""
    mon.event("distributions_compared")
    if seen[0] != "ok":
        return mon.check(False, what + ": raised instead of giving a distribution", seen=seen[1:3], expected=expected, **detail)
    got = norm_seen(seen[1])
    want = R.normal(expected)
    return mon.check(got == want, what + ": wrong distribution", seen=seen[1], expected=expected, **detail)


def close(x, y, scale=1.0):
    return isinstance(x, (int, float)) and abs(float(x) - float(y)) <= 1e-9 * max(1.0, abs(float(y)), scale)


def close_probability(x, p):
    """Correct but for the rounding of a few floating-point operations, however small the probability."""
    return isinstance(x, (int, float)) and abs(Fraction(x) - Fraction(p)) <= Fraction(p) / 10 ** 12 + Fraction(1, 10 ** 300) if abs(x) <= 2 else False


def close_total(x, p):
    """A cumulative probability: rounding errors add up in absolute terms."""
    return isinstance(x, (int, float)) and abs(float(x) - float(p)) <= 1e-12


def close_mean(x, mean, exact):
    """A mean: rounding errors are relative to the largest value."""
    if not isinstance(x, (int, float)) or x != x or x in (float("inf"), float("-inf")):
        return False
    return abs(Fraction(x) - Fraction(mean)) <= Fraction(max(1, max(abs(v) for v in exact))) / 10 ** 12


def counts(rng, tier, quick, thorough):
    return quick if tier == "quick" else thorough


def run_program(lines, cap=4000):
    """Exact reference for a straight-line program: list of (marginal, legacy marginal) per line.

    Raises R.TooBig; a marginal containing R.ZDE means a possible division by zero (and stops there)."""
    joint, legacy, out = R.Joint(), R.Legacy(cap), []
    for line in lines:
        node = line[-1]
        marginal, per_world = joint.eval(node)
        if R.ZDE in marginal:
            out.append((marginal, None))
            return out, joint, legacy
        leg = legacy.eval(node)
        out.append((marginal, R.Legacy.marginal(leg)))
        if line[0] == "var":
            joint.assign(line[1], per_world)
            legacy.assign(line[1], leg)
    return out, joint, legacy


def sized_program(rng, cap, allow_zde=False, nontrivial=True, tries=200, **kwargs):
    """A generated program whose reference (and hence the code's work) stays below cap."""
    import gen

    for _ in range(tries):
        lines = gen.program(rng, **kwargs)
        try:
            ref, joint, legacy = run_program(lines, cap)
        except R.TooBig:
            continue
        if R.ZDE in ref[-1][0] and not allow_zde:
            continue
        if nontrivial and not any(R.names_in(l[-1]) for l in lines):
            continue
        if max(abs(v) for m, _ in ref for v in m if v != R.ZDE) > 10 ** 9:
            continue
        return lines
    return [["var", "a", ["dice", None, ["n", 2]]], ["expr", ["bin", "+", ["name", "a"], ["name", "a"]]]]


SHAPES = ["{x}", "({k} - {x})", "({x} * {m})", "({x} * {x})", "({x} // {d})", "ABS({x} - {k})", "({x} + {y})", "({x} - {y})", "({x} * {y})", "MAX({x}, {y})", "MIN({x}, {k})", "({x} > {k})", "({x} == {y})",
          "!({x} - {k})", "{k}", "({x} OR {y})", "({x} <= {y})", "{die}", "({x} + {die})"]


def entangled(rng, cap=3000, allow_zde=False, and_too=True):
    """Program texts whose last lines relate two expressions over the same few variables."""
    while True:
        names = rng.sample(["a", "b", "c", "b_", "hp"], rng.choice([1, 1, 2, 2, 3]))
        dice = lambda: rng.choice(["d2", "d3", "d4", "d6", "dF", "2d2", "d[-2,1,4]", "d[1,3]", "d[0-3]", "3d2k2", "d[-1,1]", "d[1,2*2]"])

        def shape():
            return rng.choice(SHAPES).format(x=rng.choice(names), y=rng.choice(names), k=rng.randint(-2, 8), m=rng.choice([-1, 2, 3]), d=rng.choice([-2, 2, 3]), die=dice())

        texts = ["VAR %s = %s%s" % (n, dice(), rng.choice(["", "", " + 1", " - 2"])) for n in names]
        for _ in range(rng.choice([0, 0, 1, 2])):  # copies, derived and re-assigned variables
            name = rng.choice(names + ["z"])
            texts.append("VAR %s = %s" % (name, shape()))
            if name not in names:
                names.append(name)
        for _ in range(rng.choice([1, 1, 2])):
            op = rng.choice(["==", "!=", "<", "<=", ">", ">=", "-", "*", "+", "OR", "//"] + ["AND"] * and_too)
            one, two = shape(), shape()
            texts.append(rng.choice(["%s %s %s" % (one, op, two), "%s %s %s" % (one, op, two), "(%s %s %s) * %s" % (one, op, two, shape()), "ABS(%s - %s)" % (one, two),
                                     "%s(%s, %s)" % (rng.choice(["MAX", "MIN"]), one, two)]))
        if not and_too and any("AND" in t for t in texts):
            continue
        try:
            ref, _, _ = run_program(parse_lines(texts), cap)
        except R.TooBig:
            continue
        if R.ZDE in ref[-1][0] and not allow_zde:
            continue
        return texts


NESTED = ["VAR {x} = VAR {y} = {D}", "(VAR {x} = {D}) + {x}", "(VAR {x} = {D}) - {x} * 2", "(VAR {x} = {D}) * 10 + (VAR {y} = {D})", "MAX(VAR {x} = {D}, {x} + 1)", "MIN(VAR {x} = {D}, VAR {y} = {D})",
          "ABS(VAR {x} = {D} - 2) + {x}", "!(VAR {x} = {D} > 2)", "VAR {x} = (VAR {y} = {D}) + {D}", "VAR {x} = (VAR {y} = {D}) * {y}", "({D} + (VAR {x} = {D})) * ((VAR {y} = {D}) + {x})", "VAR {x} = !VAR {y} = {D} - 2",
          "VAR {x} = ABS(VAR {y} = {D} - {D})", "(VAR {x} = {D}) == (VAR {y} = {D})", "VAR {x} = 3 * ((VAR {y} = {D}) - 1)", "((VAR {x} = {D}))", "{D} - VAR {x} = {D}", "VAR {x} = VAR {y} = {D} + 2"]


def nested(rng):
    """Program texts with assignments inside expressions; a name is read only to the right of its assignment."""
    dice = lambda: rng.choice(["d2", "d3", "d4", "dF", "d[1,3]", "d[-2,1,4]", "2"])
    names, texts = ["a", "b"], ["VAR a = " + dice(), "VAR b = " + dice()]
    for _ in range(rng.choice([1, 1, 2])):
        x, y = rng.sample(["a", "b", "c", "e", "a_"], 2)
        template = rng.choice(NESTED)
        while "{D}" in template:
            template = template.replace("{D}", dice() if rng.random() < 0.8 else "(%s + %s)" % (rng.choice([n for n in names if n not in (x, y)] or ["1"]), dice()), 1)
        texts.append(template.format(x=x, y=y))
        names = sorted(set(names) | {x} | ({y} if "VAR " + y in texts[-1] else set()))
    one, two = rng.choice(names), rng.choice(names)
    return texts + [rng.choice(["%s - %s", "%s * 10 + %s", "%s == %s", "%s + %s", "MAX(%s, %s)"]) % (one, two)]


def parse_lines(texts):
    import refparse

    return [refparse.parse(t) for t in texts]


def compare_known(mon, seen, expected, legacy, key, text, what, **detail):
    """Exact match; or the recorded wrong weighting, exactly; otherwise a violation."""
    if seen[0] == "ok":
        got = norm_seen(seen[1])
        if got is not None and got != R.normal(expected) and got == R.normal(legacy):
            mon.event("oracle_decisions")
            mon.event("distributions_compared")
            mon.finding(key, text)
            return True
    return compare_dist(mon, seen, expected, what, **detail)
