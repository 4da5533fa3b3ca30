"""C03: operators combine independent operands exactly."""
import core
import gen
import refmodel as R
from common import compare_dist

RULE = ("random variable-free expressions (all operators, nesting depth up to 5, operands with negative, zero and large values), "
        "and every ProbabilityDistribution operator on random weighted integer maps; non-trivial: at least one operator and "
        "more than one outcome; distinct by expression structure")
REQUIRED = ["distributions_compared", "expression_cases", "object_operator_cases", "op_//", "op_AND", "op_OR", "op_not", "op_mm"]
OBJ = ["+", "-", "*", "//", "==", "!=", "<", "<=", ">", ">=", "AND", "OR", "MAX", "MIN", "NOT", "ABS"]


WIDE = [
    [-10**12, -7, -1, 0, 1, 3, 10**9, 10**15],
    [2**53 + k for k in (-2, -1, 0, 1, 2, 3)], [-2**53 + k for k in (-3, -2, -1, 0, 1, 2)] + [0],
    [2**63 + k for k in (-2, -1, 0, 1)] + [-2**63, -2**63 - 1, 5], [2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 1],
    [10**30, 10**30 + 1, -10**30, 0, -1], [10**400, 10**400 + 1, -10**400, 2], range(250, 262), range(-262, -250), range(-9, 0), range(-9, 1), range(0, 10),
]


def random_map(rng, size, nonzero=False):
    style = rng.random()
    pool = range(-4, 5) if style < 0.5 else (range(-50, 51) if style < 0.8 else rng.choice(WIDE))
    out = {}
    for _ in range(rng.randint(1, size)):
        v = rng.choice(list(pool))
        if nonzero and v == 0:
            v = 1
        out[v] = rng.choice([1, 1, 1, 2, 3, 7, 64, 10**20, 2**53 + 1, 10**310 + 7] if rng.random() < 0.3 else [1, 1, 1, 2, 3, 7])
    return sorted(out.items())


def work(node):
    """Product sizes the code has to go through (to keep cases small)."""
    kind = node[0]
    if kind in ("par", "not", "abs"):
        return work(node[1])
    if kind in ("bin", "mm"):
        return work(node[2]) + work(node[3]) + len(R.dist(node[2], {})) * len(R.dist(node[3], {}))
    return 1


def cases(rng, tier, shard, nshards, impl):
    if True:
        for text in ["1 + 2d3 - 3 * 4d2 // 5", "3 * ( 1 + 1d4 )", "(1d4 >= 2) AND !(1d20 == 2)", "(1d4 >= 2) OR !(1d20 == 2)",
                     "ABS( 1d6 - 1d6 )", "MAX(4d7, 2d10)", "MIN(50, d%)", "2 AND 1", "-1 OR 0", "!2", "!0", "!-3", "-7 // 2", "7 // -2",
                     "0 OR -5", "-1 AND 1", "(d3 - 2) AND (d3 - 2)", "(d3 - 2) OR (d3 - 2)", "!(d3 - 2)", "dF // 2", "(dF * 3) // -2",
                     "MAX(dF, dF)", "MIN(dF, 0)", "MAX(-1, -2)", "ABS(-3)", "ABS(dF)", "d6 == d6", "d6 != d6", "d6 < d6", "d6 > 3",
                     "True + True", "False * d6", "d2 * d2 * d2", "d6 - d6", "2d6 // d4", "1000000000000000000001 // 10", "-1000000000000000000001 // 10", "(d2 * 9007199254740993) // 3", "9007199254740993 * d3 - 1",
                     "9007199254740993 == 9007199254740992", "9007199254740993 > 9007199254740992", "MAX(9007199254740993, 9007199254740992)", "(d6 * 1000 + 1) // -7",
                     "40d6 > 140", "40d6 * 2 - 40d6", "ABS(30dF)", "300 == 300", "d300 == d300", "257 != 257", "(d4 - 2) // 3", "(0 - d4) // 3", "d4 // (0 - 3)",
                     "100d6 > 350", "60d6 == 60d6", "100d2 - 100d2", "(40d6 > 140) + (40d6 < 140)", "MAX(30d6, 30d6)", "MIN(30d6, 30d6)", "(20d6 - 20d6) AND (20d6 - 20d6)", "d100 * d100", "d200 - d200",
                     "d100 // d100", "(d200 - 100) // 7", "7 // (d[-3,-2,-1,1,2,3])", "(d41 - 21) // (d[-3,-2,-1,1,2,3])", "ABS(d201 - 101)", "!(d201 - 101)", "d200 < d200", "d200 >= d200", "d200 <= 100",
                     "d[-9007199254740993,9007199254740992] == -9007199254740993", "ABS(d[-9007199254740993,9007199254740992])", "9223372036854775807 + d2", "9223372036854775808 * d2 // 9223372036854775808",
                     "-9223372036854775808 // d3", "d[9007199254740993,9007199254740992] != d[9007199254740993,9007199254740992]", "d[9007199254740993,9007199254740992] < 9007199254740993",
                     "d[9007199254740993,9007199254740992] <= 9007199254740992", "d[9007199254740993,9007199254740992] >= 9007199254740993", "MIN(d[9007199254740993,9007199254740994], 9007199254740993)",
                     "(d[9007199254740993,9007199254740992] - 9007199254740992) AND 1", "9007199254740993 OR 0", "d2 * d2 * d2 * d2 * d2 * d2", "d2 + d3 - d4 + d5 - d6 + d7", "d3 - d3 - d3 - d3 - d3",
                     "dF * dF * dF * dF", "d[1,10,100,1000] * d[1,10,100,1000] - d[1,10,100,1000]", "d[0*99,1] AND d[0*99,1]", "d[0*99,1] OR d[0*99,1]", "d[1*99,-1] OR d[1*99,-1]", "!!d3", "! ! ! (d3 - 2)",
                     "!(d3 - 2) + 5", "(!(d3 - 2)) * d4", "ABS(ABS(dF) - 1)", "MAX(MIN(d4, d6), MIN(d8, d10))", "MIN(MAX(dF, -1), MAX(dF, 1))", "MAX(d4, d4) == MIN(d4, d4)"][shard::nshards]:
            yield {"kind": "expr", "text": text}
    limit = 4000 if tier == "quick" else 20000
    for i in range(1200 if tier == "quick" else 3000):
        while True:
            node = gen.fix_not(gen.expr(rng, rng.choice([1, 2, 2, 3, 3, 4, 5]), (), rng.choice([3, 6, 10])))
            if R.size(node) < 2:
                continue
            d = R.dist(node, {})
            if R.ZDE not in d and work(node) <= limit:
                break
        yield {"kind": "expr", "text": R.line_text(["expr", node])}
    for i in range(1280 if tier == "quick" else 2500):
        op = OBJ[i % len(OBJ)]
        yield {"kind": "obj", "op": op, "a": random_map(rng, rng.choice([3, 12, 12, 30])), "b": random_map(rng, rng.choice([3, 12, 12, 30]), op == "//")}


def build(pairs):
    from python_dice.src.probability_distribution.probability_distribution_factory import ProbabilityDistributionFactory

    return ProbabilityDistributionFactory().create({v: c for v, c in pairs})


def apply(op, a, b):
    if op == "==":
        return a.__equal__(b)
    if op == "!=":
        return a.__not_equal__(b)
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b, "<": lambda: a < b, "<=": lambda: a <= b,
            ">": lambda: a > b, ">=": lambda: a >= b, "AND": lambda: a & b, "OR": lambda: a | b, "MAX": lambda: a.max_operator(b),
            "MIN": lambda: a.min_operator(b), "NOT": lambda: a.not_operator(), "ABS": lambda: abs(a)}[op]()


def expected_op(op, a, b):
    if op == "NOT":
        return R.push(a, lambda v: int(not v > 0))
    if op == "ABS":
        return R.push(a, abs)
    if op in ("MAX", "MIN"):
        return R.combine(a, b, max if op == "MAX" else min)
    return R.combine(a, b, lambda x, y: R.apply_op(op, x, y))


def run(case, mon):
    import refparse

    if case["kind"] == "expr":
        text = case["text"]
        node = refparse.parse(text)[1]
        expected = R.dist(node, {})
        for kind in R.kinds_in(node):
            mon.event("op_" + kind.split(":")[-1] if ":" in kind and not kind.startswith("mm") else "op_" + kind.split(":")[0])
        mon.event("expression_cases")
        if len(expected) > 1:
            mon.nontrivial(R.shape(node))
        compare_dist(mon, core.last_dist(core.new_interpreter(), [text]), expected, "expression %r" % text, text=text)
        mon.sample({"text": text, "outcomes": len(expected)})
        return
    a, b = dict(case["a"]), dict(case["b"])
    expected = expected_op(case["op"], a, b)
    mon.event("object_operator_cases")
    if len(expected) > 1:
        mon.nontrivial((case["op"], len(a), len(b)))
    seen = core.observe(lambda: dict(apply(case["op"], build(case["a"]), build(case["b"])).get_result_map()))
    compare_dist(mon, seen, expected, "operator %s on distributions" % case["op"], a=a, b=b)
