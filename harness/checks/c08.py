"""C08: every statistic shown for a result describes the same distribution."""
from fractions import Fraction

import core
import gen
import refmodel as R
from common import close, close_mean, close_probability, close_total, norm_seen, sized_program

RULE = ("distribution objects from random programs and from random count maps (gaps, negatives, huge counts): dict form, average, "
        "at_least, at_most, max, min, contains_zero against exact sums over the object's own counts; interpreter averages and dict "
        "forms against the distributions of an identical program; non-trivial: more than one outcome; distinct by the count map")
REQUIRED = ["views_checked", "cumulative_points", "interpreter_views", "gapped_supports", "huge_counts"]


def cases(rng, tier, shard, nshards, impl):
    if shard == 0:
        for texts in [["d6"], ["3d6"], ["d[1,100]"], ["dF"], ["0"], ["-5"], ["d[-3,3]"], ["d[-100*3,-98]"], ["40d6"], ["d2 == 3"], ["d% * d%"],
                      ["60d[1,3]"], ["100d6"], ["d1000"], ["200d2"], ["d[1,5000]"], ["d[-9000,9000,0]"], ["d[1*999999,1000]"], ["d[-7--3]"],
                      ["d[-5,0,5]"], ["0d6"], ["3d6d3"], ["d[0*999999,1]"], ["d[-1,1]"], ["30d6 - 30d6"], ["d% - 50"], ["d[9007199254740993,9007199254740992]"], ["d6 == 7"], ["d6 != 7"], ["dF"], ["10dF"],
                      ["VAR a = d6", "VAR b = a * 1000", "VAR c = b - 3000", "c // 7"], ["VAR a = 20d6", "VAR b = 10d10", "0 - 5"], ["VAR a = d[-2000,3000]", "a"], ["10d[-100,100]"], ["7d[0,1000]"], ["4d20k3"], ["(0 - 100) * d6"]]:
            yield {"kind": "program", "lines": texts}
    for i in range(250 if tier == "quick" else 1200):
        lines = sized_program(rng, 2500, nontrivial=False, n_lines=rng.randint(1, 4), depth=2, max_faces=6)
        yield {"kind": "program", "lines": gen.texts(lines)}
    for i in range(700 if tier == "quick" else 4000):
        style = rng.random()
        span = 6 if style < 0.4 else (60 if style < 0.7 else (600 if style < 0.92 else rng.choice([1500, 3000, 6000, 9000])))
        off = rng.choice([0, 0, -span, -span // 2, 1000, -1000, -1, 1, -span - 1, 10 ** 6, -10 ** 9])
        pairs = {}
        for _ in range(rng.randint(1, 14 if style < 0.95 else 80)):
            pairs[off + rng.randint(0, span)] = rng.choice([1, 1, 2, 5, 6 ** 30, 10 ** 25, 2 ** 53 + 1, 10 ** 320 if style > 0.6 else 3, rng.randint(1, 1000)])
        yield {"kind": "map", "map": [list(p) for p in pairs.items()]}


def views(mon, d, what):
    """All views of one distribution object against its own counts."""
    counts = core.observe(lambda: dict(d.get_result_map()))
    if not mon.check(counts[0] == "ok" and norm_seen(counts[1]) is not None, what + ": no count map", seen=counts[1:3]):
        return None
    exact = norm_seen(counts[1])
    low, high = min(exact), max(exact)
    mon.event("views_checked")
    if len(exact) > 1:
        mon.nontrivial(sorted(exact.items()))
    if high - low + 1 > len(exact):
        mon.event("gapped_supports")
    if sum(counts[1].values()) > 10 ** 20:
        mon.event("huge_counts")
    detail = {"counts": counts[1]}
    seen = core.observe(d.get_dict_form)
    mon.check(seen[0] == "ok" and set(seen[1]) == set(exact) and all(close_probability(seen[1][k], p) for k, p in exact.items()),
              what + ": dict form is not counts / total", seen=seen[1:3], **detail)
    if seen[0] == "ok":
        mon.check(close(sum(seen[1].values()), 1), what + ": dict form does not sum to 1", seen=seen[1], **detail)
    mean = sum(k * p for k, p in exact.items())
    seen = core.observe(d.average)
    mon.check(seen[0] == "ok" and close_mean(seen[1], mean, exact), what + ": average", seen=seen[1:3], expected=float(mean), **detail)
    for name, want in (("max", high), ("min", low), ("contains_zero", 0 in exact)):
        seen = core.observe(getattr(d, name))
        mon.check(seen[0] == "ok" and seen[1] == want, what + ": " + name, seen=seen[1:3], expected=want, **detail)
    if high - low > 20000:
        return exact  # the tables list every integer in between
    for name in ("at_least", "at_most"):
        seen = core.observe(getattr(d, name))
        ok = seen[0] == "ok" and isinstance(seen[1], dict) and set(seen[1]) == set(range(low, high + 1))
        if not mon.check(ok, what + ": %s does not cover every integer from min to max" % name, seen=seen[1:3], **detail):
            continue
        acc, bad = Fraction(0), None
        order = range(low, high + 1) if name == "at_most" else range(high, low - 1, -1)
        for v in order:
            acc += exact.get(v, 0)
            mon.event("cumulative_points")
            if not close_total(seen[1][v], acc):
                bad = (v, seen[1][v], float(acc))
                break
        mon.check(bad is None, what + ": " + name, seen=bad, **detail)
    return exact


def run(case, mon):
    if case["kind"] == "map":
        from python_dice.src.probability_distribution.probability_distribution_factory import ProbabilityDistributionFactory

        wanted = {int(v): c for v, c in case["map"]}
        d = ProbabilityDistributionFactory().create(wanted)
        exact = views(mon, d, "distribution of %r" % (wanted,))
        mon.check(exact == R.normal(wanted), "count map does not match what the distribution was made from", seen=exact, expected=wanted)
        return
    lines = case["lines"]
    first = core.observe(core.new_interpreter().get_probability_distributions, lines)
    if not mon.check(first[0] == "ok" and isinstance(first[1], dict), "distributions raised", seen=first[1:3], program=lines):
        return
    averages = core.observe(core.new_interpreter().get_average, lines)
    dicts = core.observe(core.new_interpreter().get_probability_distributions_dict, lines)
    same = averages[0] == "ok" and dicts[0] == "ok" and set(averages[1]) == set(first[1]) == set(dicts[1])
    if not mon.check(same, "the average and dict reports do not name the same results as the distributions", averages=averages[1:3],
                     dicts=dicts[1:3], names=sorted(first[1]), program=lines):
        return
    for key, d in first[1].items():
        exact = views(mon, d, "%s of %r" % (key, lines))
        if exact is None:
            return
        mon.event("interpreter_views")
        mean = sum(k * p for k, p in exact.items())
        mon.check(close_mean(averages[1][key], mean, exact), "get_average(%s)" % key, seen=averages[1][key], expected=float(mean), program=lines)
        mon.check(isinstance(dicts[1][key], dict) and set(dicts[1][key]) == set(exact) and all(close_probability(dicts[1][key][k], p) for k, p in exact.items()),
                  "get_probability_distributions_dict(%s)" % key, seen=dicts[1][key], program=lines)
    mon.sample({"program": lines})
