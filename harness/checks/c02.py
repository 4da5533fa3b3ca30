"""C02: keep/drop: the sum of the highest m / of what is left without the highest m."""
import core
import gen
import refmodel as R
from common import compare_dist

RULE = ("NdSkM / NdSdM over n 1..many, sides plain/fate/custom weighted and negative, m from 0 past n; oracle enumerates "
        "multisets of rolls with multinomial weights; non-trivial: 0 < m < n; distinct by token text")
REQUIRED = ["distributions_compared", "rolls_observed", "strict_selections", "read_back"]


def cases(rng, tier, shard, nshards, impl):
    if True:
        for text in ["2d20k1", "2d20d1", "10d[-1,1]d5", "2dFd1", "3d6k2", "4d6k3", "4d6d3", "4d6d1", "3d6k0", "3d6k3", "3d6k4", "3d6d3",
                     "3d6d4", "3d6d0", "d6k1", "d6d1", "d6k0", "d6d0", "0d6k1", "0d6d0", "5d[-3--1]k2", "5d[-3--1]d2",
                     "4d[10,-10]k2", "3d[1*5,6]k1", "3d[1*5,6]d1", "12d2k11", "12d2d11", "6d[-1,1]k5", "3d12k2", "16d2k10",
                     "3d[9,10,11]k2", "3d[9,10,11]d2", "4d[-10,-9,2]k1", "7d3k6", "7d3d6", "3d[1-2*3,0]k2", "2d%k1", "2d%d1", "60d2k3", "60d2d57", "60d2k57", "40d[1*9,2]k1", "40d[1*9,2]d39", "25dFk2", "25dFd20", "11d3k10", "12d[100,-100]k11",
                     "3d[1-3*2,1,4]k2", "4d[8, 9, 10, 11]k3", "4d[-11,-9,9,11]d2", "10d4k5", "2d100k1",
                     "20d20k1", "20d20k2", "20d20k3", "20d20d18", "8d20k2", "5d100k1", "5d100d4", "2d300k1", "2d300d1", "50d6k1", "50d6k2", "50d6d48", "100d4k1", "100d[0,1]k2",
                     "100d[0,1]d98", "64d2k32", "33d2d1", "9d9k2", "9d9d7", "6d%k1", "3d%k2", "3d%d1", "12dFk6", "12dFd6", "40dFk2", "7d[-100,-10,-9,9,10,100]k3",
                     "7d[-100,-10,-9,9,10,100]d3", "4d[1*1000,2]k2", "4d[1*1000,2]d2", "5d[9007199254740993,9007199254740992,-1]k2", "5d[9007199254740993,9007199254740992,-1]d3",
                     "3d[-5--1]k1", "3d[-1--5]d1", "6d[0]k3", "6d[-7]k2", "6d[-7]d2", "4d1k2", "4d1d3", "5d[3,3,3]k2", "5d[3,3,-3]d2", "d20k1", "d20d1", "1d20k1", "1d20d1", "1d20d0", "d20k5",
                     "d20d5", "0d20k0", "0d20d3", "0d[-4]k3", "05d06k03", "05d06d03", "3d6k03", "4d[-1000000,1000000]k3", "10d[10-12,100]k4", "10d[10-12,100]d6", "6d[12-10*3]d2",
                     "15d2k14", "15d2d14", "15d2k13", "3d6k100", "3d6d100", "3d6k1000000000000", "3d6d1000000000000", "5d[1,2*3]k4", "5d[1,2*3]d4", "2d[7]d1", "9d[-2-2]k1", "9d[-2-2]d8"][shard::nshards]:
            yield {"text": text}
    if shard == 1:
        for n in range(1, 7):
            for m in range(0, n + 2):
                for mode in "kd":
                    for s in ("4", "F", "[2*3,-1,7]"):
                        yield {"text": "%dd%s%s%d" % (n, s, mode, m)}
    total = 700 if tier == "quick" else 1600
    for i in range(total):
        r = rng.random()
        if r < 0.25:  # many dice, or many sides, but few selections
            n = rng.choice([4, 6, 8, 11, 16, 25, 40])
            s = rng.choice([["n", rng.randint(5, 40)], ["F"], gen.custom_sides(rng, 6, -30, 120)])
            take = rng.choice([1, 1, 2, 2, 3])
            while take > 1 and combos(len(R.faces(s)), take) * len(R.faces(s)) * n > 40000:
                take -= 1
            while n > 3 and len(R.faces(s)) ** 2 * n > 40000:
                n -= 1
            node = ["dk", n, s, "k", take] if rng.random() < 0.5 else ["dk", n, s, "d", n - take]
            yield {"text": R.atom_text(node)}
            continue
        if r < 0.5:
            n, s = rng.randint(2, 6), gen.custom_sides(rng, rng.randint(2, 4), -6, 12)
        elif r < 0.65:
            n, s = rng.randint(2, 3), ["n", rng.randint(7, 24)]
        elif r < 0.85:
            n, s = rng.randint(3, 7), ["n", rng.randint(2, 6)]
        else:
            n, s = rng.randint(3, 30), rng.choice([["F"], ["n", 2], ["n", 3], gen.custom_sides(rng, 2, -6, 12)])
        while len(R.faces(s)) ** 1.0 and combos(len(R.faces(s)), n) > (1500 if tier == "quick" else 6000):
            n -= 1
        m = rng.randint(1, max(1, n - 1)) if rng.random() < 0.85 else rng.randint(0, n + 2)
        yield {"text": R.atom_text(["dk", n, s, rng.choice("kd"), m])}


def combos(f, n):
    out = 1
    for i in range(n):
        out = out * (f + i) // (i + 1)
    return out


def run(case, mon):
    import refparse

    text = case["text"]
    node = refparse.parse(text)[1]
    assert node[0] == "dk", node
    expected = R.dice_dist(node)
    n = 1 if node[1] is None else node[1]
    if 0 < node[4] < n:
        mon.nontrivial(text)
        mon.event("strict_selections")
    interpreter = core.new_interpreter()
    compare_dist(mon, core.last_dist(interpreter, [text]), expected, "keep/drop %r" % text, text=text)
    seen = core.observe(interpreter.get_probability_distributions, ["VAR pool = " + text, "0 + pool"])
    for key in ("pool", "stdout"):
        got = core.observe(lambda: dict(seen[1][key].get_result_map())) if seen[0] == "ok" else seen
        compare_dist(mon, got, expected, "variable holding %r (%s)" % (text, key), text=text)
    for mode, want in (("max", max(expected)), ("min", min(expected))):
        got = core.observe(getattr(interpreter, mode), [text])
        mon.check(got[0] == "ok" and got[1].get("stdout") == want, "%s of %r" % (mode, text), seen=got[1], expected=want)
    for mode, want in (("max", {max(expected)}), ("min", {min(expected)}), ("roll", expected)):
        got = core.observe(getattr(core.new_interpreter(), mode), ["VAR kept = " + text, "kept"])
        mon.event("read_back")
        mon.check(got[0] == "ok" and got[1].get("stdout") in want and got[1].get("kept") == got[1].get("stdout"), "%s of a variable holding %r" % (mode, text), seen=got[1])
    for _ in range(6):
        mon.event("rolls_observed")
        got = core.observe(interpreter.roll, [text])
        mon.check(got[0] == "ok" and got[1].get("stdout") in expected, "roll of %r outside its outcomes" % text, seen=got[1])
    mon.sample({"text": text, "outcomes": len(expected)})
