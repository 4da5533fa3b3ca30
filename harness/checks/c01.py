"""C01: the distribution of NdS is exactly that of N independent draws from the side list."""
import core
import gen
import refmodel as R
from common import compare_dist

RULE = ("dice tokens over counts (missing, 0, 1..many), sides N/%/F/custom lists with ranges (either order), multipliers, "
        "negatives, duplicates, blanks, leading zeros, trailing commas; bare, and as the value of a variable; "
        "non-trivial: more than one outcome; distinct by token text")
REQUIRED = ["distributions_compared", "rolls_observed", "extremes_compared", "read_back"]


def cases(rng, tier, shard, nshards, impl):
    fixed = ["4d10", "d6", "1d%", "30dF", "2d[1,1,2,3,5,8]", "d[1-5]", "d[-5--2]", "d[-2--5]", "d[1*7, 8]", "d[1-3*2,1,4]",
             "d[1-3*2,1,4,]", "0d6", "0d[5]", "d[1*0,2]", "d1", "3d1", "d[0]", "d[-1]", "5d[-0]", "d[1--1]", "d[-1-1]", "d[3-3]",
             "d[3-3*4]", "d[-3--3]", "d[10-8*2,9]", "007d06", "d100", "d[1-100]", "2d%", "100d2", "40d6", "2d[1000000,-1000000]",
             "d[1,-1,1-2,-1--2,1*2,-1*2,1-2*2,-1--2*2]", "d[ 1 ]", "d[1 ,]", "d[\t1,\n2]", "d[12,21]", "d[1-12*12]", "12d[2-1]",
             "d[-10]", "d[-12--10*3,-11]", "2d[99*99,100]", "d[100-1]", "d[1-100*10,50]", "d[-100--90*11]", "d[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16]",
             "3d[1*100,1000]", "200d2", "11d11", "d999", "d[5,5,5,5,5,5,5,5,5,5,5]", "d[257,256,-257]", "d[1000000000000]", "d[123-120*21,-7]",
             "300d2", "150dF", "30d20", "2d250", "d5000", "d[1-3000]", "d[3000-1*3,-5]", "500d1", "128d2", "129d[0,1]", "65d[-1,1]", "256d[0*3,1]",
             "d[1*1000,2]", "d[7*123456,8]", "2d[1*100,2*10,3]", "d[1*0,1*0,1*3,2]", "d[9007199254740993,9007199254740992]",
             "2d[-9007199254740993,9007199254740995]", "d[1*9007199254740993,2*9007199254740992]", "3d[5*1000000007,6*998244353]",
             "d[-5-5]", "d[5--5]", "d[-5-5*2,0]", "d[-100-100]", "d[0-0]", "d[0--3*2]", "d[-0-3]", "d[007-010]", "d[1*01,2*002]", "5d%", "4d%",
             "d[%s]" % ",".join(str(i * i) for i in range(60)), "2d[%s]" % ",".join("%d*%d" % (i, i + 1) for i in range(40)),
             "d[%s,]" % ",".join("%d-%d" % (i * 10, i * 10 + 3) for i in range(-15, 15)), "3d[1-6*3,1-6]", "2d[1-6,6-1,1-6*0,3]", "00d6", "000d[3]", "01d6", "d0006",
             "d[1,\t3-5]", "d[1,\n3-5*2]", "2d[\t-3--1\t,\t4*2\t]", "d[\r\n5-1\r\n,\r\n-7*3\r\n,\r\n]", "d[\f1-2\f,\v3*4\v]", "d[ 1-3 , 2*2 , -4--2*3 ]", "5000d1", "2000d[-3]", "450d2", "d[1*3,\u00a02-4]",
             "3d[%s]" % ",".join("%d*%d" % (i, 10 ** i) for i in range(12)), "d[%s]" % ",".join(["7", "1-60", "30-90*3"]), "d[1-2000,500-600*7]"]
    for text in fixed[shard::nshards]:
        yield {"text": text}
    if shard == 0:
        for n in range(0, 8):
            for s in range(1, 13):
                yield {"text": "%dd%d" % (n, s)}
        for n in list(range(0, 12)) + [20, 35]:
            yield {"text": "%ddF" % n}
    total = 180 if tier == "quick" else 2000
    for i in range(total):
        r = rng.random()
        if r < 0.08:  # a few sides, weighted and spread out, thrown often
            n = rng.choice([6, 9, 12, 17, 24, 33, 48])
            k = rng.randint(1, 3)
            s = ["c", [[rng.randint(-9, 9) * rng.choice([1, 1, 10, 1000]), None, rng.choice([None, 1, 2, 5, 13, 100])] for _ in range(k)]]
        elif r < 0.14:  # wide values and large multipliers
            n = rng.choice([None, 1, 2, 3])
            big = rng.choice([10 ** 3, 10 ** 6, 2 ** 31, 2 ** 53, 2 ** 63, 10 ** 20])
            s = ["c", [[rng.choice([-1, 1]) * (big + rng.randint(-3, 3)), None, rng.choice([None, None, 2, 37, 128, 1001, big])] for _ in range(rng.randint(1, 6))]]
        elif r < 0.18:  # long ranges
            n = None
            low = rng.randint(-300, 300)
            s = ["c", [[low, low + rng.randint(-400, 400), rng.choice([None, 2, 11])], [rng.randint(-9, 9), None, rng.choice([None, 3])]]]
        elif r < 0.55:
            n = rng.choice([None, 1, 1, 2, 2, 3, 4, 5])
            s = gen.custom_sides(rng, rng.randint(1, 6)) if rng.random() < 0.85 else gen.custom_sides(rng, 16, -20, 60, spaces=False)
        elif r < 0.7:
            n = rng.choice([None, 1, 2])
            s = ["n", rng.randint(1, 400 if n != 2 else 90)]
        elif r < 0.74:
            n, s = int(60 * 6 ** rng.random()), ["n", rng.choice([1, 2, 2, 3, 4, 6])]
        elif r < 0.8:
            n, s = rng.randint(5, 60), ["n", rng.randint(1, 10)]
        elif r < 0.85:
            n, s = rng.choice([None, 1, 2]), ["%"]
        elif r < 0.9:
            n, s = rng.randint(1, 40), ["F"]
        else:
            n, s = rng.choice([1, 2, 3]), gen.custom_sides(rng, 3, -200, 200)
        if n and len(R.faces(s)) > 60 and n > 2:
            n = 2
        while n and n * len(R.faces(s)) > (450 if tier == "quick" else 1000) and n > 2:
            n = n * 2 // 3
        yield {"text": R.atom_text(["dice", n, s])}


def hash_of(text):
    import zlib

    return zlib.crc32(text.encode())


def run(case, mon):
    import refparse

    text = case["text"]
    node = refparse.parse(text)[1]
    assert node[0] == "dice", node
    expected = R.dice_dist(node)
    if len(expected) > 1:
        mon.nontrivial(text)
    interpreter = core.new_interpreter()
    compare_dist(mon, core.last_dist(interpreter, [text]), expected, "dice %r" % text, text=text)
    seen = core.observe(interpreter.get_probability_distributions, ["VAR die = " + text, "0 + die"])
    for key in ("die", "stdout"):
        got = core.observe(lambda: dict(seen[1][key].get_result_map())) if seen[0] == "ok" else seen
        compare_dist(mon, got, expected, "variable holding %r (%s)" % (text, key), text=text)
    for mode, want in (("max", max(expected)), ("min", min(expected))):
        mon.event("extremes_compared")
        got = core.observe(getattr(interpreter, mode), [text])
        mon.check(got[0] == "ok" and got[1].get("stdout") == want, "%s of %r" % (mode, text), seen=got[1], expected=want)
    for mode, want in (("max", {max(expected)}), ("min", {min(expected)}), ("roll", expected)):
        if mode != "roll" and len(expected) > 40 and hash_of(text) % 8:
            continue  # storing a wide distribution is slow
        got = core.observe(getattr(core.new_interpreter(), mode), ["VAR kept = " + text, "kept"])
        mon.event("read_back")
        mon.check(got[0] == "ok" and got[1].get("stdout") in want and got[1].get("kept") == got[1].get("stdout"), "%s of a variable holding %r" % (mode, text), seen=got[1])
    for _ in range(4):
        mon.event("rolls_observed")
        got = core.observe(interpreter.roll, [text])
        mon.check(got[0] == "ok" and got[1].get("stdout") in expected, "roll of %r outside its outcomes" % text, seen=got[1])
    mon.sample({"text": text, "outcomes": len(expected)})
