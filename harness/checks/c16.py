"""C16: results do not depend on the process, the hash seed or concurrent use of other interpreters."""
import json
import os
import random
import subprocess
import sys
import threading

import core
import gen
import refmodel as R
from c16_child import run_session, same
from common import sized_program

RULE = ("(a) batches of sessions (all result kinds, plus rolls after seeding random) re-run in child processes with different hash seeds; "
        "(b) the same sessions run by 4..8 threads at once, each with its own interpreter (own or shared parser), with a tiny thread switch "
        "interval, against the sequential results; non-trivial: the session reads variables; distinct by session structure")
REQUIRED = ["processes_compared", "hash_seeds", "concurrent_sessions", "seeded_roll_calls", "thread_switch_rounds"]
CASE_CPU_S = 300.0
MODES = ["max", "min", "get_probability_distributions", "get_probability_distributions_dict", "get_average"]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


FAILING = ["nope", "1 + nope", "VAR a = nope", "1 // 0", "VAR b = d6 // (d3 - 2)", "d4 // dF", "1 +", "MAX(1)", "1 2", "(", "$", "d6 + ?", "1 +\n 2 @ 3", "VAR 1 = 2", "5-3",
           "d[1,,2]", "alpha + beta * gamma + delta", "MIN(one, two) + three", "a1", "ABS(zeta - eta)"]


BIG = ["20d100k18", "30d6d12", "40d6", "100dF", "25d[1*5,2,9]d10", "200d4", "d5000", "17d%k16", "16d8k15", "64d2d3", "33d[-5--1,7*9]", "8d6k8", "12d6d0", "5d[1-3,10]k2 * 3d10d1",
       "MAX(20d6k19, 18d6d1)", "(30d6k3 > 10) OR (16dFk15 == 2)", "ABS(50d[-1,1])", "!(24d4k20 - 60)", "90d6k1 // 2", "1000d6", "50d6k25 - 50d6d25", "d[1*1000000,2]", "12d1000k7"]


def big_rolls(rng):
    calls = [["rolls:%d" % rng.choice([3, 20, 150]), [rng.choice(BIG)]] for _ in range(3)]
    name = rng.choice(["a", "hp", "x_y"])
    calls.append(["rolls:5", ["VAR %s = %s" % (name, rng.choice(BIG)), "%s + %s" % (name, rng.choice(BIG))]])
    calls.append(["rolls:3", [R.atom_text(gen.keepdrop(rng, 40, 20)), R.atom_text(gen.dice(rng, 90, 50))]])
    return calls


def session(rng, rolls=True):
    lines = sized_program(rng, 600, n_lines=rng.randint(2, 5), depth=rng.choice([1, 2]), max_faces=rng.choice([4, 4, 9]), division=rng.random() < 0.4,
                          uniform=rng.random() < 0.4, reassign=rng.choice([0.2, 0.7]))
    texts = gen.texts(lines)
    calls = [[rng.choice(MODES), texts]]
    if rng.random() < 0.6:
        at = rng.randint(0, len(texts))
        calls.append([rng.choice(MODES + ["roll"] if rolls else MODES), texts[:at] + [rng.choice(FAILING)] + texts[at:]])
    if rng.random() < 0.5:
        fixed = ["VAR %s = %d" % (n, rng.randint(-99, 99)) for n in gen.name_pool(rng, 3)]
        names = [t.split()[1] for t in fixed]
        calls.append(["roll", fixed])
        calls.append(["roll", ["%s * 1000 + %s - %s" % tuple(names)]])
        if rng.random() < 0.3:
            calls.append(["get_estimated_cost", texts])
            calls.append(["max", texts])
    if rng.random() < 0.4:
        calls.append([rng.choice(MODES), [R.atom_text(gen.dice(rng, 6, 20)) + " " + rng.choice(["+", "-", "*", "==", "<"]) + " " + R.atom_text(gen.keepdrop(rng, 5, 6))]])
    if rolls:
        calls.append(["roll", texts])
        calls.append(["roll", texts + [R.atom_text(gen.keepdrop(rng, 5, 6)), R.atom_text(gen.dice(rng, 5, 20))]])
        calls.append(["roll", ["%s * 1000 + %s" % (R.atom_text(gen.dice(rng, 3, 9)), R.atom_text(gen.keepdrop(rng, 4, 9)))]])
    calls.append([rng.choice(MODES), texts])
    if rolls and rng.random() < 0.5:
        calls += big_rolls(rng)
    return calls


def cases(rng, tier, shard, nshards, impl):
    rounds = 2 if tier == "quick" else 25
    for i in range(rounds):
        yield {"kind": "process", "sessions": [session(rng) for _ in range(12)], "seeds": [rng.randint(1, 2 ** 31) for _ in range(3)] + [0]}
        yield {"kind": "threads", "sessions": [session(rng, False) for _ in range(12)], "threads": rng.randint(4, 8), "shared": i % 2 == 0, "salt": rng.randint(0, 9999)}


def run(case, mon):
    for calls in case["sessions"]:
        mon.nontrivial((case["kind"], [(m, len(t)) for m, t in calls], calls[0][1]))
    if case["kind"] == "process":
        outputs = []
        for seed in case["seeds"]:
            env = dict(os.environ, PYTHONHASHSEED=str(seed))
            done = subprocess.run([sys.executable, os.path.join(HERE, "c16_child.py")], input=json.dumps({"sessions": case["sessions"]}),
                                  env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
            if done.returncode != 0:
                raise RuntimeError("child failed: " + done.stderr[-2000:])
            outputs.append(json.loads(done.stdout))
            mon.event("processes_compared")
            mon.event("hash_seeds")
        mon.event("seeded_roll_calls", sum(m.startswith("roll") for calls in case["sessions"] for m, _ in calls))
        for number in range(len(case["sessions"])):
            for seed, output in zip(case["seeds"][1:], outputs[1:]):
                if not mon.check(same(output[number], outputs[0][number]), "the same session gives other results under another hash seed",
                                 session=case["sessions"][number], seeds=[case["seeds"][0], seed], first=outputs[0][number], second=output[number]):
                    return
        mon.sample({"sessions": len(case["sessions"]), "first": case["sessions"][0]})
        return
    expected = [run_session(calls, core.new_interpreter()) for calls in case["sessions"]]
    results, errors = {}, []
    barrier = threading.Barrier(case["threads"])

    def body(index):
        try:
            interpreter_source = (lambda: core.new_interpreter()) if case["shared"] else (lambda: core.new_interpreter(fresh_parser=True))
            order = list(range(len(case["sessions"])))
            random.Random(case["salt"] + index).shuffle(order)
            barrier.wait(timeout=120)
            for number in order:
                results[(index, number)] = run_session(case["sessions"][number], interpreter_source())
        except Exception as error:  # noqa: reported below
            errors.append(repr(error))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        threads = [threading.Thread(target=body, args=(i,)) for i in range(case["threads"])]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(old)
    mon.event("thread_switch_rounds")
    mon.check(not errors, "a thread failed", seen=errors[:3])
    for (index, number), got in sorted(results.items()):
        mon.event("concurrent_sessions")
        if not mon.check(same(got, expected[number]), "a session gives other results when other threads use their own interpreters",
                         session=case["sessions"][number], seen=got, expected=expected[number]):
            return
