"""C12: results are snapshots; computing never changes its inputs; interpreters are separate."""
import copy

import core
import gen
import refmodel as R
from c03 import OBJ, apply, build, random_map
from common import norm_seen, sized_program

RULE = ("(a) sessions in which every returned dict, map and cumulative table is vandalised after being read, compared with a twin session "
        "that leaves results alone; (b) earlier results re-read after later calls; (c) distribution operands re-read after every operator "
        "and after being stored as variables; (d) interleaved sessions on separate interpreters (also sharing one parser) against the same "
        "sessions run alone; non-trivial: the session re-reads or re-assigns variables; distinct by program structures")
REQUIRED = ["results_vandalised", "snapshots_reread", "operands_reread", "interleaved_sessions", "stateless_parses", "constructor_maps", "outcome_maps"]
MODES = ["max", "min", "get_probability_distributions", "get_probability_distributions_dict", "get_average"]


def session(rng, n, cap=400):
    calls = []
    lines = sized_program(rng, cap, n_lines=n, depth=rng.choice([1, 2]), max_faces=3, reassign=0.5)
    i = 0
    while i < len(lines):
        k = rng.randint(1, 2)
        # a mode that fills both stores, then reads in any mode
        calls.append([rng.choice(["max", "min"]), gen.texts(lines[i:i + k])])
        names = sorted({l[1] for l in lines[:i + k] if l[0] == "var"})
        if names:
            calls.append([rng.choice(MODES), [rng.choice(names), "%s + 0" % rng.choice(names)]])
        i += k
    return calls


def cases(rng, tier, shard, nshards, impl):
    scale = 3 if tier == "quick" else 25
    for i in range(35 * scale):
        yield {"kind": "vandal", "calls": session(rng, rng.choice([2, 3, 4, 9]), 900)}
    for i in range(35 * scale):
        yield {"kind": "snapshot", "calls": session(rng, rng.choice([2, 3, 4, 9]), 900)}
    for i in range(64 * scale):
        op = OBJ[i % len(OBJ)]
        yield {"kind": "operand", "op": op, "a": random_map(rng, 6), "b": random_map(rng, 6, op == "//")}
    for i in range(20 * scale):
        yield {"kind": "outcomes", "a": random_map(rng, 8)}
    for i in range(20 * scale):
        yield {"kind": "stored", "lines": gen.texts(sized_program(rng, 400, n_lines=rng.randint(2, 4), depth=1, max_faces=3))}
    for i in range(25 * scale):
        sessions = [session(rng, rng.randint(2, 4)) for _ in range(rng.randint(2, 3))]
        order = [j for j, s in enumerate(sessions) for _ in s]
        rng.shuffle(order)
        yield {"kind": "interleaved", "sessions": sessions, "order": order, "parser": rng.choice(["shared", "own"])}


def freeze(value):
    """Deep plain-data copy of a result."""
    if isinstance(value, dict):
        return tuple(sorted(((str(k), freeze(v)) for k, v in value.items())))
    if hasattr(value, "get_result_map"):
        out = (tuple(sorted(value.get_result_map().items())), tuple(sorted(value.get_dict_form().items())), core.observe(value.average)[:2], value.max(), value.min())
        if wide(value):
            return out
        return out + (tuple(sorted(value.at_least().items())), tuple(sorted(value.at_most().items())))
    return value


def wide(d):
    """Cumulative tables list every integer of the range: leave them out for huge ranges."""
    counts = d.get_result_map()
    return max(counts) - min(counts) > 3000


def behaviour(d):
    """How a distribution combines with itself: also shows hidden changes of its outcomes."""
    return (freeze(d), freeze(d + d), freeze(d.max_operator(d)), freeze(d - d), freeze(d.not_operator()), freeze(abs(d)))


def call(interpreter, mode, lines):
    return core.observe(getattr(interpreter, mode), lines)


def frozen(seen):
    if seen[0] != "ok":
        return seen[:2]
    got = core.observe(freeze, seen[1])
    return got[:2]


def vandalise(value, mon):
    mon.event("results_vandalised")
    if isinstance(value, dict):
        for item in list(value.values()):
            vandalise(item, mon)
        for key in list(value):
            value[key] = 12345 if not hasattr(value[key], "get_result_map") else None
        value["stdout"] = -1
        value["intruder"] = 99
        value.pop(next(iter(value)), None)
    elif hasattr(value, "get_result_map"):
        tables = [value.get_result_map(), value.get_dict_form()]
        for table in tables + ([] if wide(value) else [value.at_least(), value.at_most()]):
            for key in list(table):
                table[key] = 7
            table[424242] = 3
        # the map of outcomes with their constraints
        detailed = value.get_constraint_result_map()
        for key in list(detailed)[1:]:
            detailed[key] += 4
        detailed.pop(next(iter(detailed)), None)


def run(case, mon):
    kind = case["kind"]
    globals()["run_" + kind](case, mon)
    mon.sample(case)


def structure(calls):
    from common import parse_lines

    return [(m, gen.program_shape(parse_lines(t))) for m, t in calls]


def run_vandal(case, mon):
    mon.nontrivial(("vandal", structure(case["calls"])))
    rude, polite = core.new_interpreter(), core.new_interpreter()
    for number, (mode, texts) in enumerate(case["calls"]):
        theirs = list(texts)
        seen = call(rude, mode, theirs)
        want = call(polite, mode, list(texts))
        ok = mon.check(frozen(seen) == frozen(want), "a caller's change to an earlier result changed call %d" % number,
                       session=case["calls"][:number + 1], seen=frozen(seen), expected=frozen(want))
        mon.check(theirs == list(texts), "the program list was changed", seen=theirs)
        if not ok:
            return
        if seen[0] == "ok":
            vandalise(seen[1], mon)
            theirs.append("VAR intruder = 1")


def run_snapshot(case, mon):
    mon.nontrivial(("snapshot", structure(case["calls"])))
    interpreter = core.new_interpreter()
    kept = []
    for number, (mode, texts) in enumerate(case["calls"]):
        seen = call(interpreter, mode, list(texts))
        if seen[0] == "ok":
            behaviours = {k: core.observe(behaviour, v)[:2] for k, v in seen[1].items() if hasattr(v, "get_result_map") and len(v.get_result_map()) < 12}
            kept.append((number, mode, seen, frozen(seen), behaviours))
        # every earlier result still reads the same
    interpreter.roll(["VAR zz = 1"])
    for number, mode, seen, before, behaviours in kept:
        mon.event("snapshots_reread")
        after = frozen(seen)
        mon.check(after == before, "the result of call %d (%s) changed after later calls" % (number, mode), session=case["calls"], seen=after, expected=before)
        for key, old in behaviours.items():
            now = core.observe(behaviour, seen[1][key])[:2]
            mon.check(now == old, "the distribution %s returned by call %d behaves differently after later calls" % (key, number), session=case["calls"])


def run_operand(case, mon):
    mon.nontrivial(("operand", case["op"], len(case["a"]), len(case["b"])))
    given = {v: c for v, c in case["a"]}
    original = dict(given)
    from python_dice.src.probability_distribution.probability_distribution_factory import ProbabilityDistributionFactory

    a = ProbabilityDistributionFactory().create(given)
    b = build(case["b"])
    before = core.observe(lambda: (freeze(a), freeze(b)))[:2]
    first = core.observe(lambda: freeze(apply(case["op"], a, b)))[:2]
    self_combined = core.observe(lambda: freeze(apply(case["op"] if case["op"] != "//" else "*", a, a)))
    after = core.observe(lambda: (freeze(a), freeze(b)))[:2]
    mon.event("operands_reread")
    mon.check(before == after, "operator %s changed an operand" % case["op"], a=case["a"], b=case["b"], seen=after, expected=before)
    mon.check(given == original, "operator %s changed the map a distribution was made from" % case["op"], seen=given)
    second = core.observe(lambda: freeze(apply(case["op"], a, b)))[:2]
    mon.check(first == second, "operator %s gives another result the second time" % case["op"], a=case["a"], b=case["b"])
    mon.check(self_combined[0] == "ok", "operator on itself raised", seen=self_combined[1:3])
    mon.event("constructor_maps")
    for key in list(given):
        given[key] += 5
    given[777777] = 1
    mon.check(core.observe(lambda: (freeze(a), freeze(b)))[:2] == before, "changing the map a distribution was made from changed the distribution", a=case["a"])


def run_outcomes(case, mon):
    """Distributions made from a map of outcome objects (what operators and variables use) do not share it."""
    mon.nontrivial(("outcomes", len(case["a"])))
    from python_dice.src.probability_distribution.probability_distribution_factory import ProbabilityDistributionFactory

    factory = ProbabilityDistributionFactory()
    source = build(case["a"])
    given = {outcome: count for outcome, count in source.get_constraint_result_map().items()}
    first, second = factory.create(given), factory.create(given)
    copied = factory.create(source.get_result_map())
    before = [core.observe(behaviour, d)[:2] for d in (source, first, second, copied)]
    mon.event("outcome_maps")
    mon.check(all(b == before[0] for b in before), "the same map of outcomes gives different distributions", a=case["a"])
    for key in list(given):
        given[key] += 3
    given.pop(next(iter(given)))
    vandalise(second, mon)
    vandalise(source, mon)
    after = [core.observe(behaviour, d)[:2] for d in (source, first, second, copied)]
    mon.check(before == after, "changing a map of outcomes changed a distribution", a=case["a"], changed=[i for i in range(4) if before[i] != after[i]])


def run_stored(case, mon):
    """Storing a distribution as a variable must not change the distribution object that was stored."""
    from python_dice.src.probability_distribution.probability_distribution_state_factory import ProbabilityDistributionStateFactory

    mon.nontrivial(("stored", case["lines"]))
    parser = core.shared_parser()
    state = ProbabilityDistributionStateFactory().create_new_empty_set()
    seen = core.observe(lambda: [parser.parse(text, state=state)[0].get_probability_distribution() for text in case["lines"]])
    if not mon.check(seen[0] == "ok", "parse and evaluate raised", seen=seen[1:3], program=case["lines"]):
        return
    dists = [d for d in seen[1] if len(d.get_result_map()) < 12]
    before = [core.observe(behaviour, d)[:2] for d in dists]
    for i, d in enumerate(dists):
        state.set_var("q", d)
        state.set_var("r", d)
    if not dists:
        return
    held = core.observe(lambda: freeze(state.get_var("q") - state.get_var("r")))
    mon.check(held[0] == "ok", "stored variables do not combine", seen=held[1:3])
    after = [core.observe(behaviour, d)[:2] for d in dists]
    mon.event("operands_reread", len(dists))
    mon.check(before == after, "storing a distribution as a variable changed it", program=case["lines"])
    stateless(case, mon)


USES = ["roll", "max", "min", "get_probability_distribution", "estimated_cost"]


def stateless(case, mon):
    """Every parse without a state starts from an empty one of its own."""
    import random

    rng = random.Random(repr(case["lines"]))
    parser = core.shared_parser() if rng.random() < 0.5 else core.new_interpreter(fresh_parser=True)._parser
    held = []
    for round_number in range(rng.randint(2, 6)):
        mon.event("stateless_parses")
        value, uses = rng.randint(-9, 99), rng.sample(USES[:4], rng.randint(1, 3))
        seen = core.observe(lambda: parser.parse("VAR leaked = %d" % value))
        if not mon.check(seen[0] == "ok", "a parse without a state failed", seen=seen[1:3]):
            return
        token, state = seen[1]
        for use in uses:
            mon.check(core.observe(getattr(token, use))[0] == "ok", "an assignment parsed without a state failed", use=use)
        held.append((value, uses, state))
        for use in USES:
            probe = core.observe(lambda: getattr(parser.parse("leaked")[0], use)())
            mon.check(core.is_exc(probe, "KeyError"), "a variable leaked between two parses without a state", assigned_by=uses, read_by=use, seen=probe[1:3])
        for value, uses, state in held:  # each keeps its own
            if set(uses) != {"get_probability_distribution"}:
                probe = core.observe(lambda: parser.parse("leaked", state=state)[0].roll())
                mon.check(probe[:2] == ("ok", value), "the state of one parse was changed by another", assigned_by=uses, expected=value, seen=probe[1:3])
            if set(uses) != {"roll"}:
                probe = core.observe(lambda: parser.parse("leaked", state=state)[0].get_probability_distribution().get_result_map())
                mon.check(probe[:2] == ("ok", {value: 1}), "the state of one parse was changed by another", assigned_by=uses, expected=value, seen=probe[1:3])


def run_interleaved(case, mon):
    mon.nontrivial(("interleaved", [structure(s) for s in case["sessions"]]))
    mon.event("interleaved_sessions")
    own = case["parser"] == "own"
    alone = []
    for calls in case["sessions"]:
        interpreter = core.new_interpreter()
        alone.append([frozen(call(interpreter, mode, list(texts))) for mode, texts in calls])
    together = [core.new_interpreter(fresh_parser=own and i == 0) for i in range(len(case["sessions"]))]
    position = [0] * len(case["sessions"])
    for who in case["order"]:
        mode, texts = case["sessions"][who][position[who]]
        got = frozen(call(together[who], mode, list(texts)))
        want = alone[who][position[who]]
        position[who] += 1
        if not mon.check(got == want, "another interpreter's calls changed this one's result", session=case["sessions"][who][:position[who]], seen=got, expected=want):
            return
