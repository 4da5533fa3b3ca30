"""C05: what a session of calls remembers."""
import core
import gen
import refmodel as R
from common import close, norm_seen, parse_lines

RULE = ("random sessions of 4..12 calls (roll, max, min, distributions, dict distributions, average, estimated cost) on one state, "
        "through one interpreter or two sharing a starting state, checked call by call against a two-store model "
        "(values / distributions); non-trivial: the call reads or re-assigns something an earlier call stored; "
        "distinct by (mode sequence, program structures)")
REQUIRED = ["odd_lists", "odd_lists_that_fail", "calls", "value_reports", "distribution_reports", "reads_of_earlier_calls", "calls_after_cost", "shared_state_sessions", "plot_calls", "interpreters_created_late"]
VALUE = ("roll", "max", "min")
DIST = ("get_probability_distributions", "get_probability_distributions_dict", "get_average")
PLOTS = ("get_histogram", "get_at_least_histogram", "get_at_most_histogram")


def no_mm(node):
    return not any(k.startswith("mm") for k in R.kinds_in(node))


def gen_expr(rng, names, mode):
    for _ in range(200):
        node = gen.fix_not(gen.expr(rng, rng.choice([0, 1, 1, 2]), names, 3, True, 0.65, division=False))
        if mode in ("max", "min") and not no_mm(node):
            continue
        if mode == "roll" and "bin:AND" in R.kinds_in(node):
            continue
        if R.size(node) > 7:
            continue
        return node
    return ["int", 1]


def gen_lines(rng, mode, readable, pool):
    """readable: names the mode may read; returns lines and the names assigned."""
    defined, lines = set(readable), []
    for _ in range(rng.randint(1, 3)):
        node = gen_expr(rng, sorted(defined), mode)
        if rng.random() < 0.6:
            name = rng.choice(pool)
            lines.append(["var", name, node])
            defined.add(name)
        else:
            lines.append(["expr", node])
    return lines, {l[1] for l in lines if l[0] == "var"}


DIRECTED = [
    {"share": False, "calls": [["roll", ["VAR a = d6"], 0], ["roll", ["a"], 0], ["roll", ["VAR b = a + 1", "b - a"], 0]]},
    {"share": False, "calls": [["max", ["VAR a = d6 + 10", "VAR b = d6 - 10"], 0], ["min", ["VAR a = d6 + 10", "VAR b = d6 - 10"], 0],
                               ["get_average", ["a + b"], 0], ["max", ["a"], 0]]},
    {"share": False, "calls": [["get_probability_distributions", ["VAR a = d6"], 0], ["max", ["a + 0"], 0], ["roll", ["VAR a = 3"], 0],
                               ["get_average", ["a"], 0], ["roll", ["a"], 0]]},
    {"share": False, "calls": [["roll", ["VAR a = 5"], 0], ["get_estimated_cost", ["VAR a = d4"], 0], ["roll", ["a"], 0]]},
    {"share": False, "calls": [["get_average", ["VAR a = 3"], 0], ["get_average", ["VAR b = a", "VAR a = 4"], 0], ["get_average", ["a - b"], 0]]},
    {"share": False, "calls": [["get_average", ["VAR a = 2d2"], 0], ["get_probability_distributions", ["a + a"], 0]]},
    {"share": False, "calls": [["get_average", ["VAR a = 4"], 0], ["get_probability_distributions", ["VAR a = 8"], 0], ["get_average", ["1"], 0], ["max", ["VAR a = 9"], 0],
                               ["get_average", ["1"], 0], ["get_probability_distributions_dict", ["1"], 0]]},
    {"share": False, "calls": [["roll", ["1 + 1", "(VAR a = d3)"], 0], ["max", ["2", "((VAR b = d4))", "3"], 0], ["get_average", ["1", "(VAR c = b + 1)"], 0], ["min", ["b"], 0]]},
    {"share": False, "calls": [["roll", ["VAR a = 7"], 0], ["get_at_most_histogram", ["VAR a = d3", "VAR b = a + 1"], 0], ["roll", ["a"], 0], ["get_average", ["a + b"], 0],
                               ["get_histogram", ["VAR b = 4", "VAR c = b"], 0], ["get_at_least_histogram", ["VAR b = 5", "a"], 0], ["get_average", ["b - c"], 0], ["roll", ["a"], 0]]},
    {"share": True, "late": True, "calls": [["get_average", ["VAR a = 4"], 0], ["get_average", ["a"], 1], ["get_average", ["VAR a = 9"], 0], ["get_average", ["a"], 1]]},
    {"share": True, "late": True, "calls": [["roll", ["VAR a = 4"], 0], ["roll", ["a"], 1], ["roll", ["VAR a = 9"], 1], ["roll", ["a"], 0]]},
    {"share": True, "calls": [["roll", ["VAR a = d6"], 0], ["roll", ["a"], 1], ["max", ["VAR a = 4"], 1], ["roll", ["a"], 0]]},
]


def cases(rng, tier, shard, nshards, impl):
    if shard in (0, 1):
        for case in DIRECTED:
            yield case
    for i in range(60 if tier == "quick" else 400):
        yield list_case(rng)
    for i in range(260 if tier == "quick" else 3000):
        pool = gen.name_pool(rng, 3)
        values, dists, calls = set(), set(), []
        share = rng.random() < 0.3
        plots = impl == "pypy" and rng.random() < 0.06
        bump = rng.random() < 0.12  # one call many times over
        with_cost = rng.random() < 0.25
        for _ in range(rng.randint(4, 12) if rng.random() < 0.93 else 35):
            r = rng.random()
            mode = rng.choice(VALUE) if r < 0.55 else rng.choice(DIST)
            if plots and rng.random() < 0.3:
                mode = rng.choice(PLOTS)
            if with_cost and rng.random() < 0.2:
                mode = "get_estimated_cost"
            if mode == "get_estimated_cost":
                lines, new = gen_lines(rng, mode, (), pool)
            elif mode == "roll":
                lines, new = gen_lines(rng, mode, values, pool)
                values |= new
            elif mode in VALUE:
                lines, new = gen_lines(rng, mode, values & dists, pool)
                values |= new
                dists |= new
            else:
                lines, new = gen_lines(rng, mode, dists, pool)
                dists |= new
            texts = gen.texts(lines)
            if rng.random() < 0.1:
                texts = ["(%s)" % t if t.startswith("VAR") and rng.random() < 0.6 else t for t in texts]
            calls.append([mode, texts, rng.randint(0, 1) if share else 0])
            idempotent = not new & {n for l in lines for n in R.names_in(l[-1])}  # repeating it does not make values grow
            if bump and idempotent and mode not in PLOTS and rng.random() < 0.1:
                calls.extend([calls[-1]] * rng.choice([3, 9, 20]))
        yield {"share": share, "calls": calls, "late": share and rng.random() < 0.6}


ODD_LINES = ["", " ", "\n", "\t\n ", "VAR a = 1", "VAR a = 1", "  VAR b = 2d4  ", "a + b", "nope", "1 +", "$", "1 // 0", "VAR c = a", "d6\n", "\nVAR a = 3\n", "stdout", "# note", "a;b", "VAR VAR"]


def list_case(rng):
    texts = [rng.choice(ODD_LINES) for _ in range(rng.randint(0, 6))]
    if rng.random() < 0.5:
        texts = ["VAR a = 5", "VAR b = d4"] + texts
    if rng.random() < 0.3:
        texts += [rng.choice(["", "  ", "a"])] * rng.randint(1, 2)
    return {"lists": texts}


def run_lists(case, mon):
    """Whatever a program list holds, and whether or not the call succeeds, the caller's list stays as it was; a call without lines stores nothing."""
    for mode in tuple(VALUE) + tuple(DIST) + ("get_estimated_cost",):
        interpreter = core.new_interpreter()
        core.observe(interpreter.max, ["VAR kept = 4"])
        given = list(case["lists"])
        seen = core.observe(getattr(interpreter, mode), given)
        mon.event("odd_lists")
        if seen[0] == "exc":
            mon.event("odd_lists_that_fail")
        mon.nontrivial(("lists", mode, case["lists"]))
        mon.check(given == case["lists"], "%s changed the program list it was given" % mode, given=case["lists"], seen=given)
        empty = []
        nothing = core.observe(getattr(interpreter, mode), empty)
        mon.check(empty == [], "%s changed the empty program list" % mode, seen=empty)
        mon.check(nothing[0] == "ok" and nothing[1] == (0 if mode == "get_estimated_cost" else {}), "a call without lines reported something", call=mode, seen=nothing[1:3])
        for look in ("roll", "max", "get_average"):
            after = core.observe(getattr(interpreter, look), ["kept"])
            mon.check(after[0] == "ok" and after[1].get("stdout") == 4 and after[1].get("kept") == 4, "a stored name changed though no call assigned it", after=mode, read_by=look, given=case["lists"], seen=after[1:3])


class Model:
    def __init__(self, values, joint, legacy):
        self.values, self.joint, self.legacy = values, joint, legacy

    def copy(self):
        joint = R.Joint()
        joint.worlds = self.joint.worlds
        legacy = R.Legacy(self.legacy.cap)
        legacy.vars, legacy.fresh = dict(self.legacy.vars), self.legacy.fresh
        return Model(dict(self.values), joint, legacy)

    def dist_line(self, line):
        self.legacy.work = 0
        marginal, per_world = self.joint.eval(line[-1], 60000)
        old = self.legacy.eval(line[-1])
        if line[0] == "var":
            self.joint.assign(line[1], per_world)
            self.legacy.assign(line[1], old)
        return marginal, R.Legacy.marginal(old)

    def value_call(self, mode, lines, seen):
        """Check one roll/max/min report; returns an error text or None; updates the model."""
        if not isinstance(seen, dict) or "stdout" not in seen:
            return "no stdout in the report"
        reported = {k: v for k, v in seen.items() if k != "stdout"}
        assigned = {l[1] for l in lines if l[0] == "var"}
        if set(reported) != set(self.values) | assigned:
            return "reported names %s, expected %s" % (sorted(reported), sorted(set(self.values) | assigned))
        if mode == "roll":
            relevant = assigned | {n for l in lines for n in R.names_in(l[-1])}
            worlds = R.Joint()
            worlds.worlds = {tuple(sorted((n, v) for n, v in self.values.items() if n in relevant)): 1}
            for i, line in enumerate(lines):
                _, per_world = worlds.eval(line[-1], 60000)
                if line[0] == "var":
                    worlds.assign(line[1], per_world)
                if i == len(lines) - 1:
                    if line[0] == "var":
                        final = set()
                        for world in worlds.worlds:
                            final.add((world, dict(world)[line[1]]))
                    else:
                        final = {(w, v) for w, _, d in per_world for v in d}
            key = tuple(sorted((n, v) for n, v in reported.items() if n in relevant))
            if (key, seen["stdout"]) not in final:
                return "no execution gives these rolled values"
            for name, value in self.values.items():
                if name not in relevant and reported[name] != value:
                    return "%s changed from %r to %r though the program does not mention it" % (name, value, reported[name])
            self.values = dict(reported)
            return None
        pick = max if mode == "max" else min
        for line in lines:
            node = line[-1]
            while node[0] == "par":
                node = node[1]
            if node[0] == "name":
                value = self.values[node[1]]
                self.dist_line(line)
            else:
                marginal, _ = self.dist_line(line)
                value = pick(marginal)
            if line[0] == "var":
                self.values[line[1]] = value
        if seen["stdout"] != value:
            return "stdout %r, expected %r" % (seen["stdout"], value)
        if reported != self.values:
            return "reported %r, expected %r" % (reported, self.values)
        return None


def run(case, mon):
    if "lists" in case:
        return run_lists(case, mon)
    from python_dice.src.probability_distribution.probability_distribution_state_factory import ProbabilityDistributionStateFactory

    if case["share"]:
        state = ProbabilityDistributionStateFactory().create_new_empty_set()
        interpreters = [core.new_interpreter(state=state), core.new_interpreter(state=state)]
        mon.event("shared_state_sessions")
    else:
        interpreters = [core.new_interpreter()]
    late = case["share"] and case.get("late")  # the second interpreter is made only when it is first used
    clean = Model({}, R.Joint(), R.Legacy(40000))
    overwritten = None  # value store under the recorded K-COST mechanism
    shape, stored, cost_seen = [], set(), False
    for number, (mode, texts, which) in enumerate(case["calls"]):
        lines = parse_lines(texts)
        given = list(texts)
        if late and which == 1:
            interpreters[1] = core.new_interpreter(state=state)
            late = False
            mon.event("interpreters_created_late")
        if mode not in ("roll", "get_estimated_cost"):  # the reference first: leaves out what would be too big to compute
            ahead = clean.copy()
            try:
                for line in lines:
                    marginal, old = ahead.dist_line(line)
            except R.TooBig:
                mon.skip("session cut short: reference too big")
                return
            if mode in PLOTS and max(marginal) - min(marginal) > 200:
                mode = "get_average"
        seen = core.observe(getattr(interpreters[which], mode), given)
        mon.event("calls")
        shape.append((mode, gen.program_shape(lines)))
        detail = {"session": case["calls"][:number + 1], "seen": seen[1:3]}
        if cost_seen:
            mon.event("calls_after_cost")
        if any(R.names_in(l[-1]) & stored for l in lines):
            mon.event("reads_of_earlier_calls")
        stored |= {l[1] for l in lines if l[0] == "var"}
        if not mon.check(given == texts, "call %d changed the program list it was given" % number, **detail):
            return
        if mode == "get_estimated_cost":
            cost_seen = True
            if not mon.check(seen[0] == "ok", "call %d: %s raised" % (number, mode), **detail):
                return
            base = dict(overwritten if overwritten is not None else clean.values)
            costs = {}
            for line in lines:
                if line[0] == "var":
                    costs[line[1]] = R.cost(line[2], costs)
            base.update(costs)
            overwritten = base
            continue
        try:
            if mode in VALUE:
                mon.event("value_reports")
                trial = clean.copy()
                problem = trial.value_call(mode, lines, seen[1]) if seen[0] == "ok" else "raised %s" % (seen[1:3],)
                if problem and overwritten is not None:
                    other = clean.copy()
                    other.values = dict(overwritten)
                    if seen[0] == "ok" and other.value_call(mode, lines, seen[1]) is None:
                        mon.event("oracle_decisions")
                        mon.finding("K-COST", repr(case["calls"][:number + 1]))
                        clean, overwritten = other, None
                        continue
                if overwritten is not None and not problem:
                    keep = {n: v for n, v in overwritten.items() if n not in {l[1] for l in lines if l[0] == "var"}}
                    overwritten = None if all(trial.values.get(n) == v for n, v in keep.items()) else dict(trial.values)
                if not mon.check(problem is None, "call %d (%s): %s" % (number, mode, problem), **detail):
                    return
                clean = trial
                continue
            clean = ahead
            if mode in PLOTS:
                mon.event("plot_calls")
                if not core.plotting():
                    continue
                if not mon.check(seen[0] == "ok", "call %d (%s) raised" % (number, mode), **detail):
                    return
                continue
            mon.event("distribution_reports")
            if not mon.check(seen[0] == "ok", "call %d (%s) raised" % (number, mode), **detail):
                return
            report = seen[1]
            names = clean.joint.names()
            if not mon.check(set(report) == names | {"stdout"}, "call %d (%s): reported names" % (number, mode),
                             expected=sorted(names), **detail):
                return
            wanted = {"stdout": (marginal, old)}
            for name in names:
                wanted[name] = (clean.joint.marginal(name), R.Legacy.marginal(clean.legacy.vars[name]))
            for key, (want, old) in wanted.items():
                if matches(mode, report[key], want):
                    mon.event("oracle_decisions")
                elif matches(mode, report[key], old):
                    mon.event("oracle_decisions")
                    mon.finding("K-WEIGHT", repr(case["calls"][:number + 1]))
                else:
                    mon.check(False, "call %d (%s): wrong report for %s" % (number, mode, key), expected=want,
                              seen_value=describe(report[key]), session=case["calls"][:number + 1])
                    return
        except R.TooBig:
            mon.skip("session cut short: reference too big")
            return
    mon.nontrivial(shape)
    mon.sample(case["calls"])


def describe(value):
    try:
        return value.get_result_map()
    except AttributeError:
        return value


def matches(mode, value, want):
    exact = R.normal(want)
    if mode == "get_average":
        return close(value, sum(k * p for k, p in exact.items()))
    if mode == "get_probability_distributions":
        return norm_seen(value.get_result_map()) == exact
    return isinstance(value, dict) and set(value) == set(exact) and all(close(value[k], p) for k, p in exact.items())
