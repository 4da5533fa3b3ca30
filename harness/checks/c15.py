"""C15: constraint sets are order-independent conjunctions, and combining them changes nothing else."""
import core

RULE = ("random multisets of constraints (variable-in-values, null, impossible) built up in random orders and groupings through the "
        "constructor, add_constraint, combine_sets and the merger; oracle: per-variable intersection of the value sets; compliance is "
        "compared on random partial assignments whenever the conjunction is possible; non-trivial: two constraints on one variable; "
        "distinct by the multiset and the build order")
REQUIRED = ["sets_built", "possible_sets", "impossible_sets", "compliance_checks", "merger_runs", "pair_merges"]


def cases(rng, tier, shard, nshards, impl):
    for i in range(1000 if tier == "quick" else 20000):
        names = rng.choice([["a", "b"], ["a_1", "a_2", "a__1"], ["x"], ["n%d" % j for j in range(5)], ["v%d" % j for j in range(9)], ["long" * 9 + t for t in "ab"],
                            ["a_1", "a_10", "a_11", "a_12"], ["a", "", "a "]])
        domain = rng.choice([[0, 1, 2], [-2, -1, 0, 1, 2], [8, 0, 16, 24], list(range(6)), list(range(-10, 12)), [10 ** 20, -10 ** 20, 2 ** 63, 0], [1, 11, 111, 1111],
                             list(range(0, 320, 8))])
        biased = rng.random() < 0.5  # wide value sets, so that several can have a common value
        items = []
        for _ in range(rng.randint(1, 6) if rng.random() < 0.7 else rng.randint(7, 16)):
            r = rng.random()
            if biased and rng.random() < 0.85:
                r = max(r, 0.16)
            if r < 0.1:
                items.append(["null"])
            elif r < 0.15:
                items.append(["impossible"])
            else:
                items.append(["var", rng.choice(names), sorted(rng.sample(domain, rng.randint(0 if r < 0.2 and not biased else (len(domain) // 2 + 1 if biased else 1), len(domain))))])
        yield {"items": items, "names": names, "domain": domain, "salt": rng.randint(0, 10 ** 9)}


def meaning(items):
    """None when impossible, else {name: allowed values}."""
    allowed = {}
    for item in items:
        if item[0] == "impossible":
            return None
        if item[0] == "var":
            values = set(item[2])
            allowed[item[1]] = allowed.get(item[1], values) & values
    if any(not v for v in allowed.values()):
        return None
    return allowed


def run(case, mon):
    import random

    from python_dice.src.constraint.constraint_factory import ConstraintFactory
    from python_dice.src.constraint.constraint_merger import ConstraintMerger
    from python_dice.src.constraint.constraint_set import ConstraintSet
    from python_dice.src.constraint.constraint_set_factory import ConstraintSetFactory

    rng = random.Random(case["salt"])
    factory, merger = ConstraintFactory(), ConstraintMerger()
    items = case["items"]

    def make(item):
        if item[0] == "null":
            return factory.null_constraint
        if item[0] == "impossible":
            return factory.impossible_constraint
        return factory.var_value_constraint(name=item[1], values=set(item[2]))

    names = [i[1] for i in items if i[0] == "var"]
    if len(set(names)) < len(names):
        mon.nontrivial((items, case["salt"] % 7))
    allowed = meaning(items)
    mon.event("possible_sets" if allowed is not None else "impossible_sets")
    assignments = [{n: rng.choice(case["domain"] + [99]) for n in case["names"] if rng.random() < 0.8} for _ in range(6)]
    if allowed:
        assignments.append({n: rng.choice(sorted(v)) for n, v in allowed.items()})

    def judge(built, how, order):
        mon.event("sets_built")
        seen = core.observe(built.is_possible)
        if not mon.check(seen[0] == "ok" and seen[1] == (allowed is not None), "%s: is_possible" % how, seen=seen[1:3], expected=allowed, order=order):
            return False
        if allowed is None:
            return True
        for values in assignments:
            want = all(values[n] in vs for n, vs in allowed.items() if n in values)
            got = core.observe(built.complies, dict(values))
            mon.event("compliance_checks")
            if not mon.check(got[0] == "ok" and got[1] == want, "%s: complies(%r)" % (how, values), seen=got[1:3], expected=want, order=order):
                return False
        return True

    def group(parts):
        """Build with a random mixture of the ways to build."""
        if len(parts) == 1 or rng.random() < 0.4:
            way = rng.random()
            constraints = [make(p) for p in parts]
            if way < 0.4:
                try:
                    return ConstraintSet(set(constraints), merger)
                except TypeError:
                    pass
            built = ConstraintSetFactory().create_constraint_set() if way < 0.7 else ConstraintSet({constraints[0]}, merger)
            for c in constraints if way < 0.7 else constraints[1:]:
                built.add_constraint(c)
            return built
        cut = rng.randint(1, len(parts) - 1)
        left, right = group(parts[:cut]), group(parts[cut:])
        before = [snapshot(left), snapshot(right)]
        joined = left.combine_sets(right)
        after = [snapshot(left), snapshot(right)]
        mon.check(before == after, "combine_sets changed one of the sets it combined", seen=after, expected=before)
        return joined

    def snapshot(s):
        constraints = s.constraints
        return (s.is_possible(), len(constraints), sorted((c.name, tuple(sorted(c.values))) for c in constraints if hasattr(c, "values")),
                [s.complies(dict(v)) for v in assignments])

    for _ in range(3):
        order = list(items)
        rng.shuffle(order)
        seen = core.observe(group, order)
        if not mon.check(seen[0] == "ok", "building the set raised", seen=seen[1:3], order=order):
            return
        if not judge(seen[1], "constraint set", order):
            return
        # adding what is already implied changes nothing
        seen[1].add_constraint(factory.null_constraint)
        if items[0][0] == "var":
            seen[1].add_constraint(make(items[0]))
        if not judge(seen[1], "constraint set with a repeated constraint", order):
            return
        copied = seen[1].constraints
        copied.add(factory.impossible_constraint)
        if not judge(seen[1], "constraint set after its reported constraints were changed", order):
            return
        # one constraint at a time, in sets the caller owns
        owned, current = [], set()
        for item in order:
            before = (len(current), sorted(map(str, current)))
            step = core.observe(merger.merge_new_constraints, current, make(item))
            mon.event("merger_runs")
            if not mon.check(step[0] == "ok" and (len(current), sorted(map(str, current))) == before, "merge_new_constraints raised or changed the set it was given",
                             seen=step[1:3], before=before, order=order):
                return
            owned.append((current, before))
            current = set(step[1])
        mon.check(all((len(s), sorted(map(str, s))) == before for s, before in owned), "a later merge changed a set merged earlier", order=order)
        mon.check(all(c.is_possible() for c in current) == (allowed is not None), "merge_new_constraints: possible", seen=str(current), expected=allowed, order=order)
        if allowed is not None:
            for values in assignments:
                want = all(values[n] in vs for n, vs in allowed.items() if n in values)
                mon.check(all(c.complies(dict(values)) for c in current) == want, "merge_new_constraints: complies(%r)" % values, seen=str(current), order=order)
        # the merger alone
        given = {make(i) for i in order}
        size, looks = len(given), sorted(map(str, given))
        merged = core.observe(merger.merge_constraints, given)
        mon.event("merger_runs")
        if not mon.check(merged[0] == "ok" and len(given) == size and looks == sorted(map(str, given)), "merge_constraints raised or changed its input", seen=merged[1:3], order=order):
            return
        whole = all(c.is_possible() for c in merged[1])
        mon.check(whole == (allowed is not None), "merge_constraints: possible", seen=str(merged[1]), expected=allowed, order=order)
        if allowed is not None:
            for values in assignments:
                want = all(values[n] in vs for n, vs in allowed.items() if n in values)
                mon.check(all(c.complies(dict(values)) for c in merged[1]) == want, "merge_constraints: complies(%r)" % values, seen=str(merged[1]), order=order)
    # pairwise merges leave both sides alone
    every = [i for i in items if i[0] == "var"]
    for pairs in [[every[i], every[j]] for i in range(len(every)) for j in range(len(every)) if i != j][:8]:
        x, y = make(pairs[0]), make(pairs[1])
        mon.event("pair_merges")
        can = core.observe(x.can_merge, y)
        mon.check(can[0] == "ok" and can[1] == (pairs[0][1] == pairs[1][1]), "can_merge", seen=can[1:3], pair=pairs[:2])
        seen = core.observe(x.merge, y)
        if pairs[0][1] == pairs[1][1]:
            both = set(pairs[0][2]) & set(pairs[1][2])
            mon.check(seen[0] == "ok" and seen[1].is_possible() == bool(both), "merge of two constraints", seen=seen[1:3], pair=pairs[:2])
            if both and seen[0] == "ok":
                for v in case["domain"]:
                    mon.check(seen[1].complies({pairs[0][1]: v}) == (v in both), "merged constraint at %r" % v, pair=pairs[:2])
        else:
            mon.check(core.is_exc(seen, "ValueError"), "merging constraints on different variables must be refused", seen=seen[1:3], pair=pairs[:2])
        mon.check(set(x.values) == set(pairs[0][2]) and set(y.values) == set(pairs[1][2]), "merging changed a constraint", pair=pairs[:2])
    mon.sample({"items": items, "possible": allowed is not None})
