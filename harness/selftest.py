#!/usr/bin/env python3
"""Setup step: the oracles are checked against brute force before any check relies on them."""
import itertools
import os
import random
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "checks"))
import gen  # noqa: E402
import refmodel as R  # noqa: E402
import refparse  # noqa: E402


def draws(node):
    """All outcomes of a variable-free expression, one entry per equally likely draw (brute force)."""
    kind = node[0]
    if kind in ("int", "bool"):
        return [int(node[1])]
    if kind in ("dice", "dk"):
        sides = [v for v, c in R.faces(node[2]).items() for _ in range(c)]
        n = 1 if node[1] is None else node[1]
        out = []
        for rolled in itertools.product(sides, repeat=n):
            rolled = sorted(rolled, reverse=True)
            if kind == "dk":
                rolled = rolled[: node[4]] if node[3] == "k" else rolled[node[4]:]
            out.append(sum(rolled))
        return out
    if kind == "par":
        return draws(node[1])
    if kind in ("not", "abs"):
        return [abs(v) if kind == "abs" else int(v <= 0) for v in draws(node[1])]
    pairs = itertools.product(draws(node[-2]), draws(node[-1]))
    if kind == "mm":
        return [max(p) if node[1] == "MAX" else min(p) for p in pairs]
    return [R.apply_op(node[1], x, y) for x, y in pairs]


def main():
    rng = random.Random(20240501)
    compared = 0
    while compared < 400:
        node = gen.fix_not(gen.expr(rng, rng.choice([0, 1, 1, 2]), (), 4, division=False))
        expected = R.dist(node, {})
        if sum(expected.values()) > 20000:
            continue
        seen = {}
        for v in draws(node):
            seen[v] = seen.get(v, 0) + 1
        assert R.normal(seen) == R.normal(expected), node
        text = R.line_text(["expr", node], rng)
        assert R.normal(R.dist(refparse.parse(text)[1], {})) == R.normal(expected), text
        compared += 1
    for _ in range(300):
        n, take, mode = rng.randint(2, 6), 0, rng.choice("kd")
        take = rng.randint(1, n - 1)
        weights = {rng.randint(-9, 9): rng.randint(1, 4) for _ in range(rng.randint(1, 5))}
        assert R.keep_drop_sets(n, weights, mode, take) == R.keep_drop_steps(n, weights, mode, take), (n, weights, mode, take)
    for text, value in [("1 + 2 * 3", 7), ("10 - 3 - 2", 5), ("2 * 3 == 3", 2), ("! 1 + 1", 0), ("7 // 3 * 2", 4), ("1 OR 0 AND 0", 0), ("3 - -3", 6)]:
        assert R.dist(refparse.parse(text)[1], {}) == {value: 1}, text
    worlds = R.Joint()
    for text in ("VAR a = 2d2", "VAR b = a - 1", "VAR a = a + b"):
        line = refparse.parse(text)
        worlds.assign(line[1], worlds.eval(line[2])[1])
    assert worlds.eval(refparse.parse("a - 2 * b")[1])[0] == {1: 4}
    print("oracle self-test: %d expressions agree with brute force" % compared)


if __name__ == "__main__":
    main()
