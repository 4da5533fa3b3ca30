"""Workload generators: dice, expressions and programs as reference ASTs (see refmodel)."""
import refmodel as R

CMP = ["==", "!=", "<=", "<", ">=", ">"]
ARITH = ["+", "-", "*", "//"]
NAMES = [
    "a", "b", "c", "x", "x_y", "_", "__", "a_", "a__", "_a", "d", "k", "e_d", "dk", "mod", "abs", "max", "var", "or",
    "and_", "true", "damage_half_on_save", "a_very_long_variable_name_that_goes_on_and_on_and_on_for_quite_a_while",
]


def small_int(rng):
    r = rng.random()
    if r < 0.55:
        return rng.randint(0, 6)
    if r < 0.8:
        return rng.randint(-6, -1)
    if r < 0.95:
        return rng.randint(-40, 40)
    return rng.choice([-1000, 997, 100, 65536, -99, 255, 256, 257, 300, -257])


def random_name(rng):
    """Any legal name that is not a reserved report key."""
    while True:
        name = "".join(rng.choice("abcdefghijklmnopqrstuvwxyz___ddkkxo") for _ in range(rng.choice([1, 1, 2, 3, 5, 9, 17])))
        if name != "stdout":
            return name


def name_pool(rng, n):
    if rng.random() < 0.15:  # names that are easy to confuse: long shared prefixes or suffixes, prefixes of one another
        stem = "".join(rng.choice("abcdefgxyz_") for _ in range(rng.choice([1, 3, 8, 16, 31, 40, 64, 100])))
        if rng.random() < 0.3:
            return [stem * k for k in range(1, n + 1)] if stem != "stdout" else NAMES[:n]
        tails = rng.sample("abcdefghijklmnopqrstuvwxyz_", n)
        return [stem + t for t in tails] if rng.random() < 0.6 else [t + stem for t in tails]
    return rng.sample(NAMES, n) if rng.random() < 0.6 else sorted({random_name(rng) for _ in range(3 * n)})[:n]


def custom_sides(rng, max_entries=4, lo=-5, hi=8, uniform=False, spaces=True):
    entries, parts = [], []
    count = rng.randint(1, max_entries)
    spaced = 0
    text = "["
    for i in range(count):
        a = rng.randint(lo, hi)
        b = None
        if rng.random() < 0.3:
            b = a + rng.choice([-3, -2, -1, 0, 1, 2, 3] if rng.random() < 0.9 or hi < 50 else [-40, 11, 60])
        m = None
        if not uniform and rng.random() < 0.35:
            m = rng.choice([1, 2, 3, 5, 7, 0, 2, 3, 10, 12])
        entries.append([a, b, m])
        part = number_text(rng, a)
        if b is not None:
            part += "-" + number_text(rng, b)
        if m is not None:
            part += "*" + str(m)
        parts.append(part)
    if not R.faces(["c", entries]):
        entries[0][2] = 2
        first = number_text(rng, entries[0][0])
        if entries[0][1] is not None:
            first += "-" + number_text(rng, entries[0][1])
        parts[0] = first + "*2"
    for i, part in enumerate(parts):
        before = rng.choice(["", "", "", "", " ", "\t", "\n", "\r\n"]) if spaces and spaced < 5 else ""
        after = rng.choice(["", "", "", "", " ", "\t", "\n", "\f"]) if spaces and spaced < 5 else ""
        spaced += len(before) + len(after)
        text += before + part + after + ("," if i + 1 < count else "")
    if rng.random() < 0.12:
        text += ","
    text += "]"
    if uniform:
        f = R.faces(["c", entries])
        if len(set(f.values())) > 1:
            return custom_sides(rng, max_entries, lo, hi, uniform, spaces)
    return ["c", entries, text]


def number_text(rng, n):
    if rng.random() < 0.03:
        return ("-0" if n < 0 else "0") + str(abs(n))
    return str(n)


def sides(rng, max_faces=6, uniform=False):
    r = rng.random()
    if r < 0.6:
        return ["n", rng.randint(1, max_faces)]
    if r < 0.72:
        return ["F"]
    if r < 0.75 and max_faces >= 100:
        return ["%"]
    return custom_sides(rng, uniform=uniform)


def dice(rng, max_n=3, max_faces=6, uniform=False):
    if uniform:
        n = rng.choice([None, 1])
    else:
        n = rng.choice([None, None, 1] + list(range(1, max_n + 1)))
        if rng.random() < 0.02:
            n = 0
    return ["dice", n, sides(rng, max_faces, uniform)]


def keepdrop(rng, max_n=4, max_faces=5):
    n = rng.choice([None] + list(range(1, max_n + 1)) * 2)
    m = rng.randint(0, (1 if n is None else n) + 1)
    s = sides(rng, max_faces)
    return ["dk", n, s, rng.choice("kd"), m]


def uniform_die(rng, max_faces=4):
    """A die whose every outcome has the same weight (never hits K-WEIGHT)."""
    return ["dice", rng.choice([None, 1]), sides(rng, max_faces, uniform=True)]


def expr(rng, depth, names=(), max_faces=6, uniform=False, name_bias=0.5, division=True, and_bias=True):
    if depth <= 0 or rng.random() < 0.12:
        return leaf(rng, names, max_faces, uniform, name_bias)
    sub = lambda d=1: expr(rng, depth - d, names, max_faces, uniform, name_bias, division, and_bias)
    r = rng.random()
    if r < 0.40:
        op = rng.choice(ARITH)
        if op == "//" and not division:
            op = "+"
        left, right = sub(), sub()
        if op == "//":
            right = nonzero(rng, right)
        return ["bin", op, left, right]
    if r < 0.62:
        return ["bin", rng.choice(CMP), sub(), sub()]
    if r < 0.72:
        op = rng.choice(["AND", "OR"])
        left, right = sub(), sub()
        if and_bias and rng.random() < 0.8:
            left = ["par", ["bin", rng.choice(CMP), left, leaf(rng, names, max_faces, uniform, name_bias)]]
            right = ["par", ["bin", rng.choice(CMP), right, leaf(rng, names, max_faces, uniform, name_bias)]]
        return ["bin", op, left, right]
    if r < 0.78:
        return ["not", sub()]
    if r < 0.84:
        return ["abs", sub()]
    if r < 0.94:
        return ["mm", rng.choice(["MAX", "MIN"]), sub(), sub()]
    return ["par", sub()]


def nonzero(rng, node):
    """Usually make a divisor that cannot be zero."""
    r = rng.random()
    if r < 0.35:
        return ["int", rng.choice([1, 2, 3, -2, 5, 7, -1, 10])]
    if r < 0.6:
        return ["par", ["bin", "+", ["abs", node], ["int", rng.choice([1, 2])]]]
    if r < 0.75:
        return ["dice", None, ["n", rng.randint(1, 4)]]
    return node


def leaf(rng, names, max_faces, uniform, name_bias):
    if names and rng.random() < name_bias:
        return ["name", rng.choice(list(names))]
    r = rng.random()
    if r < 0.35:
        return ["int", small_int(rng)]
    if r < 0.42:
        return ["bool", rng.random() < 0.5]
    if uniform:
        return uniform_die(rng, max_faces)
    if r < 0.85:
        return dice(rng, 2, max_faces)
    return keepdrop(rng, 3, min(4, max_faces))


def fix_not(node):
    """A "!" takes everything to its right, so an operand "! e" must be parenthesised."""
    kind = node[0]
    if kind == "bin":
        left, right = fix_not(node[2]), fix_not(node[3])
        return ["bin", node[1], paren_if_not(left), paren_if_not(right)]
    if kind in ("par", "abs", "not"):
        return [kind, fix_not(node[1])]
    if kind == "mm":
        return ["mm", node[1], fix_not(node[2]), fix_not(node[3])]
    return node


def paren_if_not(node):
    return ["par", node] if node[0] == "not" else node


def program(rng, n_lines, depth=2, max_faces=5, uniform=False, names=None, final_expr=True, reassign=0.25, division=True):
    """Straight-line program: assignments, re-assignments, then (usually) an expression."""
    pool = rng.sample(names, min(len(names), rng.randint(2, 4))) if names else name_pool(rng, rng.randint(2, 4))
    defined, lines = [], []
    for i in range(n_lines):
        last = i == n_lines - 1
        node = fix_not(expr(rng, depth if defined else min(depth, 1), defined, max_faces, uniform, 0.6, division))
        if last and final_expr and rng.random() < 0.85:
            lines.append(["expr", node])
        elif not last and defined and rng.random() < 0.1:
            lines.append(["expr", node])
        else:
            fresh = [n for n in pool if n not in defined]
            name = rng.choice(defined) if defined and (not fresh or rng.random() < reassign) else rng.choice(fresh)
            lines.append(["var", name, node])
            if name not in defined:
                defined.append(name)
    return lines


def texts(lines, rng=None):
    return [R.line_text(line, rng) for line in lines]


def program_shape(lines):
    return ";".join((("V" if l[0] == "var" else "E") + R.shape(l[-1])) for l in lines)
