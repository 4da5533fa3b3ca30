"""Independent reference semantics of the python_dice language.

Nothing here imports or copies the code under test: the model enumerates worlds
(one concrete value per variable) and evaluates every line separately in each
world, with exact integer weights.

AST nodes are plain lists (JSON-able):
  ["int", n] ["bool", b] ["name", s]
  ["dice", n|None, sides]            sides: ["n",k] ["%"] ["F"] ["c", [[lo,hi|None,mult|None],...], text]
  ["dk", n|None, sides, "k"|"d", m]
  ["bin", op, l, r]                  op: + - * // == != <= < >= > AND OR
  ["not", e] ["abs", e] ["mm", "MAX"|"MIN", a, b] ["par", e]
A program line is ["expr", node] or ["var", name, node].
"""
from fractions import Fraction
from itertools import combinations_with_replacement
from math import factorial

ZDE = "ZeroDivisionError"


# ---------------------------------------------------------------- dice
def faces(sides):
    kind = sides[0]
    if kind == "n":
        return {v: 1 for v in range(1, sides[1] + 1)}
    if kind == "%":
        return {v: 1 for v in range(1, 101)}
    if kind == "F":
        return {-1: 1, 0: 1, 1: 1}
    out = {}
    for low, high, mult in sides[1]:
        mult = 1 if mult is None else mult
        if high is None:
            high = low
        low, high = min(low, high), max(low, high)
        if mult:
            for v in range(low, high + 1):
                out[v] = out.get(v, 0) + mult
    return out


def convolve(a, b):
    out = {}
    for x, p in a.items():
        for y, q in b.items():
            out[x + y] = out.get(x + y, 0) + p * q
    return out


def ndice(n, face_map):
    """n-fold sum, by repeated squaring (not the implementation's n-1 additions)."""
    result, base = {0: 1}, face_map
    while n:
        if n & 1:
            result = convolve(result, base)
        n >>= 1
        if n:
            base = convolve(base, base)
    return result


def keep_drop(n, face_map, mode, m):
    """Sum of the m highest dice ("k"), or of what is left without the m highest ("d")."""
    take = min(m, n) if mode == "k" else max(n - m, 0)
    if take == 0:
        return {0: 1}
    if take == n:
        return ndice(n, face_map)
    f, sets = len(face_map), 1
    for i in range(n):
        sets = sets * (f + i) // (i + 1)
    return keep_drop_sets(n, face_map, mode, take) if sets <= 3000 else keep_drop_steps(n, face_map, mode, take)


def keep_drop_steps(n, face_map, mode, take):
    """Face by face from the counted end, tracking how many dice are placed and what the first `take` of them sum to."""
    state = {(0, 0): 1}
    for face in sorted(face_map, reverse=mode == "k"):
        new = {}
        for (placed, total), ways in state.items():
            for run in range(n - placed + 1):
                counted = min(run, max(0, take - placed))
                key = (placed + run, total + face * counted)
                more = ways * (factorial(n - placed) // (factorial(run) * factorial(n - placed - run))) * face_map[face] ** run
                new[key] = new.get(key, 0) + more
        state = new
    return {total: ways for (placed, total), ways in state.items() if placed == n}


def keep_drop_sets(n, face_map, mode, take):
    out = {}
    for combo in combinations_with_replacement(sorted(face_map), n):  # combo is sorted ascending
        ways, left, i = 1, n, 0
        while i < n:
            j = i
            while j < n and combo[j] == combo[i]:
                j += 1
            run = j - i
            ways *= factorial(left) // (factorial(run) * factorial(left - run)) * face_map[combo[i]] ** run
            left -= run
            i = j
        value = sum(combo[n - take:]) if mode == "k" else sum(combo[:take])
        out[value] = out.get(value, 0) + ways
    return out


_DICE_CACHE = {}


def dice_dist(node):
    key = repr(node)
    if key not in _DICE_CACHE:
        if len(_DICE_CACHE) > 5000:
            _DICE_CACHE.clear()
        n = 1 if node[1] is None else node[1]
        if node[0] == "dice":
            _DICE_CACHE[key] = ndice(n, faces(node[2]))
        else:
            _DICE_CACHE[key] = keep_drop(n, faces(node[2]), node[3], node[4])
    return _DICE_CACHE[key]


# ---------------------------------------------------------------- operators
def apply_op(op, x, y, bitwise_and=False):
    if op == "+":
        return x + y
    if op == "-":
        return x - y
    if op == "*":
        return x * y
    if op == "//":
        return ZDE if y == 0 else x // y
    if op == "==":
        return int(x == y)
    if op == "!=":
        return int(x != y)
    if op == "<=":
        return int(x <= y)
    if op == "<":
        return int(x < y)
    if op == ">=":
        return int(x >= y)
    if op == ">":
        return int(x > y)
    if op == "AND":
        if bitwise_and:
            return int((x & y) != 0)
        return int(x > 0 and y > 0)
    if op == "OR":
        return int(x > 0 or y > 0)
    raise AssertionError(op)


def combine(a, b, fn):
    out = {}
    for x, p in a.items():
        for y, q in b.items():
            v = ZDE if (x == ZDE or y == ZDE) else fn(x, y)
            out[v] = out.get(v, 0) + p * q
    return out


def push(a, fn):
    out = {}
    for x, p in a.items():
        v = ZDE if x == ZDE else fn(x)
        out[v] = out.get(v, 0) + p
    return out


class Undefined(Exception):
    pass


def dist(node, env, bitwise_and=False):
    """Distribution (value -> integer weight) of a node in one world; ZDE is an absorbing value."""
    kind = node[0]
    if kind == "int":
        return {node[1]: 1}
    if kind == "bool":
        return {int(node[1]): 1}
    if kind == "name":
        if node[1] not in env:
            raise Undefined(node[1])
        return {env[node[1]]: 1}
    if kind in ("dice", "dk"):
        return dice_dist(node)
    if kind == "par":
        return dist(node[1], env, bitwise_and)
    if kind == "assign":
        return dist(node[2], env, bitwise_and)
    if kind == "not":
        return push(dist(node[1], env, bitwise_and), lambda v: int(not v > 0))
    if kind == "abs":
        return push(dist(node[1], env, bitwise_and), abs)
    if kind == "mm":
        fn = max if node[1] == "MAX" else min
        return combine(dist(node[2], env, bitwise_and), dist(node[3], env, bitwise_and), fn)
    if kind == "bin":
        op = node[1]
        return combine(
            dist(node[2], env, bitwise_and),
            dist(node[3], env, bitwise_and),
            lambda x, y: apply_op(op, x, y, bitwise_and),
        )
    raise AssertionError(kind)


def names_in(node, acc=None):
    acc = set() if acc is None else acc
    if node[0] == "name":
        acc.add(node[1])
    for child in node[1:]:
        if isinstance(child, list) and child and isinstance(child[0], str) and node[0] not in ("dice", "dk"):
            names_in(child, acc)
    return acc


def kinds_in(node, acc=None):
    acc = [] if acc is None else acc
    acc.append(node[0] if node[0] not in ("bin", "mm") else node[0] + ":" + node[1])
    for child in node[1:]:
        if isinstance(child, list) and child and isinstance(child[0], str) and node[0] not in ("dice", "dk"):
            kinds_in(child, acc)
    return acc


def size(node):
    return len(kinds_in(node))


def shape(node):
    """Structure without the constants: used to count distinct structures."""
    kind = node[0]
    if kind in ("int", "bool", "name"):
        return kind[0]
    if kind == "dice":
        return "D" + node[2][0]
    if kind == "dk":
        return "K" + node[2][0] + node[3]
    if kind == "bin":
        return "(" + shape(node[2]) + node[1] + shape(node[3]) + ")"
    if kind == "mm":
        return node[1] + "(" + shape(node[2]) + "," + shape(node[3]) + ")"
    if kind == "par":
        return "[" + shape(node[1]) + "]"
    if kind == "assign":
        return "=" + shape(node[2])
    return kind + "(" + shape(node[1]) + ")"


# ---------------------------------------------------------------- programs: exact joint semantics
class Joint:
    """Worlds: mapping {(sorted (name, value) tuple): weight}; exact, by forward enumeration."""

    def __init__(self):
        self.worlds = {(): 1}

    def names(self):
        return {n for n, _ in next(iter(self.worlds))}

    def eval(self, node, cap=400000):
        """Marginal {value: weight}; may contain ZDE. Also returns per-world distributions."""
        reads = names_in(node)
        memo, marginal, per_world, work = {}, {}, [], 0
        for world, weight in self.worlds.items():
            env = {n: v for n, v in world if n in reads}
            key = tuple(sorted(env.items()))
            if key not in memo:
                memo[key] = dist(node, env)
            d = memo[key]
            work += len(d)
            if work > cap:
                raise TooBig()
            per_world.append((world, weight, d))
            for v, p in d.items():
                marginal[v] = marginal.get(v, 0) + weight * p
        return marginal, per_world

    def assign(self, name, per_world):
        new = {}
        for world, weight, d in per_world:
            base = {n: v for n, v in world if n != name}
            for v, p in d.items():
                base[name] = v
                key = tuple(sorted(base.items()))
                new[key] = new.get(key, 0) + weight * p
        self.worlds = new

    def marginal(self, name):
        out = {}
        for world, weight in self.worlds.items():
            v = dict(world)[name]
            out[v] = out.get(v, 0) + weight
        return out


class TooBig(Exception):
    pass


def hoist(lines):
    """The same program with every assignment that stands inside an expression on a line of its own before it, and
    the hoisted index of each line. (For lines that read such a name only to the right of its assignment.)"""
    out, where = [], []

    def lift(node):
        if node[0] in ("dice", "dk"):
            return node
        node = [lift(child) if isinstance(child, list) else child for child in node]
        if node[0] == "assign":
            out.append(["var", node[1], node[2]])
            return ["name", node[1]]
        return node

    for line in lines:
        out.append(line[:-1] + [lift(line[-1])])
        where.append(len(out) - 1)
    return out, where


# ---------------------------------------------------------------- the recorded wrong weighting (finding K-WEIGHT)
class Legacy:
    """What the code is known to compute for variables: every reference to a
    shared variable multiplies its count in again, conflicts are dropped."""

    def __init__(self, cap=4000):
        self.vars = {}
        self.fresh = 0
        self.cap = cap
        self.work = 0

    def _lift(self, d):
        return {(frozenset(), v): w for v, w in d.items()}

    def _combine(self, a, b, fn):
        out = {}
        self.work += len(a) * len(b)
        if self.work > self.cap:
            raise TooBig()
        for (ca, x), p in a.items():
            da = dict(ca)
            for (cb, y), q in b.items():
                if any(da.get(k, v) != v for k, v in cb):
                    continue
                key = (ca | cb, fn(x, y))
                out[key] = out.get(key, 0) + p * q
        return out

    def eval(self, node):
        kind = node[0]
        if kind in ("int", "bool", "dice", "dk"):
            return self._lift(dist(node, {}))
        if kind == "name":
            return self.vars[node[1]]
        if kind == "par":
            return self.eval(node[1])
        if kind == "assign":  # (finding K-NESTED: the operand is not tied to the variable it was stored in)
            out = self.eval(node[2])
            self.assign(node[1], out)
            return out
        if kind in ("not", "abs"):
            fn = abs if kind == "abs" else (lambda v: int(not v > 0))
            out = {}
            for (c, v), p in self.eval(node[1]).items():
                key = (c, fn(v))
                out[key] = out.get(key, 0) + p
            return out
        if kind == "mm":
            return self._combine(self.eval(node[2]), self.eval(node[3]), max if node[1] == "MAX" else min)
        op = node[1]
        return self._combine(self.eval(node[2]), self.eval(node[3]), lambda x, y: apply_op(op, x, y))

    def assign(self, name, outcomes):
        self.fresh += 1
        inst = (name, self.fresh)
        self.vars[name] = {(c | {(inst, v)}, v): w for (c, v), w in outcomes.items()}

    @staticmethod
    def marginal(outcomes):
        out = {}
        for (_, v), w in outcomes.items():
            out[v] = out.get(v, 0) + w
        return out


def normal(d):
    """Exact normalised form of a weight map."""
    total = sum(d.values())
    return {k: Fraction(v, total) for k, v in d.items()} if total else {}


# ---------------------------------------------------------------- max / min
def structural_extreme(node, which, constants, support_of):
    """The recorded interval rule (finding K-MINMAX): MIN/MAX of extremes, a
    variable is its stored extreme, everything else is the true extreme."""
    kind = node[0]
    if kind == "par":
        return structural_extreme(node[1], which, constants, support_of)
    if kind == "name":
        return constants[node[1]]
    if kind == "mm":
        fn = max if node[1] == "MAX" else min
        return fn(
            structural_extreme(node[2], which, constants, support_of),
            structural_extreme(node[3], which, constants, support_of),
        )
    support = support_of(node)
    return max(support) if which == "max" else min(support)


# ---------------------------------------------------------------- cost
def cost(node, var_costs):
    kind = node[0]
    if kind in ("int", "bool"):
        return 2
    if kind == "name":
        if node[1] not in var_costs:
            raise Undefined(node[1])
        return var_costs[node[1]]
    if kind == "dice":
        return (1 if node[1] is None else node[1]) * len(faces(node[2]))
    if kind == "dk":
        n = 1 if node[1] is None else node[1]
        f, m = len(faces(node[2])), node[4]
        if node[3] == "k":
            if m >= n:
                return n * f
            return n * m * f if m else 2
        if m >= n:
            return 2
        return n * (n - m) * f if m else n * f
    if kind == "par" or kind == "abs":
        return cost(node[1], var_costs)
    if kind == "not":
        return cost(node[1], var_costs) * 11 // 10
    if kind == "assign":
        var_costs[node[1]] = cost(node[2], var_costs)
        return var_costs[node[1]] + 2
    return cost(node[2], var_costs) + cost(node[3], var_costs)


def program_cost(lines):
    total, var_costs = 0, {}
    for line in lines:
        if line[0] == "var":
            c = cost(line[2], var_costs)
            var_costs[line[1]] = c
            total += c + 2
        else:
            total += cost(line[1], var_costs)
    return total


# ---------------------------------------------------------------- rendering
PREC = {"+": 1, "-": 1, "*": 2, "//": 2}


def prec(node):
    if node[0] == "bin":
        return PREC.get(node[1], 3)
    if node[0] in ("not", "assign"):
        return 0
    return 9


def sides_text(sides):
    if sides[0] == "n":
        return str(sides[1])
    if sides[0] == "c":
        if len(sides) > 2:
            return sides[2]
        return "[%s]" % ",".join(
            str(a) + ("" if b is None else "-%d" % b) + ("" if m is None else "*%d" % m) for a, b, m in sides[1]
        )
    return sides[0]


def atom_text(node):
    kind = node[0]
    if kind == "int":
        return str(node[1])
    if kind == "bool":
        return "True" if node[1] else "False"
    if kind == "name":
        return node[1]
    n = "" if node[1] is None else str(node[1])
    text = n + "d" + sides_text(node[2])
    return text if kind == "dice" else text + node[3] + str(node[4])


def tokens(node):
    """Token texts of an expression, with the parentheses its structure needs."""
    kind = node[0]
    if kind in ("int", "bool", "name", "dice", "dk"):
        return [atom_text(node)]
    if kind == "par":
        return ["("] + tokens(node[1]) + [")"]
    if kind == "not":
        return ["!"] + tokens(node[1])
    if kind == "assign":
        return ["VAR", node[1], "="] + tokens(node[2])
    if kind == "abs":
        return ["ABS", "("] + tokens(node[1]) + [")"]
    if kind == "mm":
        return [node[1], "("] + tokens(node[2]) + [","] + tokens(node[3]) + [")"]
    p = prec(node)
    left, right = tokens(node[2]), tokens(node[3])
    if prec(node[2]) < p:
        left = ["("] + left + [")"]
    if prec(node[3]) <= p:
        right = ["("] + right + [")"]
    return left + [node[1]] + right


def line_tokens(line):
    if line[0] == "var":
        return ["VAR", line[1], "="] + tokens(line[2])
    return tokens(line[1])


def _glue_ok(a, b):
    """May token b follow token a with no space and still lex as two tokens?"""
    wordy = lambda c: c.isalnum() or c == "_"
    if wordy(a[-1]) and wordy(b[0]):
        return False
    if a == "-" and b[0].isdigit():
        return False
    if b[0] == "-" and len(b) > 1:  # negative literal after anything: keep apart
        return a[-1] in "(,*+"
    if a[-1] in "=!<>" and b[0] == "=":
        return False
    if a == "/" or b == "/":
        return False
    if a[-1] in "%F]" and wordy(b[0]):  # d%k1 / d[1]d1 would fuse
        return False
    if wordy(a[-1]) and b[0] in "[%":
        return False
    return True


def join(toks, rng=None):
    if rng is None:
        return " ".join(toks)
    style = rng.choice(["plain", "plain", "tight", "loose"])
    out = toks[0]
    for a, b in zip(toks, toks[1:]):
        if style == "tight" and _glue_ok(a, b):
            sep = ""
        elif style == "loose":
            sep = rng.choice([" ", "  ", "\t", " \n ", "    ", "\n"])
        else:
            sep = " "
        out += sep + b
    if style == "loose" and rng.random() < 0.5:
        out = rng.choice([" ", "\t", "\n"]) + out + rng.choice(["", " ", "\n"])
    return out


def line_text(line, rng=None):
    return join(line_tokens(line), rng)
