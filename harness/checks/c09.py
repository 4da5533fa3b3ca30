"""C09: text means what the grammar says, whatever the spacing; printing and parsing agree."""
import core
import gen
import refmodel as R
import refparse
from common import norm_seen

RULE = ("unparenthesised operator chains mixing every operator, prefix !, parentheses, ABS, MIN/MAX, all atom kinds, negative literals, "
        "deep nesting and long chains; oracle is a hand-written tokenizer and precedence-climbing parser; each text is also re-spaced, "
        "re-printed and re-parsed; non-trivial: two or more operators; distinct by syntax-tree structure")
REQUIRED = ["token_streams_compared", "meanings_compared", "print_round_trips", "respaced_texts", "variable_sets_compared", "chains_with_not"]
FIXED = {"a": 2, "b": -3, "c": 0, "x_y": 7, "d": 1, "k": 3, "or": 4, "_": -1, "abs": 5, "dk": 2, "max": -2}
OPS = ["+", "-", "*", "//", "==", "!=", "<=", "<", ">=", ">", "AND", "OR"]


def atom(rng, depth, names):
    r = rng.random()
    if depth > 0 and r < 0.18:
        return ["("] + chain(rng, depth - 1, names) + [")"]
    if depth > 0 and r < 0.25:
        return ["ABS", "("] + chain(rng, depth - 1, names) + [")"]
    if depth > 0 and r < 0.35:
        return [rng.choice(["MAX", "MIN"]), "("] + chain(rng, depth - 1, names) + [","] + chain(rng, depth - 1, names) + [")"]
    if r < 0.44:
        return ["!"] + atom(rng, depth, names)
    if r < 0.45:
        inner = ["VAR", rng.choice(["target", "t_t"]), "="] + atom(rng, depth, names)
        return ["("] + inner + [")"] if rng.random() < 0.5 else inner
    if r < 0.6 and names:
        return [rng.choice(names)]
    if r < 0.7:
        return [R.atom_text(gen.dice(rng, 2, 3))]
    if r < 0.73:
        return [R.atom_text(gen.keepdrop(rng, 3, 3))]
    if r < 0.78:
        return [rng.choice(["True", "False"])]
    return [str(rng.choice([0, 1, 2, 3, 4, 5, 7, 10, -1, -2, -5]))]


def chain(rng, depth, names):
    toks = atom(rng, depth, names)
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        op = rng.choice(OPS)
        toks += [op] + (["2"] if op == "//" and rng.random() < 0.6 else atom(rng, depth, names))
    return toks


DIRECTED = ["1 + 2 * 3", "2 * 3 + 1", "10 - 3 - 2", "100 // 7 // 2", "2 * 7 // 3", "7 // 3 * 2", "1 + 2 == 3", "2 * 3 == 3", "1 == 1 == 1",
            "3 > 2 > 1", "1 < 2 < 3", "1 AND 0 OR 1", "1 OR 0 AND 0", "1 OR 1 == 2", "! 1 + 1", "! 0 * 5", "2 * ! 1 + 4", "1 + ! 0 == 1",
            "! ! 5", "-3", "3 - -3", "5 -  3", "( ( ( 3 ) ) )", "MAX(1 + 2, 2 * 2)", "MIN(MAX(1, 2), 3) * 2", "ABS(1 - 5) + 1",
            "1 - 2 + 3", "8 - 4 // 2 - 1", "2 + 3 AND 1", "2 * 3 < 4", "d2*d2+d2", "d2+d2*d2", "(d2+d2)*d2", "!(a)AND(b)", "a<b==c", "x_y//a-b*c",
            "MAX(a,b)+MIN(b,c)*ABS(b)", "3d2k1+2", "2*d[1,2]- 1", "1!=2", "1 != !2", "True+True", "d%==5", "dF*dF", "1\n+\n2", "1 + VAR t = 2 * 3", "2 * VAR t = 3 + 4", "! VAR t = 3 - 5", "(VAR t = 3) * 2", "MAX(VAR t = 1 + 1, 2 * 2)",
            "VAR t = VAR u = 3 - 5", "VAR t = ! 3 - 5", "2 * (VAR t = d2 + 1) - 1", "MIN(VAR t = 3, VAR u = 2) + 1", "ABS(VAR t = 1 - 5) * 2", "\t1 +\r\n 2 ", "007 + 08", "d+d6", "d -d2", "d*d2k1", "k+dk", "or OR or", "abs + ABS(abs)", "max<MAX(max,d)", "_-_", "dk*dk", "d<d", "(d)", "!d", "d6d", "dd"][:-2] + [
            "1 - 1", "2 - -1", "3*-2", "3 *-2", "3//-2", "3 ==-3", "3>-3", "(-3)", "ABS(-3)", "MAX(-3,-4)", "!-3", "1 + -3 + -4", "-0", "-007", "00", "0 - 1",
            "1<2", "1<=2", "1>=2", "1>2", "1==2", "1!=2", "!1!=2", "! 1 != 2", "1!= !2", "!a==b", "1 AND 1", "(1)AND(1)", "(1)OR(0)", "True AND True", "2*(3+4)*5", "2*3+4*5", "2+3*4+5",
            "8//2//2", "8//2*2", "8*2//3", "8 - 2 - 2", "8 - 2+2", "8+2 - 2*3", "1<2==2>1", "1==1 AND 1==1", "1 OR 0 AND 0 OR 0", "0 AND 1 OR 1", "0 OR 1 AND 0", "1 < 2 AND 3 < 4", "2 AND 3 == 1", "1 == 2 OR 1", "5 - 1 > 3", "5 * 1 > 3",
            "1 > 0 * 5", "1 + 2 > 1 + 1", "2 * 2 == 4", "4 == 2 * 2", "10 - 2 * 3 - 1", "10 // 3 * 3 + 1", "1 - 2 * 3 // 4 + 5", "MAX(1,2)*MIN(3,4)-ABS(-5)//2", "!MAX(0,-1)+1", "!ABS(0)*3", "!(0)+1", "(!0)+1", "1 + !0 + 1", "1 * !0 * 5", "!0 AND 0",
            "!1 OR 1", "2 - !0 - 1", "!!0", "!!!0", "! ! a + ! b", "MAX(!0, 1)", "MAX(!0 + 1, 1)", "MIN(1, !0) + 3", "ABS(!0 - 5)"]


def cases(rng, tier, shard, nshards, impl):
    if shard == 0:
        for text in DIRECTED:
            yield {"text": text, "salt": 1}
        yield {"text": "(" * 60 + "d2" + ")" * 60 + " + 1", "salt": 1}
        yield {"text": " + ".join(["1"] * 150), "salt": 1}
        yield {"text": "1" + " - 1" * 120 + " * 2", "salt": 1}
        yield {"text": "! " * 40 + "d2", "salt": 1}
        yield {"text": "ABS(" * 30 + "-3" + ")" * 30, "salt": 1}
        yield {"text": "MAX(1, " * 25 + "d2" + ")" * 25, "salt": 1}
    for i in range(1500 if tier == "quick" else 5000):
        while True:
            toks = chain(rng, rng.choice([0, 1, 1, 2]), sorted(FIXED))
            text = R.join(toks, rng)
            if len(toks) > 60:
                continue
            node = refparse.parse(text)[1]
            if work(node) < (1500 if tier == "quick" else 8000):
                break
        if rng.random() < 0.12:
            text = R.join(["VAR", "target", "="] + toks, rng)
        yield {"text": text, "salt": rng.randint(0, 10 ** 6)}


def work(node):
    kind = node[0]
    if kind in ("par", "not", "abs"):
        return work(node[1])
    if kind == "assign":
        return work(node[2])
    if kind in ("bin", "mm"):
        left, right = R.dist(node[2], FIXED), R.dist(node[3], FIXED)
        return work(node[2]) + work(node[3]) + len(left) * len(right)
    return 1


def plain(node):
    """Tree without the literal text of custom sides."""
    if node[0] in ("dice", "dk"):
        sides = node[2][:2] if node[2][0] == "c" else node[2]
        return node[:2] + [sides] + node[3:]
    return [plain(c) if isinstance(c, list) else c for c in node]


def run(case, mon):
    import random

    rng = random.Random(case["salt"])
    text = case["text"]
    line = refparse.parse(text)
    tokens = refparse.tokenize(text)
    node = line[-1]
    kinds = R.kinds_in(node)
    if sum(k.startswith(("bin", "not", "mm", "abs")) for k in kinds) >= 2:
        mon.nontrivial(R.shape(node))
    if "not" in kinds and any(k.startswith("bin") for k in kinds):
        mon.event("chains_with_not")
    from python_dice.src.python_dice_lexer import PythonDiceLexer

    lexer = _LEXER or _LEXER.append(PythonDiceLexer()) or _LEXER
    seen = core.observe(lambda: [t.getstr() for t in lexer[0].lex(text)])
    mon.event("token_streams_compared")
    if not mon.check(seen[0] == "ok" and seen[1] == [t[1] for t in tokens], "tokens of %r" % text, seen=seen[1:3], expected=[t[1] for t in tokens]):
        return
    expected = R.dist(node, FIXED)
    check_meaning(mon, text, expected, line)
    for _ in range(2):
        respaced = R.join([t[1] for t in tokens], rng)
        mon.event("respaced_texts")
        check_meaning(mon, respaced, expected, line)
    parser = core.shared_parser()
    seen = core.observe(lambda: parser.parse(text)[0])
    if not mon.check(seen[0] == "ok", "parser rejects %r" % text, seen=seen[1:3]):
        return
    printed = core.observe(lambda: str(seen[1]))
    mon.event("print_round_trips")
    try:
        tree = refparse.parse(printed[1]) if printed[0] == "ok" else None
    except (refparse.LexError, refparse.SyntaxErr):
        tree = None
    if not mon.check(tree is not None and plain(tree) == plain(line), "printed form of %r does not mean the same" % text, seen=printed[1:3]):
        return
    again = core.observe(lambda: str(parser.parse(printed[1])[0]))
    mon.check(again[0] == "ok" and again[1] == printed[1], "printing %r, parsing and printing again changes it" % text, first=printed[1], second=again[1:3])
    if line[0] == "expr" and not refparse.has_assign(node):
        names = core.observe(lambda: set(seen[1].get_contained_variables()))
        mon.event("variable_sets_compared")
        mon.check(names[0] == "ok" and names[1] == R.names_in(node), "variables contained in %r" % text, seen=names[1:3], expected=sorted(R.names_in(node)))
    mon.sample({"text": text, "tree": R.shape(node)})


_LEXER = []


def check_meaning(mon, text, expected, line):
    interpreter = core.new_interpreter()
    program = ["VAR %s = %d" % item for item in FIXED.items()] + [text]
    seen = core.last_dist(interpreter, program)
    mon.event("meanings_compared")
    if R.ZDE in expected:
        return mon.check(core.is_exc(seen, "ZeroDivisionError"), "%r should divide by zero" % text, seen=seen[1:3])
    if seen[0] != "ok":
        return mon.check(False, "%r raised" % text, seen=seen[1:3])
    return mon.check(norm_seen(seen[1]) == R.normal(expected), "%r has the wrong meaning" % text, seen=seen[1], expected=expected)
