"""C10: text outside the language is rejected, with the right error, and changes nothing."""
import re

import core
import gen
import refmodel as R
import refparse

RULE = ("random valid lines damaged by inserting, deleting, replacing, swapping or duplicating characters and tokens (also multi-line, "
        "also long), judged by an independent tokenizer/parser; and programs whose k-th line fails (bad character, bad grammar, unknown "
        "name, division by zero) in every evaluation mode, with the stored values inspected afterwards; non-trivial: the text is "
        "outside the language; distinct by (error kind, offending token, neighbouring tokens)")
REQUIRED = ["texts_rejected_lexing", "texts_rejected_parsing", "texts_accepted", "failing_programs", "unknown_names", "wrong_store_names", "multi_line_texts", "far_columns"]
CHARS = list("()+-*/!=<>,[]%dkFabzAMVT_019 \n\t.;:#@$&|^~'\"{}?\\ABSOR")


def damage(rng, text):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        i = rng.randint(0, len(text))
        if r < 0.35:
            text = text[:i] + rng.choice(CHARS) + text[i:]
        elif r < 0.6 and text:
            i = min(i, len(text) - 1)
            text = text[:i] + text[i + 1:]
        elif r < 0.75 and text:
            i = min(i, len(text) - 1)
            text = text[:i] + rng.choice(CHARS) + text[i + 1:]
        elif r < 0.85:
            parts = text.split(" ")
            j = rng.randrange(len(parts))
            if rng.random() < 0.5:
                parts.insert(j, parts[j])
            else:
                del parts[j]
            text = " ".join(parts)
        else:
            parts = text.split(" ")
            j, k = rng.randrange(len(parts)), rng.randrange(len(parts))
            parts[j], parts[k] = parts[k], parts[j]
            text = " ".join(parts)
    return text


def tame(text):
    """Keep away from texts that are only slow (huge numbers; the recorded slow custom-dice lexing)."""
    if re.search(r"\d{5}", text):
        return False
    return all(len(re.findall(r"\s", part)) <= 7 for part in re.findall(r"\[[^\]]*", text))


DIRECTED = ["", " ", "\n", "5-3", "a -1", "1 +", "+ 1", "1 2", "(1", "1)", "()", "MAX(1)", "MAX(1, 2", "MAX(1,, 2)", "MAX 1, 2", "ABS 1", "ABS()", "ABS(1, 2)",
            "VAR", "VAR a", "VAR a =", "VAR 1 = 2", "VAR A = 2", "VAR a == 2", "a = 2", "VAR a = = 2", "1 = 1", "= 1", "1 === 1", "1 !== 1", "1 <== 1",
            "d", "dd6", "d 6", "2 d6", "d6d", "d6k", "6d", "d[", "d[]", "d[,]", "d[1,,2]", "d[1", "d[1]]", "d[1.5]", "d[a]", "d[1--]", "d[1*]", "d[*2]",
            "d[1*-2]", "d[1 - 2]", "d[--1]", "d-6", "-d6", "1 / 2", "1 /// 2", "1 & 2", "1 | 2", "and", "1 and 2", "true", "TRUE", "AND", "1 AND", "NOT 1", "a1", "1a", "aB",
            "max(1, 2)", "1,2", ",", "!", "! ", "1 !", "1 ! 2", "!!", "!=", "$", "1 + $", "1\n+ $", "1 +\n\n  2 # c", "x" * 60 + " + ?", "1 + " * 30 + "?" + " + 1" * 30,
            "1;2", "d6 d6", "3d6k2d1", "3d6k", "3d6k-1", "é", "1 + é", "aé", "1..2", "0x10", "1e5", "VAR a = VAR", "VAR VAR = 1", "VAR a b = 1", "MAX(,1)", "((1)", "(1))",
            "1 + (2 * 3", "True False", "TrueFalse", "True1", "1AND 1", "1 AND1", "1OR 2", "%", "d%%", "F", "dFF", "\u00a01 + ?", "1\r\n?", "\n\n?", "a\n?b", " " * 70 + "?"]


def cases(rng, tier, shard, nshards, impl):
    if shard == 0:
        for text in DIRECTED:
            yield {"kind": "text", "text": text}
    for i in range(2000 if tier == "quick" else 20000):
        while True:
            node = gen.fix_not(gen.expr(rng, rng.choice([0, 1, 2, 3]), ["a", "b", "x_y"], 6))
            line = ["expr", node] if rng.random() < 0.6 else ["var", rng.choice(["a", "x_y", "d"]), node]
            text = R.line_text(line, rng)
            if rng.random() < 0.15:
                text = text + rng.choice([" + ", "\n+ "]) + R.line_text(["expr", node], rng) + " * " + "(1 + 2) + " * rng.randint(3, 12) + "1"
            if rng.random() < 0.93:
                text = damage(rng, text)
            if tame(text):
                break
        yield {"kind": "text", "text": text}
    for i in range(60 if tier == "quick" else 600):  # long texts: one bad character or token far into them
        unit = rng.choice(["1 + ", "(d6 * 2) - ", "MAX(a, 2)\n+ ", "d[1,2] +\n", "x_y // 3 *\t", "ABS( -4 ) +  ", "True AND "])
        text = unit * rng.choice([5, 20, 60, 150]) + "1"
        at = rng.randint(0, len(text))
        text = text[:at] + rng.choice(["$", "?", "#", "A", "&&", "\u00e9", "1 1", ")", "VAR", "a1", "/ ", ", ", "="]) + text[at:]
        if tame(text):
            yield {"kind": "text", "text": text}
    for i in range(500 if tier == "quick" else 4000):
        mode = rng.choice(["roll", "max", "min", "get_probability_distributions", "get_average", "get_probability_distributions_dict"])
        pool = [n for n in gen.name_pool(rng, 8) if n != 'nope'][:4]
        good = ["VAR %s = %d" % (pool[rng.randrange(3)], rng.randint(-9, 9)) for _ in range(rng.choice([0, 1, 2, 3, 4, 12, 30]))]
        error = rng.choice(["lex", "parse", "name", "name", "zero", "store"])
        if error == "lex":
            bad = rng.choice(["1 + $", "3 @ 2", "d6 + a1", "1 / 2", "?", "2 + \n 3 +\n #"])
        elif error == "parse":
            bad = rng.choice(["1 +", "(1", "MAX(1)", "5-3", "1 2", "", "* 2", "ABS()", "1 + )"])
        elif error == "name":
            bad = rng.choice(["nope", "1 + nope", "MAX(nope, 1)", "!nope", "ABS(nope)", "(nope)", "2 * (1 + nope)", "nope == 1", "nope // 2", "1 AND nope", "3 - nope",
                              "nope + stdout", "stdout"])
        elif error == "store":
            # names that only the other kind of call has assigned
            if mode == "roll":
                bad = rng.choice(["only_dist", "only_dist + 1", "MAX(only_dist, 1)"])
            elif mode in ("max", "min"):
                bad = rng.choice(["only_value", "only_value", "only_value + 1", "(only_value)", "MAX(only_value, 1)", "only_dist", "MIN(1, only_dist)"])
            else:
                bad = rng.choice(["only_value", "only_value * 2", "!only_value"])
        else:
            bad = rng.choice(["1 // 0", "5 // (3 - 3)", "MAX(1 // 0, 2)", "1 + 2 // (1 > 2)", "ABS(1 // False)", "!(1 // 0)", "0 // 0", "(7 // 0) * 0"])
        target = rng.choice([pool[0], pool[3], None])
        if error == "store" and mode in ("max", "min") and bad in ("only_value", "(only_value)", "MAX(only_value, 1)"):
            target = target or pool[0]  # without an assignment these only need the value
        line = bad if target is None else "VAR %s = %s" % (target, bad)
        if rng.random() < 0.2 and error in ("name", "zero"):  # the failing part last, first, or deep inside
            whole = rng.choice(["1 + 2 * 3 - (%s)", "(%s) + 1", "MAX(1, MIN(2, %s))", "ABS(1 - (%s))", "!(%s)", "((((%s))))", "1 + 1 + 1 + 1 + 1 + (%s)", "0 * (%s)", "(%s) == (%s)"])
            line = (line[:line.index("=") + 2] if target is not None else "") + whole.replace("%s", bad)
        later = ["VAR %s = %d" % (pool[3], 77), "VAR %s = 88" % pool[0]][: rng.randint(0, 2)]
        yield {"kind": "program", "mode": mode, "setup": rng.random() < 0.5, "pool": pool, "good": good, "bad": line, "error": error, "later": later}


def run(case, mon):
    if case["kind"] == "text":
        run_text(case["text"], mon)
    else:
        run_program(case, mon)


def run_text(text, mon):
    from python_dice.src.python_dice_lexer import PythonDiceLexer

    if "\n" in text.strip():
        mon.event("multi_line_texts")
    lexer = _LEXER or _LEXER.append(PythonDiceLexer()) or _LEXER
    parser = core.shared_parser()
    lexed = core.observe(lambda: [t.getstr() for t in lexer[0].lex(text)])
    parsed = core.observe(lambda: str(parser.parse(text)[0]))
    try:
        tokens = refparse.tokenize(text)
    except refparse.LexError as error:
        mon.event("texts_rejected_lexing")
        mon.nontrivial(("lex", text[error.index], text[max(0, error.index - 1):error.index]))
        for what, seen in (("lexer", lexed), ("parser", parsed)):
            if not mon.check(core.is_exc(seen, "ValueError"), "%s should reject %r with a ValueError" % (what, text), seen=seen[1:3]):
                return
            rows = seen[2].split("\n")
            column = rows[-1].find("^")
            if column > 40:
                mon.event("far_columns")
            ok = len(rows) == 2 and column >= 0 and rows[1].rstrip() == "-" * column + "^" and column < len(rows[0])
            ok = ok and rows[0][column] == text[error.index] and rows[0] in text
            # the excerpt has to be the text around the offending character itself
            ok = ok and text[error.index - column:error.index - column + len(rows[0])] == rows[0]
            mon.check(ok, "the error for %r does not point at character %d (%r)" % (text, error.index, text[error.index]), seen=seen[2])
        return
    if not mon.check(lexed[0] == "ok" and lexed[1] == [t[1] for t in tokens], "tokens of %r" % text, seen=lexed[1:3], expected=[t[1] for t in tokens]):
        return
    try:
        refparse.parse(text)
    except refparse.SyntaxErr as error:
        mon.event("texts_rejected_parsing")
        token = error.token
        index = [t[2] for t in tokens].index(token[2]) if token else len(tokens)
        mon.nontrivial(("parse", token[0] if token else "end", [t[0] for t in tokens[max(0, index - 2):index]]))
        if not mon.check(core.is_exc(parsed, "ValueError"), "parser should reject %r with a ValueError" % text, seen=parsed[1:3]):
            return
        if token is not None:
            mon.check("(%s)" % token[1] in parsed[2] or token[1] in parsed[2], "the error for %r does not name the unexpected %r" % (text, token[1]), seen=parsed[2])
            where = re.search(r"idx=(\d+)", parsed[2])
            if where:
                mon.check(int(where.group(1)) == token[2], "the error for %r gives the wrong position" % text, seen=parsed[2], expected=token[2])
        return
    mon.event("texts_accepted")
    mon.check(parsed[0] == "ok", "parser should accept %r" % text, seen=parsed[1:3])


_LEXER = []
KIND = {"lex": "ValueError", "parse": "ValueError", "name": "KeyError", "zero": "ZeroDivisionError", "store": "KeyError"}


def stored(interpreter, mode):
    """All stored values of the store the mode writes to."""
    if mode in ("roll", "max", "min"):
        report = dict(interpreter.roll(["0"]))
        report.pop("stdout")
        return report
    report = interpreter.get_probability_distributions(["0"])
    out = {}
    for key, value in report.items():
        if key != "stdout":
            counts = value.get_result_map()
            out[key] = list(counts)[0] if len(counts) == 1 else dict(counts)
    return out


def run_program(case, mon):
    interpreter = core.new_interpreter()
    mode = case["mode"]
    values = {}
    if case["setup"]:
        interpreter.max(["VAR %s = 5" % n for n in case["pool"][:3]])
        values.update({n: 5 for n in case["pool"][:3]})
    if case["error"] == "store":
        interpreter.roll(["VAR only_value = 6"])
        interpreter.get_average(["VAR only_dist = 6"])
    for line in case["good"]:
        name, value = line[4:].split(" = ")
        values[name] = int(value)
    mon.event("failing_programs")
    if case["error"] == "name":
        mon.event("unknown_names")
    if case["error"] == "store":
        mon.event("wrong_store_names")
    mon.nontrivial((mode, case["error"], case["bad"].split("=")[-1], len(case["good"]), len(case["later"]), case["setup"]))
    program = case["good"] + [case["bad"]] + case["later"]
    seen = core.observe(getattr(interpreter, mode), program)
    if not mon.check(core.is_exc(seen, KIND[case["error"]]), "%s(%r) should raise %s" % (mode, program, KIND[case["error"]]), seen=seen[1:3]):
        return
    modes = [mode] if mode == "roll" or mode.startswith("get_") else [mode, "get_average"]
    for store in modes:
        left = core.observe(stored, interpreter, store)
        wanted = dict(values)
        if case["error"] == "store":
            wanted["only_dist" if store.startswith("get_") else "only_value"] = 6
        mon.check(left[0] == "ok" and left[1] == wanted, "values stored after %s(%r) failed" % (mode, program), seen=left[1:3], expected=wanted, store=store)
    again = core.observe(getattr(interpreter, mode), ["1 + 2"])
    mon.check(again[0] == "ok" and "stdout" in again[1], "the interpreter is unusable after %s(%r) failed" % (mode, program), seen=again[1:3])
    mon.sample({"mode": mode, "program": program, "error": seen[1]})
