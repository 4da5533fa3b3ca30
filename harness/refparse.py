"""Independent hand-written tokenizer and precedence-climbing parser for the language.

tokenize(text) -> list of (kind, text, start) or raises LexError(index).
parse(text)    -> reference AST line, or raises LexError / SyntaxErr(token or None for end of input).
"""


class LexError(Exception):
    def __init__(self, index):
        super().__init__(index)
        self.index = index


class SyntaxErr(Exception):
    def __init__(self, token):
        super().__init__(token)
        self.token = token  # None: unexpected end of input


def _word(c):
    return c.isalnum() or c == "_"


def _digits(text, i):
    j = i
    while j < len(text) and text[j] in "0123456789":
        j += 1
    return j


def _spaces(text, i):
    while i < len(text) and text[i].isspace():
        i += 1
    return i


def _signed(text, i):
    j = i + 1 if i < len(text) and text[i] == "-" else i
    k = _digits(text, j)
    return k if k > j else None


def _entry(text, i):
    """One custom-side entry; returns (end, [low, high, mult]) or None."""
    j = _signed(text, i)
    if j is None:
        return None
    low, high, mult = int(text[i:j]), None, None
    if j < len(text) and text[j] == "-":
        k = _signed(text, j + 1)
        if k is not None:
            high, j = int(text[j + 1:k]), k
    if j < len(text) and text[j] == "*":
        k = _digits(text, j + 1)
        if k > j + 1:
            mult, j = int(text[j + 1:k]), k
    return j, [low, high, mult]


def _custom(text, i):
    """text[i] == "["; returns (end, entries) or None."""
    entries, j = [], _spaces(text, i + 1)
    while True:
        found = _entry(text, j)
        if found is None:
            # a trailing comma may precede the bracket
            if entries and j < len(text) and text[j] == "]":
                return j + 1, entries
            return None
        j, entry = found
        entries.append(entry)
        j = _spaces(text, j)
        if j < len(text) and text[j] == "]":
            return j + 1, entries
        if j < len(text) and text[j] == ",":
            j = _spaces(text, j + 1)
            continue
        return None


def _dice(text, i):
    """Longest dice (with keep/drop if present) at i: (end, node) or None."""
    j = _digits(text, i)
    n = int(text[i:j]) if j > i else None
    if j >= len(text) or text[j] != "d":
        return None
    j += 1
    if j >= len(text):
        return None
    if text[j] in "0123456789":
        k = _digits(text, j)
        sides = ["n", int(text[j:k])]
    elif text[j] in "%F":
        k, sides = j + 1, [text[j]]
    elif text[j] == "[":
        found = _custom(text, j)
        if found is None:
            return None
        k, sides = found[0], ["c", found[1], text[j:found[0]]]
    else:
        return None
    if k < len(text) and text[k] in "kd":
        m = _digits(text, k + 1)
        if m > k + 1:
            return m, ["dk", n, sides, text[k], int(text[k + 1:m])]
    return k, ["dice", n, sides]


WORDS = {"AND": "BIN", "OR": "BIN", "True": "BOOL", "False": "BOOL", "MAX": "MM", "MIN": "MM", "ABS": "ABS", "VAR": "VAR"}


def tokenize(text):
    out, i = [], 0
    while i < len(text):
        c = text[i]
        if c.isspace():
            i += 1
            continue
        if c in "(),+*":
            out.append((c, c, i))
            i += 1
            continue
        if c == "!":
            if text[i:i + 2] == "!=":
                out.append(("BIN", "!=", i))
                i += 2
            else:
                out.append(("!", "!", i))
                i += 1
            continue
        if c in "0123456789" or c == "d":
            found = _dice(text, i)
            if found is not None:
                out.append(("DICE", text[i:found[0]], i, found[1]))
                i = found[0]
                continue
        if c in "<>":
            op = text[i:i + 2] if text[i + 1:i + 2] == "=" else c
            out.append(("BIN", op, i))
            i += len(op)
            continue
        if c == "=":
            if text[i + 1:i + 2] == "=":
                out.append(("BIN", "==", i))
                i += 2
                continue
            if i > 0 and text[i - 1] == "=":
                raise LexError(i)
            out.append(("=", "=", i))
            i += 1
            continue
        if c in "0123456789":
            j = _digits(text, i)
            out.append(("INT", text[i:j], i))
            i = j
            continue
        if c == "-":
            j = _digits(text, i + 1)
            if j > i + 1:
                out.append(("INT", text[i:j], i))
                i = j
            else:
                out.append(("-", "-", i))
                i += 1
            continue
        if text[i:i + 2] == "//":
            out.append(("//", "//", i))
            i += 2
            continue
        if _word(c):
            if i > 0 and _word(text[i - 1]):
                raise LexError(i)
            j = i
            while j < len(text) and _word(text[j]):
                j += 1
            word = text[i:j]
            if word in WORDS:
                out.append((WORDS[word], word, i))
            elif all(ch in "abcdefghijklmnopqrstuvwxyz_" for ch in word):
                out.append(("NAME", word, i))
            else:
                raise LexError(i)
            i = j
            continue
        raise LexError(i)
    return out


BINARY = {"+": 1, "-": 1, "*": 2, "//": 2, "BIN": 3}


class _Parser:
    def __init__(self, toks):
        self.toks, self.i = toks, 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def take(self, kind=None):
        tok = self.peek()
        if tok is None or (kind is not None and tok[0] != kind):
            raise SyntaxErr(tok)
        self.i += 1
        return tok

    def operand(self):
        tok = self.take() if self.peek() is not None else self.take("operand")
        kind = tok[0]
        if kind == "INT":
            return ["int", int(tok[1])]
        if kind == "BOOL":
            return ["bool", tok[1] == "True"]
        if kind == "NAME":
            return ["name", tok[1]]
        if kind == "DICE":
            return tok[3]
        if kind == "!":
            return ["not", self.expression(1)]
        if kind == "(":
            inner = self.expression(1)
            self.take(")")
            return ["par", inner]
        if kind == "ABS":
            self.take("(")
            inner = self.expression(1)
            self.take(")")
            return ["abs", inner]
        if kind == "MM":
            self.take("(")
            one = self.expression(1)
            self.take(",")
            two = self.expression(1)
            self.take(")")
            return ["mm", tok[1], one, two]
        if kind == "VAR":
            name = self.take("NAME")[1]
            self.take("=")
            return ["assign", name, self.expression(1)]
        raise SyntaxErr(tok)

    def expression(self, level):
        left = self.operand()
        while True:
            tok = self.peek()
            if tok is None or BINARY.get(tok[0], 0) < level:
                return left
            self.i += 1
            right = self.expression(BINARY[tok[0]] + 1)
            left = ["bin", tok[1], left, right]


def parse(text):
    parser = _Parser(tokenize(text))
    node = parser.expression(1)
    if parser.peek() is not None:
        raise SyntaxErr(parser.peek())
    inner = node
    while inner[0] == "par":
        inner = inner[1]
    if inner[0] == "assign":  # "(VAR a = 1)" assigns like "VAR a = 1"
        return ["var", inner[1], inner[2]]
    return ["expr", node]


def has_assign(node):
    if node[0] == "assign":
        return True
    if node[0] in ("dice", "dk"):
        return False
    return any(has_assign(c) for c in node[1:] if isinstance(c, list))
