"Splits SQL text into the tokens of a dialect."

from .lex import LexError, read_delimited, read_literal

SPACE = " \t\r\n"


class Token:
    def __init__(self, kind, value, start, end):
        self.kind = kind  # one of `word`, `num`, `id`, `str`, `op`
        self.value = value
        self.start = start
        self.end = end

    def __repr__(self):
        return f"{self.kind}:{self.value}"


def is_word_char(ch):
    return ch.isalnum() or ch == "_" or ch == "$"


def tokenize(sql, dialect):
    """
    Returns the tokens of a script.

    Words are in upper case, identifiers and literals as they read.
    """

    chars = list(sql)
    tokens = []
    pos = 0
    n = len(chars)
    while pos < n:
        ch = chars[pos]
        if ch in SPACE:
            pos += 1
            continue
        start = pos
        if ch == '"':
            text, pos = read_delimited(chars, pos, '"')
            tokens.append(Token("id", text, start, pos))
        elif ch == "`":
            text, pos = read_delimited(chars, pos, "`")
            tokens.append(Token("id", text, start, pos))
        elif ch == "'":
            text, pos = read_literal(chars, pos, dialect)
            tokens.append(Token("str", text, start, pos))
        elif (ch == "E" or ch == "N") and pos + 1 < n and chars[pos + 1] == "'":
            if not ((ch == "E" and dialect in ("postgresql", "redshift")) or (ch == "N" and dialect == "mssql")):
                raise LexError("literal prefix is unknown to the dialect")
            text, pos = read_literal(chars, pos, dialect)
            tokens.append(Token("str", text, start, pos))
        elif ch.isdigit():
            while pos < n and chars[pos].isdigit():
                pos += 1
            if pos + 1 < n and chars[pos] == "." and chars[pos + 1].isdigit():
                pos += 1
                while pos < n and chars[pos].isdigit():
                    pos += 1
            tokens.append(Token("num", "".join(chars[start:pos]), start, pos))
        elif is_word_char(ch):
            while pos < n and is_word_char(chars[pos]):
                pos += 1
            tokens.append(Token("word", "".join(chars[start:pos]).upper(), start, pos))
        elif ch == "-" and pos + 1 < n and chars[pos + 1] == "-":
            raise LexError("comment in a generated statement")
        else:
            pos += 1
            tokens.append(Token("op", ch, start, pos))
    return tokens


def split_statements(tokens):
    "Splits tokens into statements at semicolons that are outside of parentheses."

    statements = []
    cur = []
    depth = 0
    for t in tokens:
        if t.kind == "op":
            if t.value == "(":
                depth += 1
            elif t.value == ")":
                depth -= 1
            elif t.value == ";" and depth == 0:
                if cur:
                    statements.append(cur)
                cur = []
                continue
        cur.append(t)
    if cur:
        raise LexError("statement is not terminated")
    return statements


MARK = "zqx"


def compare(S, template, text, name, dialect, label):
    """
    Checks that a statement is its template with a name in place of the mark.

    :param template: The statement generated for the mark, a name of plain letters.
    :param text: The statement generated for the name.
    """

    if template is None or text is None:
        S.check(template is None and text is None, f"{label}: statement depends on the name")
        return
    expected = tokenize(template, dialect)
    try:
        actual = tokenize(text, dialect)
    except LexError as ex:
        S.fail(f"{label}: {ex}")
        return
    if len(actual) != len(expected):
        S.fail(f"{label}: name is not a single token")
        return
    for e, a in zip(expected, actual):
        if e.kind != a.kind:
            S.fail(f"{label}: name changes the structure of the statement")
            return
        if MARK not in e.value:
            S.check(a.value == e.value, f"{label}: name affects another part of the statement")
        elif e.kind == "str" and '"' in e.value:
            # a statement within a literal
            compare(S, e.value, a.value, name, dialect, label)
        elif e.value == MARK:
            S.check(a.value == name, f"{label}: does not read back as the name")
        elif e.kind == "id":
            # a name derived from the name of another object
            want = e.value.replace(MARK, name)
            S.check(
                a.value.replace(".", "_") == want.replace(".", "_"),
                f"{label}: derived name does not read back",
            )
        else:
            S.check(a.value == e.value.replace(MARK, name), f"{label}: does not read back as the text")
