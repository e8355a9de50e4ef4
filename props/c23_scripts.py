"Scripts are split into statements only at statement boundaries."

import asyncio

from symex.api import TEXT, grid, harness

from .common import Models
from .scripting import SINGLE, SCRIPTS, Log, context
from .sql import split_statements, tokenize

ALPHABET = TEXT


def run(coroutine):
    return asyncio.run(coroutine)


def literal(text):
    return "'" + text.replace("'", "''") + "'"


def quoted(text):
    return '"' + text.replace('"', '""') + '"'


def statement(S, kind, text):
    "A statement with a text in it."

    if kind == "literal":
        return "INSERT INTO ntable (ncolumn) VALUES (" + literal(text) + ", 'y')"
    if kind == "identifier":
        return "CREATE TABLE " + quoted("x" + text) + " (ncolumn int DEFAULT 'a;b')"
    if kind == "comment":
        S.assume(S.not_("\n" in text))
        S.assume(S.not_("\r" in text))
        return "SELECT 1 --" + text + "\n + 2"
    if kind == "block comment":
        S.assume(S.not_("*/" in "x" + text + "*/"[:1]))
        return "SELECT 1 /* " + text + " */ + 2"
    if kind == "dollar":
        S.assume(S.not_("$" in text))
        return "SELECT $$" + text + "$$"
    if kind == "plain":
        return "DROP TABLE ntable"
    if kind == "procedure":
        return "BEGIN\n    EXECUTE IMMEDIATE " + literal(text) + ";\nEXCEPTION WHEN OTHERS THEN IF SQLCODE != -942 THEN RAISE; END IF;\nEND;"
    if kind == "declare":
        return "DECLARE\n  x int;\nBEGIN\n  BEGIN\n x := " + literal(text) + ";\n  END;\n  CASE x WHEN 1 THEN NULL; END CASE;\n FOR i IN 1..2 LOOP\n NULL;\n END LOOP;\nEND;"
    if kind == "trigger":
        return "CREATE OR REPLACE TRIGGER ntrigger BEFORE INSERT ON ntable FOR EACH ROW\nBEGIN\n  :new.x := CASE WHEN 1 = 2 THEN " + literal(text) + " END;\nEND;"
    if kind == "package":
        return "CREATE OR REPLACE PACKAGE npackage AS\n  ntext varchar2(8) := " + literal(text) + ";\n  PROCEDURE nfirst;\nEND;"
    if kind == "package body":
        return "CREATE PACKAGE BODY npackage IS\n  PROCEDURE nfirst IS\n  BEGIN\n    ntext := " + literal(text) + ";\n  END;\n  FUNCTION nsecond RETURN int AS BEGIN IF 1 = 2 THEN RETURN 1; END IF; RETURN 2; END nsecond;\nEND npackage;"
    if kind == "function":
        return "CREATE OR REPLACE EDITIONABLE FUNCTION nfunction RETURN varchar2 AS\n  ntext varchar2(8) := " + literal(text) + ";\nBEGIN\n  WHILE ntext = 'END' LOOP\n    ntext := ';';\n  END LOOP;\n  RETURN ntext;\nEND;"
    if kind == "type":
        return "CREATE OR REPLACE TYPE ntype AS OBJECT (nfield " + quoted("x" + text) + ")"
    if kind == "type body":
        return "CREATE OR REPLACE TYPE BODY ntype AS\n  MEMBER FUNCTION nfirst RETURN varchar2 IS\n  BEGIN\n    RETURN " + literal(text) + ";\n  END;\nEND;"
    raise NotImplementedError(kind)


KINDS = {
    "oracle": ["literal", "identifier", "comment", "block comment", "procedure", "declare", "trigger", "package", "package body", "function", "type", "type body"],
    "redshift": ["literal", "identifier", "comment", "block comment", "dollar"],
    "trino": ["literal", "identifier", "comment", "block comment"],
}
BLOCKS = ("procedure", "declare", "trigger", "package", "package body", "function", "type body")
# kinds of statements whose texts are limited to a single character unless checked thoroughly
LONG = ("declare", "trigger", "package", "package body", "function", "type", "type body")
SEPARATORS = [";\n", ";", "; ", ";\r\n", ";\n\n;\n", ";\n-- note;\n"]


@harness(
    "C23",
    params=[dict(dialect=d, kind=k, size=1 if k in LONG else 2, full=False) for d in SINGLE for k in KINDS[d]],
    thorough=[dict(dialect=d, kind=k, size=3, full=True) for d in SINGLE for k in KINDS[d]],
)
def split(S, dialect, kind, size, full):
    "The parts of a script that are executed are its statements."

    text = S.str("text", 0, size, ALPHABET)
    first = statement(S, kind, text)
    position = S.choose("position", [0, 1])
    other = S.choose("other", ["DROP TABLE ntable", "ALTER TABLE ntable ADD x char(1) DEFAULT ';'"] + (["BEGIN NULL; END;"] if dialect == "oracle" else []))
    others_block = other.startswith("BEGIN")
    parts = [first, other] if position == 0 else [other, first]
    blocks = [kind in BLOCKS, others_block] if position == 0 else [others_block, kind in BLOCKS]
    separator = S.choose("separator", SEPARATORS if full else SEPARATORS[:1] + SEPARATORS[2:])
    end = S.choose("end", ["", ";", ";\n", " ; \n-- end\n"] if full else ["", ";\n", " ; \n-- end\n"])
    start = S.choose("start", ["", "/* note; */ ", "\n  -- note;\n"] if full or position == 0 else ["\n  "])
    # the terminator is a part of a block
    script = start + parts[0] + (separator[1:] or "\n" if blocks[0] else separator) + parts[1]
    script = script + (end.lstrip(" ")[1:] if blocks[1] else end)
    log = Log()
    ctx = context(dialect, log)
    run(ctx.execute(script))
    S.check(len(log) == 2, "each statement is executed")
    if len(log) != 2:
        return
    for i, (found, expected) in enumerate(zip(log, parts)):
        found = found.strip()
        # a comment belongs to either the statement before or after
        options = [S.eq(found, expected)]
        if i == 0 and start.strip():
            options.append(S.eq(found, start.lstrip() + expected))
        if i == 1 and "--" in separator:
            options.append(S.eq(found, "-- note;\n" + expected))
        S.check(S.any(options), "statements are executed as they are in the script")


@harness("C23", params=grid(dialect=SINGLE, size=[1]), thorough=grid(dialect=SINGLE, size=[3]))
def blank(S, dialect, size):
    "Parts that have no statement are not executed."

    text = S.str("text", 0, size, ((9, 10), (13, 13), (32, 32), (59, 59)))
    note = S.choose("note", ["", "/* note; */;", "-- note;\n;", " /**/\n;"])
    script = S.choose("start", [note, ""]) + "DROP TABLE a;" + text + note + "\nDROP TABLE b" + S.choose("end", ["", ";", ";" + note]) + text
    log = Log()
    ctx = context(dialect, log)
    run(ctx.execute(script))
    S.check([s.strip() for s in log] == ["DROP TABLE a", "DROP TABLE b"], "parts that are executed are the statements")


@harness("C23", params=grid(dialect=SINGLE, size=[1]), thorough=grid(dialect=SINGLE, size=[3]))
def generated(S, dialect, size):
    "A script that is generated by the library."

    text = S.str("text", 0, size, ALPHABET)
    S.assume(S.not_("\\" in text))
    log = Log()
    ctx = context(dialect, log)
    m = Models(dialect, ctx.connection.generator)
    position = S.choose("position", ["column", "table", "default"])
    columns = [
        m.column("nkey", m.int(), description="a;\nb"),
        m.column("nvalue", m.text(20), nullable=True, default=literal(text) if position == "default" else None, description=text if position == "column" else None),
    ]
    tables = [
        m.table("nschema", "nfirst", columns, "nkey", description=text if position == "table" else None),
        m.table("nschema", "nsecond", [m.column("nkey", m.int())], "nkey"),
    ]
    script = ctx.connection.generator.get_mutate_stmt(m.catalog(m.namespace("nschema", tables=tables)))
    run(ctx.execute(script))
    expected = split_statements(tokenize(script, dialect))
    S.check(len(log) == len(expected), "each statement is executed")
    for found, tokens in zip(log, expected):
        part = tokenize(found, dialect)
        S.check(
            len(part) == len(tokens) and S.all([p.kind == t.kind and S.eq(p.value, t.value) for p, t in zip(part, tokens)]),
            "parts that are executed are statements",
        )


@harness("C23", params=grid(dialect=SCRIPTS))
def whole(S, dialect):
    "A script is passed to the driver without a change where it accepts several statements."

    text = S.str("text", 0, 2, ALPHABET)
    script = "INSERT INTO ntable (ncolumn) VALUES (" + "'" + text.replace("'", "''").replace("\\", "") + "'" + ");\nUPDATE ntable SET x = 1;\nDROP TABLE nother;"
    log = Log()
    ctx = context(dialect, log)
    run(ctx.execute(script))
    if dialect == "mssql":
        S.check(len(log) == 3, "each statement is executed")
        S.check(S.eq("".join(f"{s};\n" for s in log).strip(), script), "statements are those of the script")
    else:
        S.check(len(log) == 1 and S.eq(log[0], script), "the script is executed")


@harness("C23", params=grid(dialect=["oracle", "trino"], size=[2]))
def query(S, dialect, size):
    "A terminator is not part of a query."

    text = S.str("text", 0, size, ALPHABET)
    plain = "SELECT " + literal(text) + " FROM ntable"
    log = Log()
    ctx = context(dialect, log, lambda statement: [(1,)])
    run(ctx.query_all(int, plain + S.choose("end", ["", ";", " ;\n"])))
    S.check(len(log) == 1 and S.eq(log[0].strip(), plain), "the query is executed without its terminator")
