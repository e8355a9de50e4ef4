"String constants in SQL denote exactly the text given, in every dialect."

import asyncio
import dataclasses
import enum

from pysqlsync.formation.object_types import FormationError
from pysqlsync.model.data_types import SqlEnumType, escape_like, quote
from pysqlsync.model.id_types import LocalId
from pysqlsync.model.key_types import PrimaryKey

from symex.api import TEXT, grid, harness

from .common import DIALECTS, Models, engine, fake_context, generator, mutate, tid
from .lex import LexError, like_matches_exactly, read_literal, unquote_literal
from .sql import MARK, compare, tokenize

import sys

NAMESPACES = {sys.modules[__name__]: "nschema"}
# dialects in which a backslash in an ordinary literal starts an escape sequence
BACKSLASH = ("mysql", "snowflake", "delta")


def has_backslash(S, text):
    return S.any([ch == "\\" for ch in text])


@harness("C02", params=[{"n": 3}], thorough=[{"n": 6}])
def quoted_text(S, n):
    "The literal of the SQL standard."
    text = S.str("text", 0, n)
    try:
        value, end = read_literal(quote(text) + " rest", 0, "trino")
    except LexError as ex:
        S.fail(str(ex))
        return
    S.check(value == text, "literal does not read back")
    S.check(end == len(quote(text)), "literal ends early")


@harness("C02", params=[{"n": 3}], thorough=[{"n": 5}])
def like_pattern(S, n):
    "A LIKE pattern made from a text matches that text only."
    text = S.str("text", 0, n)
    sql = "'" + escape_like(text, "~") + "' rest"
    try:
        pattern, end = read_literal(sql, 0, "oracle")
    except LexError as ex:
        S.fail(str(ex))
        return
    S.check(end == len(sql) - 5, "literal ends early")
    S.check(like_matches_exactly(pattern, "~", text), "pattern does not match exactly the text")


def commented(M, S, a, b, c):
    local = S.name
    structs = []
    if M.dialect == "postgresql":
        structs.append(M.struct(local("nschema"), local("nstruct"), [(local("nm"), M.int(), c)], b))
    t = M.table(
        local("nschema"),
        local("ntable"),
        [
            M.column(local("nkey"), M.int(), description=c),
            M.column(local("ncolumn"), M.text(10), nullable=True, default="'x'", description=a),
        ],
        local("nkey"),
        description=b,
    )
    return M.catalog(M.namespace(local("nschema"), structs=structs, tables=[t]))


def comment_statements(dialect, S, position, text):
    M = Models(dialect)

    def model(text):
        return commented(M, S, *[text if i == position else "zzz" for i in range(3)])

    return [
        ("create", model(text).create_stmt()),
        ("comment added", mutate(dialect, model(None), model(text))),
        ("comment changed", mutate(dialect, model("other"), model(text))),
        ("comment removed", mutate(dialect, model(text), model(None))),
        ("script", str(model(text))),
    ]


@harness(
    "C02",
    params=grid(dialect=DIALECTS, position=[0, 1, 2], n=[2]),
    thorough=grid(dialect=DIALECTS, position=[0, 1, 2], n=[4]),
)
def comments(S, dialect, position, n):
    text = S.str("text", 1, n)
    S.assume(S.not_(text == "other"))
    expected = text
    if dialect == "mysql":
        # only the first line is kept
        S.assume(S.not_(text[0] == "\n"))
        expected = text.split("\n")[0]
    template = comment_statements(dialect, S, position, MARK)
    for (label, t), (_, a) in zip(template, comment_statements(dialect, S, position, text)):
        compare(S, t, a, expected, dialect, f"comment {position}: {label}")


def default_statements(dialect, text):
    def model(default):
        cls = dataclasses.make_dataclass(
            "Sample",
            [("key", PrimaryKey[int]), ("value", str, dataclasses.field(default=default)), ("other", str)]
            if default is None
            else [("key", PrimaryKey[int]), ("other", str), ("value", str, dataclasses.field(default=default))],
            kw_only=True,
            namespace={"__doc__": "Sample."},
        )
        cls.__module__ = __name__
        gen = generator(dialect, namespaces=NAMESPACES)
        return gen.create(tables=[cls]), gen.state

    sql, state = model(text)
    _, before = model("before")
    return [
        ("create", sql),
        ("change of default", mutate(dialect, before, state)),
    ]


@harness(
    "C02",
    params=grid(dialect=DIALECTS, n=[2]),
    thorough=grid(dialect=DIALECTS, n=[5]),
)
def defaults(S, dialect, n):
    text = S.str("text", 0, n)
    S.assume(S.not_(text == "before"))
    if dialect in BACKSLASH:
        S.known(f"{dialect}-backslash", has_backslash(S, text))
    for (label, t), (_, a) in zip(default_statements(dialect, MARK), default_statements(dialect, text)):
        compare(S, t, a, text, dialect, f"default: {label}")


def enum_statements(dialect, S, text, other):
    kind = enum.Enum("Kind", {"ONE": other, "TWO": text})
    kind.__module__ = __name__
    cls = dataclasses.make_dataclass("Sample", [("key", PrimaryKey[int]), ("kind", kind)], namespace={"__doc__": "Sample."})
    cls.__module__ = __name__
    gen = generator(dialect, namespaces=NAMESPACES)
    out = [("create", gen.create(tables=[cls]))]
    if dialect == "postgresql":
        M = Models(dialect)

        def model(values):
            return M.catalog(M.namespace("s", enums=[M.enum("s", "e", values)]))

        out.append(("value added", mutate(dialect, model([other]), model([other, text]))))
    return out


@harness(
    "C02",
    params=grid(dialect=DIALECTS, n=[2]),
    thorough=grid(dialect=DIALECTS, n=[4]),
)
def enum_values(S, dialect, n):
    text = S.str("text", 1, n)
    other = S.name("nother")
    S.assume(S.not_(text == other))
    if dialect in BACKSLASH:
        S.known(f"{dialect}-backslash", has_backslash(S, text))
    template = enum_statements(dialect, S, MARK, other)
    for (label, t), (_, a) in zip(template, enum_statements(dialect, S, text, other)):
        compare(S, t, a, text, dialect, f"enumeration: {label}")


def migration_statement(dialect, S, text, other):
    "An enumeration type is replaced by a reference to a lookup table."
    M = Models(dialect)
    if dialect == "postgresql":
        data_type = M.user_type("s", "e")
        enums = [M.enum("s", "e", [other, text])]
    else:
        data_type = SqlEnumType([other, text])
        enums = []
    before = M.table("s", "t", [M.column("k", M.int()), M.column("v", data_type)], "k")
    after = M.table("s", "t", [M.column("k", M.int()), M.column("v", M.int())], "k", [M.foreign("fk", ["v"], "s", "e", ["id"])])
    lookup = M.table("s", "e", [M.column("id", M.int(), identity=True), M.column("value", M.text(64))], "id", [M.unique("uq", ["value"])])
    return mutate(
        dialect,
        M.catalog(M.namespace("s", enums=enums, tables=[before])),
        M.catalog(M.namespace("s", tables=[lookup, after])),
    )


@harness(
    "C02",
    params=grid(dialect=["postgresql", "mysql"], n=[2]),
    thorough=grid(dialect=["postgresql", "mysql"], n=[4]),
)
def migrated_values(S, dialect, n):
    text = S.str("text", 1, n)
    other = S.name("nother")
    S.assume(S.not_(text == other))
    if dialect in BACKSLASH:
        # the definition of the old column is part of the script
        S.known(f"{dialect}-backslash", has_backslash(S, text))
    template = migration_statement(dialect, S, MARK, other)
    compare(S, template, migration_statement(dialect, S, text, other), text, dialect, "migrated enumeration")


def dummy(signature):
    import typing

    if signature is int:
        return 1
    if signature is bool:
        return True
    if signature is str:
        return "integer"
    if typing.get_origin(signature) is tuple:
        return tuple(dummy(t) for t in typing.get_args(signature))
    if typing.get_origin(signature) is typing.Union:
        return None
    if dataclasses.is_dataclass(signature):
        hints = typing.get_type_hints(signature)
        return signature(**{f.name: dummy(hints[f.name]) for f in dataclasses.fields(signature)})
    return None


def explored(dialect, operation, text):
    ctx = fake_context(dialect, answer=lambda signature, statement: [dummy(signature)])
    explorer = engine(dialect).create_explorer(ctx)
    schema = "nschema"
    table = tid(dialect, schema, "ntable")
    try:
        if operation == "has_table":
            asyncio.run(explorer.has_table(tid(dialect, schema, text)))
        elif operation == "has_table_schema":
            asyncio.run(explorer.has_table(tid(dialect, text, "ntable")))
        elif operation == "has_column":
            asyncio.run(explorer.has_column(table, LocalId(text)))
        elif operation == "get_table":
            asyncio.run(explorer.get_table(tid(dialect, schema, text)))
        elif operation == "get_table_schema":
            asyncio.run(explorer.get_table(tid(dialect, text, "ntable")))
        elif operation == "get_namespace":
            asyncio.run(explorer.get_namespace(LocalId(text)))
        elif operation == "get_struct":
            asyncio.run(explorer.get_struct(tid(dialect, schema, text)))
        elif operation == "drop_schema":
            asyncio.run(ctx.drop_schema(LocalId(text)))
    except NotImplementedError:
        pass
    except Exception:
        # what the catalog answers is not of interest here
        pass
    return ctx.log


EXPLORERS = ["postgresql", "mysql", "mssql", "oracle", "redshift", "trino"]
OPERATIONS = ["has_table", "has_table_schema", "has_column", "get_table", "get_table_schema", "get_namespace", "drop_schema"]


@harness(
    "C02",
    params=grid(dialect=EXPLORERS, operation=OPERATIONS, n=[2]) + grid(dialect=["postgresql"], operation=["get_struct"], n=[2]),
    thorough=grid(dialect=EXPLORERS, operation=OPERATIONS, n=[4]) + grid(dialect=["postgresql"], operation=["get_struct"], n=[4]),
)
def catalog_queries(S, dialect, operation, n):
    "Names in queries of the database catalog."
    text = S.str("text", 1, n)
    if dialect in BACKSLASH:
        S.known(f"{dialect}-backslash", has_backslash(S, text))
    template = explored(dialect, operation, MARK)
    actual = explored(dialect, operation, text)
    S.check(len(template) == len(actual), "number of queries depends on the name")
    for t, a in zip(template, actual):
        compare_query(S, t, a, text, dialect, operation)


def compare_query(S, template, text, name, dialect, label):
    "Like `compare`, with LIKE patterns interpreted."
    expected = tokenize(template, dialect)
    try:
        actual = tokenize(text, dialect)
    except LexError as ex:
        S.fail(f"{label}: {ex}")
        return
    S.check(len(expected) == len(actual), f"{label}: name is not a single token")
    for i, (e, a) in enumerate(zip(expected, actual)):
        S.check(e.kind == a.kind, f"{label}: name changes the structure of the query")
        if MARK not in e.value:
            S.check(a.value == e.value, f"{label}: name affects another part of the query")
        elif i > 0 and expected[i - 1].value == "LIKE":
            # schema name, followed by two underscores and anything
            suffix = "~_~_%"
            S.check(a.value.endswith(suffix), f"{label}: pattern does not end with the separator")
            S.check(
                like_matches_exactly(a.value[: len(a.value) - len(suffix)], "~", name),
                f"{label}: pattern does not match exactly the schema",
            )
        else:
            S.check(a.value == e.value.replace(MARK, name), f"{label}: does not read back as the text")
