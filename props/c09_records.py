"Each record reaches the database exactly once, in order, with its values in their columns."

import itertools
import sys
import types
from dataclasses import dataclass
from typing import Optional

import pysqlsync.base
from pysqlsync.model.key_types import DEFAULT, Identity, PrimaryKey

from symex.api import TEXT, grid, harness

from . import loading
from .common import Models
from .dml import DMLError, Generated, Store
from .loading import apply, context, run, table_name

DIALECTS = ["postgresql", "mysql", "mssql", "oracle", "redshift"]
# dialects that load data in a single stream
STREAMS = ("postgresql", "redshift")

KEY, NAME, VALUE = "nkey", "nname", "nvalue"
TYPES = {KEY: int, NAME: str, VALUE: int}


def cell(S, dialect, row, name, nullable=True):
    label = f"{name}{row}"
    if name == KEY:
        # keys are different
        return row + 1
    if nullable and S.bool(f"{label}?"):
        return None
    if name == VALUE:
        # as text in Redshift
        return S.choose(label, [0, 17]) if dialect == "redshift" else S.int(label)
    return S.choose(label, ["", "x"]) if dialect == "redshift" else S.str(label, 0, 1, TEXT)


def values(S, dialect, names, count):
    "Several records, the first of which has any value, others have a symbolic number."

    data = []
    for i in range(count):
        if i == 0:
            data.append({n: cell(S, dialect, i, n) for n in names})
        else:
            data.append({n: i + 1 if n == KEY else "x" if n == NAME else S.int(f"{n}{i}", 0, 9) for n in names})
    return data


def same(S, dialect, found, expected):
    if isinstance(found, Generated) or isinstance(expected, Generated):
        return isinstance(found, Generated) and isinstance(expected, Generated)
    if found is None or expected is None:
        return found is None and expected is None
    if dialect == "redshift" and isinstance(expected, int) and isinstance(found, str):
        expected = str(expected)
    return S.eq(found, expected)


class Batches:
    "Sets the maximum number of records in a batch."

    def __init__(self, size):
        self.size = size

    def __enter__(self):
        self.saved = getattr(pysqlsync.base, "BATCH_SIZE", None)
        pysqlsync.base.BATCH_SIZE = self.size

    def __exit__(self, *args):
        if self.saved is not None:
            pysqlsync.base.BATCH_SIZE = self.saved
        return False


def source(S, records):
    kind = S.choose("source", ["list", "tuple", "generator", "async"])
    if kind == "list":
        return list(records)
    if kind == "tuple":
        return tuple(records)
    if kind == "generator":
        return (r for r in records)

    async def generate():
        for r in records:
            yield r

    return generate()


def check_batches(S, log, size, total):
    S.check(total > 0 or not log, "nothing is executed if there are no records")
    for load in log:
        S.check(not isinstance(load, str), "records are passed with the statement")
        if isinstance(load, str):
            continue
        S.check(len(load.records) > 0, "no batch is empty")
        S.check(len(load.records) <= size, "no batch exceeds the maximum size")


def odbc_kind(t):
    import pyodbc

    number = t[0]
    if number in (pyodbc.SQL_TINYINT, pyodbc.SQL_SMALLINT, pyodbc.SQL_INTEGER, pyodbc.SQL_BIGINT, pyodbc.SQL_DECIMAL):
        return int
    if number in (pyodbc.SQL_CHAR, pyodbc.SQL_VARCHAR, pyodbc.SQL_WVARCHAR, pyodbc.SQL_WLONGVARCHAR, pyodbc.SQL_LONGVARCHAR):
        return str
    return None


def oracle_kind(t):
    import oracledb

    if t.type in (oracledb.DB_TYPE_NUMBER, oracledb.DB_TYPE_BINARY_INTEGER):
        return int
    if t.type in (oracledb.DB_TYPE_VARCHAR, oracledb.DB_TYPE_NVARCHAR, oracledb.DB_TYPE_CLOB, oracledb.DB_TYPE_NCLOB):
        return str
    return None


def check_types(S, dialect, log):
    "Types announced to the driver are those of the values."

    for load in log:
        if isinstance(load, str) or load.types is None:
            continue
        kind = odbc_kind if dialect == "mssql" else oracle_kind
        for record in load.records:
            S.check(len(load.types) == len(record), "the type of each value is announced")
            for t, v in zip(load.types, record):
                if v is not None and t is not None:
                    S.check(kind(t) is (int if not isinstance(v, str) else str), "the type announced is that of the value")


def check_rows(S, dialect, store, expected):
    S.check(len(store.rows) == len(expected), "each record leads to one row")
    for r, e in zip(store.rows, expected):
        for c in e:
            S.check(same(S, dialect, r[c], e[c]), "each value is in its own column, in the order of records")


def build(S, dialect, ctx, identity, key_last):
    "A table, in which the database generates the values of a column (if any)."

    m = Models(dialect, ctx.connection.generator)
    columns = [m.column(KEY, m.int(), identity=identity == KEY)]
    others = [m.column(NAME, m.text(80), nullable=True), m.column(VALUE, m.int(), nullable=identity != VALUE, identity=identity == VALUE)]
    table = m.table("nschema", "ntable", others + columns if key_last else columns + others, KEY)
    ctx.connection.generator.state = m.catalog(m.namespace("nschema", tables=[table]))
    return table, [c.name.local_id for c in table.get_columns()]


def layouts(names, full):
    """
    Which fields there are in a record, what they are called, and which of them are selected.

    :returns: A list of tuples of field (as in the record), field name (or empty string) and whether to omit by type.
    """

    result = [("default", [(n, n, False) for n in names])]
    for omitted in (NAME, VALUE):
        # omitted by type, where names are those of the columns
        result.append(("default", [(n, n, n == omitted) for n in names]))
    orders = list(itertools.permutations(names)) if full else [tuple(names), tuple(reversed(names)), (VALUE, KEY, NAME)]
    for order in orders:
        result.append(("names", [(n, n, False) for n in order]))
    for order in orders if full else orders[1:]:
        for omitted in (NAME, VALUE):
            result.append(("names", [(n, n, n == omitted) for n in order]))
            result.append(("names", [(n, "" if n == omitted else n, False) for n in order]))
        for at in range(len(order) + 1):
            # a field that is not for the database
            fields = [(n, n, False) for n in order]
            result.append(("names", fields[:at] + [(None, "", at == 1)] + fields[at:]))
    return result


def rows(S, dialect, op, count, size, full):
    ctx, log = context(dialect)
    # upserts look up rows by their key
    identity = S.choose("identity", [None, KEY, VALUE]) if op == "insert" else None
    table, names = build(S, dialect, ctx, identity, S.bool("key is last"))
    mode, fields = S.choose("layout", layouts(names, full))
    data = values(S, dialect, names, count)
    records = [tuple(d[f] if f is not None else "junk" for f, _, _ in fields) for d in data]
    field_types = tuple(types.NoneType if omit else (TYPES[f] if f is not None else str) for f, _, omit in fields)
    field_names = tuple(name for _, name, _ in fields) if mode == "names" else None
    selected = [f for f, name, omit in fields if name and not omit]
    with Batches(size):
        fn = ctx.insert_rows if op == "insert" else ctx.upsert_rows
        try:
            run(fn(table, records if count > 1 else source(S, records), field_types=field_types, field_names=field_names))
        except DMLError as ex:
            S.fail(f"data is refused: {ex}")
            return
    check_batches(S, log, size, count)
    check_types(S, dialect, log)
    store = Store(table_name(dialect, table), names, [KEY], identity=[identity] if identity else [])
    try:
        apply(S, dialect, log, store)
    except DMLError as ex:
        S.fail(f"statement or data is refused: {ex}")
        return
    expected = []
    for i, d in enumerate(data):
        row = {n: d[n] if n in selected else None for n in names}
        if identity and i < len(store.rows) and isinstance(store.rows[i][identity], Generated):
            # statements that insert records omit values generated by the database
            del row[identity]
        expected.append(row)
    check_rows(S, dialect, store, expected)


@harness(
    "C09",
    params=grid(dialect=DIALECTS, count=[0, 1], size=[2], full=[False]) + grid(dialect=DIALECTS, count=[2], size=[1, 2], full=[False]),
    thorough=grid(dialect=DIALECTS, count=[1, 2], size=[1, 2], full=[True]),
)
def insert(S, dialect, count, size, full):
    rows(S, dialect, "insert", count, size, full)


@harness(
    "C09",
    params=grid(dialect=DIALECTS, count=[0, 1], size=[2], full=[False]) + grid(dialect=DIALECTS, count=[2], size=[1, 2], full=[False]),
    thorough=grid(dialect=DIALECTS, count=[1, 2], size=[1, 2], full=[True]),
)
def upsert(S, dialect, count, size, full):
    rows(S, dialect, "upsert", count, size, full)


@harness("C09", params=grid(size=[2], mode=["rows", "objects"]), thorough=grid(size=[4], mode=["rows", "objects"]))
def stream(S, size, mode):
    "Text and missing values in a stream of data in Redshift."

    ctx, log = context("redshift", namespaces={sys.modules[__name__]: "nschema"})
    text = None if S.bool("null") else S.str("text", 0, size, ((1, 127),))
    names = [KEY, NAME, VALUE]
    data = [(1, text, None), (2, "x", 3)]
    if mode == "rows":
        table, _ = build(S, "redshift", ctx, False, False)
        run(ctx.insert_rows(table, data, field_types=(int, str, int)))
    else:
        ctx.connection.generator.create(tables=[NFirst])
        table = ctx.get_table(NFirst)
        run(ctx.insert_data(NFirst, [NFirst(*d) for d in data]))
    store = Store(table_name("redshift", table), names, [KEY])
    try:
        apply(S, "redshift", log, store)
    except DMLError as ex:
        S.fail(f"statement or data is refused: {ex}")
        return
    check_rows(S, "redshift", store, [dict(zip(names, d)) for d in data])


COUNTS = [0, 1, 2, 3, 4, 5, 6, 7]


@harness("C09", params=grid(dialect=DIALECTS, op=["insert", "upsert", "delete", "execute"]), thorough=grid(dialect=DIALECTS, op=["insert", "upsert", "delete", "execute"]))
def batches(S, dialect, op):
    "Any number of records relative to the maximum size of a batch."

    count = S.choose("count", COUNTS)
    size = S.choose("size", [1, 2, 3, 4, 7])
    ctx, log = context(dialect)
    table, names = build(S, dialect, ctx, False, False)
    data = [(i + 1, "x", S.int(f"{VALUE}{i}", 0, 9)) for i in range(count)]
    store = Store(table_name(dialect, table), names, [KEY])
    with Batches(size):
        if op == "delete":
            keys = [i + 1 for i in range(count)]
            given = S.choose("keys", [keys, tuple(keys), (k for k in keys)])
            run(ctx.delete_rows(table, int, given))
        elif op == "execute":
            statement = ctx.connection.generator.get_table_insert_stmt(table)
            run(ctx.execute_all(statement, source(S, data)))
        else:
            fn = ctx.insert_rows if op == "insert" else ctx.upsert_rows
            run(fn(table, source(S, data), field_types=(int, str, int)))
    check_batches(S, log, size, count)
    check_types(S, dialect, log)
    if op == "delete":
        store.rows = [{KEY: i, NAME: "x", VALUE: i} for i in range(9)]
    try:
        apply(S, dialect, log, store)
    except DMLError as ex:
        S.fail(f"statement or data is refused: {ex}")
        return
    if op == "delete":
        check_rows(S, dialect, store, [{KEY: i} for i in range(9) if i == 0 or i > count])
    else:
        check_rows(S, dialect, store, [dict(zip(names, d)) for d in data])


@harness("C09", params=grid(kind=["plain", "selected", "transformed", "both"]), thorough=grid(kind=["plain", "selected", "transformed", "both"]))
def sources(S, kind):
    "Batches that are kept before they are sent."

    count = S.choose("count", COUNTS)
    size = S.choose("size", [1, 2, 3, 4, 7])
    data = [(i + 1, "x", S.int(f"{VALUE}{i}", 0, 9)) for i in range(count)]
    ctx, log = context("postgresql")
    table, names = build(S, "postgresql", ctx, False, False)
    with Batches(size):
        records = pysqlsync.base.to_data_source(source(S, data))
        indices = [0, 1, 2]
        if kind in ("selected", "both"):
            indices = S.choose("indices", [[0, 1], [0, 2], [2], [1, 2]])
        if kind in ("transformed", "both"):
            transformers = [pysqlsync.base.ScalarTransformer(None if i < 2 else lambda v: v + 1) for i in indices]
        if kind == "selected":
            records = pysqlsync.base.SelectorDataSource(records, indices)
        elif kind == "transformed":
            records = pysqlsync.base.TransformerDataSource(records, transformers)
        elif kind == "both":
            records = pysqlsync.base.SelectorTransformerDataSource(records, indices, transformers)

        async def collect():
            return [batch async for batch in records.batches()]

        found = run(collect())
    S.check(all(0 < len(batch) <= size for batch in found), "a batch is neither empty, nor exceeds the maximum size")
    flat = [r for batch in found for r in batch]
    S.check(len(flat) == count, "each record is in one batch")
    for r, d in zip(flat, data):
        expected = [d[i] + 1 if i == 2 and kind in ("transformed", "both") else d[i] for i in indices]
        S.check(len(r) == len(expected), "each record has the values selected")
        S.check(S.all([S.eq(a, b) for a, b in zip(r, expected)]), "values are in order")


@dataclass
class NFirst:
    nkey: PrimaryKey[int]
    nname: Optional[str]
    nvalue: Optional[int]


@dataclass
class NLast:
    nvalue: Optional[int]
    nname: Optional[str]
    nkey: PrimaryKey[int]


@dataclass
class NIdentity:
    nvalue: Optional[int]
    nkey: PrimaryKey[Identity[int]]
    nname: Optional[str]


@harness("C09", params=grid(dialect=DIALECTS, op=["insert", "upsert", "delete"]))
def objects(S, dialect, op):
    "Data-class instances."

    ctx, log = context(dialect, namespaces={sys.modules[__name__]: "nschema"})
    cls = S.choose("class", [NFirst, NLast] if op == "upsert" else [NFirst, NLast, NIdentity])
    ctx.connection.generator.create(tables=[cls])
    table = ctx.get_table(cls)
    count = S.choose("count", [0, 1, 2, 3])
    size = S.choose("size", [1, 2])
    names = list(cls.__dataclass_fields__)
    identity = cls is NIdentity
    data = values(S, dialect, names, count)
    objects = [cls(**d) for d in data]
    given = S.choose("source", ["list", "generator"])
    with Batches(size):
        if op == "delete":
            keys = [i + 1 for i in range(count)]
            run(ctx.delete_data(cls, keys if given == "list" else (k for k in keys)))
        else:
            fn = ctx.insert_data if op == "insert" else ctx.upsert_data
            run(fn(cls, objects if given == "list" else (o for o in objects)))
    for load in log:
        S.check(not isinstance(load, str), "records are passed with the statement")
        if load.statement is not None:
            S.check(0 < len(load.records) <= size, "a batch is neither empty, nor exceeds the maximum size")
    check_types(S, dialect, log)
    store = Store(table_name(dialect, table), [c.name.local_id for c in table.get_columns()], [KEY], identity=[KEY] if identity else [])
    if op == "delete":
        store.rows = [{KEY: i, NAME: "x", VALUE: i} for i in range(5)]
    try:
        apply(S, dialect, log, store)
    except DMLError as ex:
        S.fail(f"statement or data is refused: {ex}")
        return
    if op == "delete":
        check_rows(S, dialect, store, [{KEY: i} for i in range(5) if i == 0 or i > count])
        return
    for d in data:
        if identity:
            d[KEY] = Generated()
    check_rows(S, dialect, store, data)
