"Statements that insert, update and delete rows affect exactly the values supplied."

import itertools

from symex.api import TEXT, grid, harness

from .common import Models, generator, has_schemas
from .dml import DMLError, Generated, Store, equal, parse

DIALECTS = ["postgresql", "mysql", "mssql", "oracle", "redshift", "snowflake", "delta"]

KEY, UNIQUE, VALUE, OTHER = "nkey", "nunique", "nvalue", "nother"


def table_name(dialect, schema="nschema", name="ntable"):
    if has_schemas(dialect):
        return (schema, name)
    return (f"{schema}__{name}",)


def build(dialect, key_last, unique, identity, name=VALUE):
    "A table whose primary key is either the first or the last column."

    m = Models(dialect, generator(dialect))
    key = m.column(KEY, m.int(), identity=identity)
    others = [
        m.column(UNIQUE, m.int(), nullable=True),
        m.column(name, m.int(), nullable=True),
        m.column(OTHER, m.int(), nullable=True),
    ]
    columns = others + [key] if key_last else [key] + others
    constraints = [m.unique("nq", [UNIQUE])] if unique else []
    return m.gen, m.table("nschema", "ntable", columns, KEY, constraints)


def shape(S, dialect):
    key_last = S.bool("key is last")
    unique = S.bool("unique")
    identity = S.bool("identity")
    gen, table = build(dialect, key_last, unique, identity)
    return gen, table, unique, identity


def value(S, name, nullable=True):
    if nullable and S.bool(f"{name}?"):
        return None
    return S.int(name)


def stored(S, dialect, table, unique, identity):
    "A table with two rows that differ in their keys."

    rows = []
    for i in range(2):
        row = {KEY: S.int(f"{KEY}{i}"), VALUE: S.int(f"{VALUE}{i}"), OTHER: S.int(f"{OTHER}{i}")}
        row[UNIQUE] = S.int(f"{UNIQUE}{i}")
        rows.append(row)
    S.assume(S.not_(S.eq(rows[0][KEY], rows[1][KEY])))
    S.assume(S.not_(S.eq(rows[0][UNIQUE], rows[1][UNIQUE])))
    columns = [c.name.local_id for c in table.get_columns()]
    return Store(table_name(dialect), columns, [KEY], [[UNIQUE]] if unique else [], [KEY] if identity else [], rows)


def orders(S, names):
    "Which columns are supplied, in which order."

    options = [None]
    for n in range(1, len(names) + 1):
        options += list(itertools.permutations(names, n))
    return S.choose("order", options)


def same(S, a, b):
    if isinstance(a, Generated) or isinstance(b, Generated):
        return isinstance(a, Generated) and isinstance(b, Generated)
    if a is None or b is None:
        return a is None and b is None
    return S.eq(a, b)


def run(S, store, text, dialect, record):
    try:
        store.run(S, parse(text, dialect), dialect, record)
    except DMLError as ex:
        S.fail(f"statement is refused: {ex}")


def same_row(S, row, expected, message):
    for c, v in expected.items():
        S.check(same(S, row[c], v), message)


def others_unchanged(S, before, after, index=None):
    for i, r in enumerate(before):
        if i != index:
            same_row(S, after[i], r, "rows with other keys are unchanged")


SMALL = [None, (KEY, UNIQUE, VALUE, OTHER), (OTHER, VALUE, UNIQUE, KEY), (VALUE, KEY), (KEY,), (OTHER, UNIQUE), (VALUE,)]


def supplied(S, table, order):
    "Columns for which there is a value in each record."
    if order is None:
        return [c.name.local_id for c in table.get_columns()]
    return list(order)


def pick(S, full):
    if full:
        return orders(S, [KEY, UNIQUE, VALUE, OTHER])
    return S.choose("order", SMALL)


QUICK = grid(dialect=DIALECTS, full=[False])
FULL = grid(dialect=DIALECTS, full=[True])


@harness("C08", params=QUICK, thorough=FULL)
def insert(S, dialect, full):
    gen, table, unique, identity = shape(S, dialect)
    order = pick(S, full)
    # values for columns that the database generates are omitted
    names = [n for n in supplied(S, table, order) if not (identity and n == KEY)]
    S.assume(bool(names))
    record = {n: value(S, n, n != KEY) for n in names}
    store = Store(table_name(dialect), [c.name.local_id for c in table.get_columns()], [KEY], [], [KEY] if identity else [])
    run(S, store, gen.get_table_insert_stmt(table, order), dialect, [record[n] for n in names])
    S.check(len(store.rows) == 1, "a row is inserted for the record")
    row = store.rows[0]
    for n in (UNIQUE, VALUE, OTHER):
        S.check(same(S, row[n], record.get(n)), "each value is in its own column")
    if identity:
        S.check(isinstance(row[KEY], Generated), "the key is generated by the database")
    else:
        S.check(same(S, row[KEY], record.get(KEY)), "each value is in its own column")


@harness("C08", params=QUICK, thorough=FULL)
def merge(S, dialect, full):
    "Insert or ignore."

    gen, table, unique, identity = shape(S, dialect)
    order = pick(S, full)
    names = [n for n in supplied(S, table, order) if not (identity and n == KEY)]
    # without any key, there is nothing to compare records by
    S.assume((KEY in names) or (unique and UNIQUE in names))
    record = {n: value(S, n, n != KEY) for n in names}
    store = stored(S, dialect, table, unique, identity)
    if KEY not in names and not identity:
        # the key is not supplied
        S.assume(False)
    before = [dict(r) for r in store.rows]
    run(S, store, gen.get_table_merge_stmt(table, order), dialect, [record[n] for n in names])
    exists = False
    for r in before:
        if KEY in record and equal(r[KEY], record[KEY]):
            exists = True
        if unique and UNIQUE in record and equal(r[UNIQUE], record[UNIQUE]):
            exists = True
    if exists:
        S.check(len(store.rows) == 2, "a record is ignored if its key exists")
        others_unchanged(S, before, store.rows)
        return
    S.check(len(store.rows) == 3, "a record is inserted if its key does not exist")
    others_unchanged(S, before, store.rows)
    row = store.rows[2]
    for n in (UNIQUE, VALUE, OTHER):
        S.check(same(S, row[n], record.get(n)), "each value is in its own column")
    if identity:
        S.check(isinstance(row[KEY], Generated), "the key is generated by the database")
    else:
        S.check(same(S, row[KEY], record[KEY]), "each value is in its own column")


@harness("C08", params=QUICK, thorough=FULL)
def upsert(S, dialect, full):
    "Insert or update."

    gen, table, unique, identity = shape(S, dialect)
    order = pick(S, full)
    names = supplied(S, table, order)
    S.assume(KEY in names)
    S.assume(bool([n for n in names if not (identity and n == KEY)]))
    record = {n: value(S, n, n != KEY) for n in names}
    store = stored(S, dialect, table, unique, identity)
    before = [dict(r) for r in store.rows]
    match = None
    for i, r in enumerate(before):
        if equal(r[KEY], record[KEY]):
            match = i
        elif unique and UNIQUE in record:
            # the value would not be unique
            S.assume(S.not_(equal(r[UNIQUE], record[UNIQUE])))
    run(S, store, gen.get_table_upsert_stmt(table, order), dialect, [record[n] for n in names])
    if match is not None:
        S.check(len(store.rows) == 2, "no row is inserted if the key exists")
        others_unchanged(S, before, store.rows, match)
        row = store.rows[match]
        for n in (KEY, UNIQUE, VALUE, OTHER):
            if n not in record:
                S.check(same(S, row[n], before[match][n]), "columns that are not supplied are unchanged")
            elif n == UNIQUE and unique:
                # a unique column may be either used to look up a row, or updated
                S.check(
                    S.any([same(S, row[n], record[n]), same(S, row[n], before[match][n])]),
                    "no value is assigned to a unique column other than the one supplied",
                )
            else:
                S.check(same(S, row[n], record[n]), "columns that are supplied are updated")
        return
    S.check(len(store.rows) == 3, "a record is inserted if its key does not exist")
    others_unchanged(S, before, store.rows)
    row = store.rows[2]
    for n in (UNIQUE, VALUE, OTHER):
        S.check(same(S, row[n], record.get(n)), "each value is in its own column")
    if not (identity and isinstance(row[KEY], Generated)):
        S.check(same(S, row[KEY], record[KEY]), "each value is in its own column")


@harness("C08", params=grid(dialect=DIALECTS))
def delete(S, dialect):
    gen, table, unique, identity = shape(S, dialect)
    store = stored(S, dialect, table, unique, identity)
    before = [dict(r) for r in store.rows]
    key = S.int("key")
    run(S, store, gen.get_table_delete_stmt(table), dialect, [key])
    expected = [r for r in before if not equal(r[KEY], key)]
    S.check(len(store.rows) == len(expected), "rows are deleted by their key")
    for r, e in zip(store.rows, expected):
        same_row(S, r, e, "rows with other keys are unchanged")


@harness("C08", params=grid(dialect=DIALECTS, op=["merge", "upsert", "delete"]))
def composite(S, dialect, op):
    "Tables with a composite key."

    m = Models(dialect, generator(dialect))
    first, second = ("nkey", "nkeytwo") if S.bool("in order") else ("nkeytwo", "nkey")
    columns = [m.column(first, m.int()), m.column(VALUE, m.int(), nullable=True), m.column(second, m.int())]
    table = m.table("nschema", "ntable", columns, ["nkey", "nkeytwo"])
    names = [first, VALUE, second]
    try:
        if op == "merge":
            text = m.gen.get_table_merge_stmt(table)
        elif op == "upsert":
            text = m.gen.get_table_upsert_stmt(table)
        else:
            text = m.gen.get_table_delete_stmt(table)
    except KeyError:
        S.check(True, "composite keys are refused")
        return
    S.check(op != "delete", "deleting rows by a single value is refused if the key is composite")
    rows = [{n: S.int(f"{n}{i}") for n in names} for i in range(2)]
    S.assume(S.not_(S.all([S.eq(rows[0][k], rows[1][k]) for k in ("nkey", "nkeytwo")])))
    record = {n: S.int(n) for n in names}
    store = Store(table_name(dialect), names, ["nkey", "nkeytwo"], rows=rows)
    before = [dict(r) for r in store.rows]
    run(S, store, text, dialect, [record[n] for n in names])
    match = None
    for i, r in enumerate(before):
        if equal(r["nkey"], record["nkey"]) and equal(r["nkeytwo"], record["nkeytwo"]):
            match = i
    if match is None:
        S.check(len(store.rows) == 3, "a record is inserted if its key does not exist")
        others_unchanged(S, before, store.rows)
        same_row(S, store.rows[2], record, "each value is in its own column")
    else:
        S.check(len(store.rows) == 2, "no row is inserted if the key exists")
        others_unchanged(S, before, store.rows, match)
        same_row(S, store.rows[match], record if op == "upsert" else before[match], "columns that are supplied are updated")


@harness("C08", params=grid(dialect=DIALECTS, op=["insert", "merge", "upsert"], size=[2]), thorough=grid(dialect=DIALECTS, op=["insert", "merge", "upsert"], size=[4]))
def any_name(S, dialect, op, size):
    "Statements name the columns whatever characters the names have."

    name = S.name(S.str("name", 1, size, TEXT))
    for other in (KEY, UNIQUE, OTHER):
        S.assume(S.not_(S.eq(name, other)))
    gen, table = build(dialect, False, False, False, name)
    columns = [KEY, UNIQUE, name, OTHER]
    text = {
        "insert": gen.get_table_insert_stmt,
        "merge": gen.get_table_merge_stmt,
        "upsert": gen.get_table_upsert_stmt,
    }[op](table)
    try:
        s = parse(text, dialect)
    except DMLError as ex:
        S.fail(f"statement is refused: {ex}")
        return
    S.check(len(s.columns) == 4, "there are as many columns as in the table")
    for a, b in zip(s.columns, columns):
        S.check(S.eq(a, b), "columns are named as in the table")
    if op == "upsert":
        S.check(s.update is not None, "values are updated")
        updated = list(s.update.items())
        S.check(len(updated) == 3, "all value columns are updated")
        for (a, b), c in zip(updated, columns[1:]):
            S.check(S.all([S.eq(a, c), S.eq(b, c)]), "columns are updated from the value of the same column")
