"Rows of a query result reach the caller with each value in its own field."

import asyncio
import itertools
from dataclasses import dataclass
from typing import Optional

from pysqlsync.resultset import (
    resultset_unwrap_dict,
    resultset_unwrap_object,
    resultset_unwrap_tuple,
)

from symex.api import TEXT, grid, harness

from .drivers import Record, Result, Row, as_dict, context

DIALECTS = ["postgresql", "mysql", "mssql", "oracle", "redshift", "trino"]


@dataclass
class Item:
    nkey: int
    nname: str
    nvalue: Optional[int]


NAMES = ["nkey", "nname", "nvalue"]


def cell(S, row, name):
    if name == "nname":
        return S.str(f"{name}{row}", 0, 1, TEXT)
    if name == "nvalue" and S.bool(f"{name}{row}?"):
        return None
    return S.int(f"{name}{row}")


def same(S, a, b):
    if a is None or b is None:
        return a is None and b is None
    return S.eq(a, b)


def query(S, dialect, signature, names, rows):
    ctx = context(dialect, lambda statement: Result(names, rows))
    return asyncio.run(ctx.query_all(signature, "SELECT nkey FROM ntable"))


def equal_rows(S, found, expected):
    S.check(len(found) == len(expected), "one item is delivered for each row")
    for f, e in zip(found, expected):
        S.check(same_items(S, f, e), "each value is at its own position")


def same_items(S, f, e):
    if not isinstance(f, tuple) or len(f) != len(e):
        return False
    return S.all([same(S, a, b) for a, b in zip(f, e)])


@harness("C17", params=grid(dialect=DIALECTS, rows=[0, 1, 2, 3]), thorough=grid(dialect=DIALECTS, rows=[0, 1, 2, 3, 4, 5]))
def tuples(S, dialect, rows):
    data = [tuple(cell(S, i, n) for n in NAMES) for i in range(rows)]
    equal_rows(S, query(S, dialect, tuple[int, str, int], NAMES, data), data)


@harness("C17", params=grid(dialect=DIALECTS, rows=[0, 1, 2, 3]), thorough=grid(dialect=DIALECTS, rows=[0, 1, 2, 3, 4, 5]))
def scalars(S, dialect, rows):
    kind = S.choose("kind", [int, str])
    data = [cell(S, i, "nname" if kind is str else "nvalue") for i in range(rows)]
    found = query(S, dialect, kind, ["nkey"], [(v,) for v in data])
    S.check(len(found) == len(data), "one item is delivered for each row")
    for f, e in zip(found, data):
        S.check(same(S, f, e), "each item is the value in its row")


# queries for classes are not available in Trino
CLASSES = [d for d in DIALECTS if d != "trino"]


def check_items(S, found, names, data):
    S.check(len(found) == len(data), "one object is delivered for each row")
    for f, row in zip(found, data):
        S.check(isinstance(f, Item), "objects are of the class requested")
        for n, v in zip(names, row):
            S.check(same(S, getattr(f, n), v), "each value is assigned to the field of the same name")


@harness("C17", params=grid(dialect=CLASSES, rows=[0, 1, 2]), thorough=grid(dialect=CLASSES, rows=[0, 1, 2, 3]))
def objects(S, dialect, rows):
    names = list(S.choose("order", list(itertools.permutations(NAMES))))
    data = [tuple(cell(S, i, n) for n in names) for i in range(rows)]
    check_items(S, query(S, dialect, Item, names, data), names, data)


@dataclass
class Mixed:
    nKey: int
    nname: str


@harness("C17", params=grid(dialect=CLASSES))
def letters(S, dialect):
    "Fields whose names have capital letters; Oracle reports names that are not quoted in capital letters."

    names = ["nKey", "nname"]
    if S.bool("swap"):
        names.reverse()
    rows = S.choose("rows", [1, 2])
    data = [tuple(S.int(f"{n}{i}") if n == "nKey" else cell(S, i, n) for n in names) for i in range(rows)]
    reported = [n.upper() if dialect == "oracle" and S.bool(f"{n} is reported in capitals") else n for n in names]
    found = query(S, dialect, Mixed, reported, data)
    S.check(len(found) == len(data), "one object is delivered for each row")
    for f, row in zip(found, data):
        S.check(isinstance(f, Mixed), "objects are of the class requested")
        for n, v in zip(names, row):
            S.check(same(S, getattr(f, n), v), "each value is assigned to the field of the same name")


@harness("C17", params=grid(dialect=DIALECTS))
def shapes(S, dialect):
    "Results of a different shape are refused."

    signature, width = S.choose(
        "signature", [(int, 2), (str, 3), (tuple[int, str], 1), (tuple[int, str], 3), (tuple[int, str, int], 2), (Item, 2)]
    )
    rows = S.choose("rows", [1, 2])
    names = list(S.choose("order", list(itertools.permutations(NAMES, width))))
    data = [tuple(cell(S, i, n) for n in names) for i in range(rows)]
    try:
        query(S, dialect, signature, names, data)
        refused = False
    except Exception:
        refused = True
    S.check(refused, "a result whose shape does not match the signature is refused")


@harness("C17", params=grid(kind=["tuple", "list", "record", "row", "generator"], rows=[0, 1, 2, 3]))
def unwrap_tuples(S, kind, rows):
    "Conversion of rows, as represented by various drivers, to tuples and scalars."

    data = [tuple(cell(S, i, n) for n in NAMES) for i in range(rows)]
    description = [(n,) for n in NAMES]
    if kind == "tuple" or kind == "generator":
        records = data
    elif kind == "list":
        records = [list(r) for r in data]
    elif kind == "record":
        records = [Record(NAMES, r) for r in data]
    else:
        records = [Row(description, r) for r in data]
    if kind == "generator":
        records = iter(records)
    equal_rows(S, resultset_unwrap_tuple(tuple[int, str, int], records), data)


@harness("C17", params=grid(kind=["dict", "record", "object", "generator"], rows=[0, 1, 2]))
def unwrap_objects(S, kind, rows):
    "Conversion of rows, as represented by various drivers, to objects."

    names = list(S.choose("order", list(itertools.permutations(NAMES))))
    data = [tuple(cell(S, i, n) for n in names) for i in range(rows)]
    description = [(n,) for n in names]
    if kind == "object":
        found = resultset_unwrap_object(Item, [Row(description, r) for r in data])
    elif kind == "record":
        found = resultset_unwrap_dict(Item, [Record(names, r) for r in data])
    elif kind == "dict":
        found = resultset_unwrap_dict(Item, [as_dict(description, r) for r in data])
    else:
        found = resultset_unwrap_dict(Item, (as_dict(description, r) for r in data))
    check_items(S, found, names, data)
