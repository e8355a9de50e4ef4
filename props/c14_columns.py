"Columns of a class hold all values that the types of its fields allow."

import dataclasses
import datetime
import decimal
import enum
import ipaddress
import sys
import uuid
from dataclasses import field as dataclass_field
from dataclasses import make_dataclass
from typing import Annotated, Literal, Optional, Union

from strong_typing.auxiliary import (
    IntegerRange,
    MaxLength,
    Precision,
    Signed,
    Storage,
    TimePrecision,
    float32,
    float64,
    int8,
    int16,
    int32,
    int64,
    uint8,
    uint16,
    uint32,
    uint64,
)

from pysqlsync.formation.object_types import CheckConstraint, EnumTable, ForeignConstraint, UniqueConstraint
from pysqlsync.formation.py_to_sql import EnumMode
from pysqlsync.model.key_types import DEFAULT, Identity, PrimaryKey, Unique

from symex.api import ASCII_TEXT, LOWER, TEXT, grid, harness

from .common import DIALECTS, generator, has_schemas, tid
from .refdb import Database, DatabaseError, expression_of
from .reftypes import UnknownType, capacity
from .schemas import execute, object_id

# how a backslash is written is decided by C02
NO_BACKSLASH = ((1, 0x5B), (0x5D, 0x7F))
MODULE = sys.modules[__name__]


def convert(dialect, fields, **options):
    "The model for a class with the given fields."

    cls = make_dataclass("ntable", fields)
    cls.__module__ = __name__
    gen = generator(dialect, namespaces={MODULE: "nschema"}, **options)
    catalog = gen.converter.dataclasses_to_catalog([cls])
    return catalog, find(dialect, catalog, "ntable")


def find(dialect, catalog, name):
    for ns in catalog.namespaces.values():
        for t in ns.tables.values():
            if t.name.local_id == tid(dialect, "nschema", name).local_id:
                return t
    return None


def hashed(cls):
    "An annotation whose (symbolic) properties do not take part in its hash code."

    return type(cls.__name__, (cls,), {"__hash__": object.__hash__, "__eq__": object.__eq__})


SymRange = hashed(IntegerRange)
SymPrecision = hashed(Precision)
SymTimePrecision = hashed(TimePrecision)
SymMaxLength = hashed(MaxLength)

INTEGERS = {
    "int": (int, -(1 << 63), (1 << 63) - 1),
    "int8": (int8, -(1 << 7), (1 << 7) - 1),
    "int16": (int16, -(1 << 15), (1 << 15) - 1),
    "int32": (int32, -(1 << 31), (1 << 31) - 1),
    "int64": (int64, -(1 << 63), (1 << 63) - 1),
    "uint8": (uint8, 0, (1 << 8) - 1),
    "uint16": (uint16, 0, (1 << 16) - 1),
    "uint32": (uint32, 0, (1 << 32) - 1),
    "uint64": (uint64, 0, (1 << 64) - 1),
    "one byte": (Annotated[int, Storage(1)], -(1 << 7), (1 << 7) - 1),
    "two bytes": (Annotated[int, Storage(2)], -(1 << 15), (1 << 15) - 1),
    "four bytes": (Annotated[int, Storage(4)], -(1 << 31), (1 << 31) - 1),
    "unsigned byte": (Annotated[int, Signed(False), Storage(1)], 0, (1 << 8) - 1),
    "unsigned two bytes": (Annotated[int, Storage(2), Signed(False)], 0, (1 << 16) - 1),
    "unsigned four bytes": (Annotated[int, Signed(False), Storage(4)], 0, (1 << 32) - 1),
}


def admits(S, condition, column, dialect, value):
    "Whether a condition on a range admits a value."

    tokens = [t for t in expression_of(condition, dialect) if t not in (("op", "("), ("op", ")"))]
    out = []
    part = []
    for t in [*tokens, ("word", "AND")]:
        if t == ("word", "AND"):
            ops = "".join(v for k, v in part[1:] if k == "op" and v != "-")
            sign = -1 if any(t == ("op", "-") for t in part) else 1
            limit = sign * int(part[-1][1])
            if part[0] != ("id", column) or part[-1][0] != "num":
                raise AssertionError("unexpected condition")
            out.append({">=": value >= limit, "<=": value <= limit, ">": value > limit, "<": value < limit}[ops])
            part = []
        else:
            part.append(t)
    return S.all(out)


def column_capacity(S, dialect, table, name):
    "What a column holds, or None if the engine does not know the type of the column."

    try:
        return capacity(str(table.columns[name].data_type), dialect)
    except UnknownType as ex:
        S.fail(f"the engine has the type of the column: {ex}")
        return None


@harness("C14", params=grid(dialect=DIALECTS))
def integers(S, dialect):
    "Integers of a symbolic range."

    kind = S.choose("kind", list(INTEGERS) + ["range", "narrow", "unsigned narrow"])
    if kind == "range":
        lo, hi = S.int("minimum", -(1 << 63), (1 << 63) - 1), S.int("maximum", -(1 << 63), (1 << 63) - 1)
        t = Annotated[int, SymRange(lo, hi)]
    elif kind == "narrow":
        lo, hi = S.int("minimum", -(1 << 31), (1 << 31) - 1), S.int("maximum", -(1 << 31), (1 << 31) - 1)
        t = Annotated[int, Storage(4), SymRange(lo, hi)]
    elif kind == "unsigned narrow":
        lo, hi = S.int("minimum", 0, (1 << 16) - 1), S.int("maximum", 0, (1 << 16) - 1)
        t = Annotated[int, Storage(2), Signed(False), SymRange(lo, hi)]
    else:
        t, lo, hi = INTEGERS[kind]
    value = S.int("value")
    S.known("uint64", value > (1 << 63) - 1 if kind == "uint64" else False)
    inside = S.all([lo <= value, value <= hi])
    # the same type may carry other annotations
    wrap = S.choose("wrap", ["plain", "optional", "unique"])
    field_type = {"plain": t, "optional": Optional[t], "unique": Unique[t]}[wrap]
    catalog, table = convert(dialect, [("nid", PrimaryKey[int]), ("nvalue", field_type)])
    found = column_capacity(S, dialect, table, "nvalue")
    if found is None:
        return
    S.check(found.kind == "int", "the column has integers")
    S.check(S.implies(inside, S.all([found.minimum <= value, value <= found.maximum])), "a value of the field is in the range of the column")
    for c in table.constraints.values():
        if isinstance(c, CheckConstraint):
            S.check(S.implies(inside, admits(S, c.condition, "nvalue", dialect, value)), "a value of the field is admitted by the constraints")
    if kind in ("range", "narrow", "unsigned narrow") and dialect not in ():
        conditions = [c.condition for c in table.constraints.values() if isinstance(c, CheckConstraint)]
        S.check(len(conditions) == 1, "a range is kept")
        if conditions:
            S.check(S.implies(admits(S, conditions[0], "nvalue", dialect, value), inside), "a value outside of the range is not admitted")


@harness("C14", params=grid(dialect=DIALECTS))
def numbers(S, dialect):
    "Fixed-point and floating-point numbers."

    kind = S.choose("kind", ["float", "float32", "float64", "float digits", "decimal", "decimal digits"])
    p = s = None
    if kind == "float digits":
        p = S.int("digits", 1, 15)
        t = Annotated[float, SymPrecision(p)]
        S.known("float-digits", S.all([p >= 7, p <= 24]) if dialect not in ("oracle", "trino") else True)
        if dialect == "delta":
            # refused with an error
            S.assume(False)
    elif kind == "decimal digits":
        p = S.int("precision", 1, 38)
        s = S.int("scale", 0, 30)
        S.assume(s <= p)
        t = Annotated[decimal.Decimal, SymPrecision(p, s)]
    else:
        t = {"float": float, "float32": float32, "float64": float64, "decimal": decimal.Decimal}[kind]
        S.known("decimal", kind == "decimal" and dialect != "postgresql")
    catalog, table = convert(dialect, [("nid", PrimaryKey[int]), ("nvalue", t)])
    found = column_capacity(S, dialect, table, "nvalue")
    if found is None:
        return
    if kind.startswith("float"):
        S.check(found.kind == "float", "the column has floating-point numbers")
        if kind == "float digits":
            # the decimal digits that survive being stored
            S.check(found.bits >= 53 or p <= 6, "the column keeps the digits of the field")
        else:
            S.check(found.bits >= (24 if kind == "float32" else 53), "the column keeps the digits of the field")
    elif kind == "decimal":
        S.check(found.kind == "any decimal", "the column keeps the digits of the field")
    else:
        S.check(found.kind == "any decimal" or found.kind == "decimal", "the column has fixed-point numbers")
        if found.kind == "decimal":
            S.check(found.scale >= s, "the column keeps the fraction of the field")
            S.check(found.precision - found.scale >= p - s, "the column keeps the digits of the field")


# the length of a text that a column has to hold if there is no limit
LONG = 1 << 20
LONGEST = {"postgresql": 10485760, "mysql": 16777215, "redshift": 65535, "snowflake": 16777216}


@harness("C14", params=grid(dialect=DIALECTS), thorough=grid(dialect=DIALECTS, size=[3]))
def texts(S, dialect, size=2):
    "Texts of symbolic length."

    kind = S.choose("kind", ["any", "limited", "literal", "union", "literals", "any union"])
    length = None
    words = []
    if kind in ("literal", "union", "literals", "any union"):
        words = [S.str(f"word{i}", 1, size, LOWER) for i in range(2 if kind == "literals" else 1)]
        if len(words) > 1:
            S.assume(S.not_(S.eq(words[0], words[1])))
        literal = Literal[words[0]] if len(words) == 1 else Literal[words[0], words[1]]
    if kind in ("limited", "union"):
        length = S.int("length", 1, LONGEST.get(dialect, 1 << 24))
        t = Annotated[str, SymMaxLength(length)]
        if kind == "union":
            t = S.choose("order", [Union[literal, t], Union[t, literal]])
    elif kind == "any":
        t = str
    elif kind == "any union":
        t = Union[literal, str]
    else:
        t = literal
    S.known("redshift-text", dialect == "redshift" and kind in ("any", "any union"))
    S.known("trino-types", dialect == "trino" and kind in ("any", "any union"))
    catalog, table = convert(dialect, [("nid", PrimaryKey[int]), ("nvalue", t)])
    found = column_capacity(S, dialect, table, "nvalue")
    if found is None:
        return
    S.check(found.kind == "text", "the column has texts")
    if kind in ("any", "any union"):
        S.check(found.limit >= LONG, "the column has texts of any length")
    if length is not None:
        S.check(found.limit >= length, "the column has texts of the permitted length")
    for w in words:
        S.check(found.limit >= len(w), "the column has the literal")


@harness("C14", params=grid(dialect=DIALECTS))
def others(S, dialect):
    "Dates, times, identifiers and addresses."

    kind = S.choose("kind", ["bool", "datetime", "datetime digits", "date", "time", "time digits", "uuid", "ipv4", "ipv6", "ip", "bytes", "bytes digits"])
    k = None
    if kind in ("datetime digits", "time digits"):
        k = S.int("digits", 0, 6)
    types = {
        "bool": bool,
        "datetime": datetime.datetime,
        "date": datetime.date,
        "time": datetime.time,
        "uuid": uuid.UUID,
        "ipv4": ipaddress.IPv4Address,
        "ipv6": ipaddress.IPv6Address,
        "ip": Union[ipaddress.IPv4Address, ipaddress.IPv6Address],
        "bytes": bytes,
    }
    if kind == "datetime digits":
        t = Annotated[datetime.datetime, SymTimePrecision(k)]
    elif kind == "time digits":
        t = Annotated[datetime.time, SymTimePrecision(k)]
    else:
        t = types.get(kind)
    # not mapped by the dialect
    if kind.startswith("bytes"):
        S.assume(dialect == "oracle")
        if kind == "bytes digits":
            S.assume(False)
    if kind.startswith("time"):
        S.assume(dialect != "delta")
    S.known("mysql-fraction", dialect == "mysql" and kind in ("datetime", "time"))
    S.known("trino-types", dialect == "trino" and kind in ("datetime", "time", "ipv4", "ipv6", "ip"))
    catalog, table = convert(dialect, [("nid", PrimaryKey[int]), ("nvalue", t)])
    found = column_capacity(S, dialect, table, "nvalue")
    if found is None:
        return
    if kind == "bool":
        S.check(found.kind == "bool" or (found.kind == "int" and found.minimum <= 0 and found.maximum >= 1), "the column has true and false")
    elif kind.startswith("datetime"):
        S.check(found.kind == "timestamp", "the column has timestamps")
        S.check(found.digits >= (6 if k is None else k), "the column keeps the fraction of a second")
    elif kind == "date":
        S.check(found.kind == "date", "the column has dates")
    elif kind.startswith("time"):
        S.check(found.kind == "time", "the column has times")
        S.check(found.digits >= (6 if k is None else k), "the column keeps the fraction of a second")
    elif kind == "uuid":
        S.check(found.kind == "uuid" or (found.kind == "binary" and found.limit >= 16), "the column has identifiers")
    elif kind == "bytes":
        S.check(found.kind == "binary" and found.limit >= LONG, "the column has any bytes")
    else:
        size = 4 if kind == "ipv4" else 16
        S.check(found.kind == "inet" or (found.kind == "binary" and found.limit >= size), "the column has addresses")


MODES = {
    "postgresql": [EnumMode.TYPE, EnumMode.RELATION, EnumMode.CHECK],
    "mysql": [EnumMode.INLINE, EnumMode.RELATION, EnumMode.CHECK],
    "mssql": [EnumMode.RELATION, EnumMode.CHECK],
    "oracle": [EnumMode.RELATION, EnumMode.CHECK],
    "redshift": [EnumMode.CHECK],
    "snowflake": [EnumMode.CHECK],
    "delta": [EnumMode.CHECK],
    "trino": [EnumMode.RELATION, EnumMode.CHECK],
}
MODE_GRID = [{"dialect": d, "mode": m.name} for d in DIALECTS for m in MODES[d]]
# dialects without check constraints
UNCHECKED = ("snowflake", "delta")
# dialects without references
UNREFERENCED = ("redshift", "snowflake", "delta")


def make_enum(S, numeric, count, size):
    "An enumeration with symbolic labels, or numbers."

    if numeric:
        values = [[7, -1, 1 << 20][i] for i in range(count)]
    else:
        values = [S.str(f"label{i}", 0, size, NO_BACKSLASH) for i in range(count)]
        for i, a in enumerate(values):
            for b in values[:i]:
                S.assume(S.not_(S.eq(a, b)))
    e = enum.Enum("nkind", {f"M{i}": v for i, v in enumerate(values)})
    e.__module__ = __name__
    return e, values


def literals(tokens):
    "The values in a list."

    out = []
    sign = 1
    for k, v in tokens:
        if k == "str":
            out.append(v)
        elif k == "num":
            out.append(sign * int(v))
        sign = -1 if (k, v) == ("op", "-") else 1
    return out


def find_enum(dialect, catalog, name):
    for ns in catalog.namespaces.values():
        for e in ns.enums.values():
            if e.name.local_id == name:
                return e
    return None


@harness(
    "C14",
    params=[dict(g, size=1) for g in MODE_GRID],
    thorough=[dict(g, size=2) for g in MODE_GRID],
)
def enumerations(S, dialect, mode, size):
    "Each member of an enumeration has a representation in the column."

    numeric = S.choose("numeric", [False, True])
    count = S.choose("count", [2, 3])
    e, values = make_enum(S, numeric, count, size)
    wrap = S.choose("wrap", ["plain", "optional", "extensible"])
    t = {"plain": e, "optional": Optional[e], "extensible": Union[e, str]}[wrap]
    initialize = S.choose("initialize", [False, True])
    catalog, table = convert(dialect, [("nid", PrimaryKey[int]), ("nvalue", t)], enum_mode=EnumMode[mode], initialize_tables=initialize)
    col = table.columns["nvalue"]
    S.check(col.nullable == (wrap == "optional"), "the column accepts NULL exactly if the field is optional")
    found = column_capacity(S, dialect, table, "nvalue")
    if found is None:
        return
    if wrap == "extensible" or mode == "RELATION":
        lookup = find(dialect, catalog, "nkind")
        if lookup is None:
            S.fail("there is a lookup table")
            return
        key = column_capacity(S, dialect, lookup, "id")
        label = column_capacity(S, dialect, lookup, "value")
        S.check(found.kind == "int" and key.kind == "int", "a label is represented by a key")
        S.check(found.minimum <= key.minimum and key.maximum <= found.maximum, "the column has the range of the keys")
        S.check(lookup.columns["id"].identity and tuple(n.local_id for n in lookup.primary_key) == ("id",), "keys are generated")
        S.check(not lookup.columns["value"].nullable, "a label is not NULL")
        S.check(label.kind == "text" and label.limit >= 64, "the lookup table has labels of the permitted length")
        refs = [c for c in table.constraints.values() if isinstance(c, ForeignConstraint) and c.foreign_columns == (col.name,)]
        S.check(len(refs) == 1 and refs[0].reference.table.local_id == lookup.name.local_id, "the column refers to the lookup table")
        if initialize:
            if not isinstance(lookup, EnumTable):
                S.fail("the lookup table has rows")
                return
            rows = [v if isinstance(v, str) else str(v) for v in lookup.values]
            S.check(len(rows) == count, "the lookup table has a row for each member")
            for v in values:
                S.check(S.any([S.eq(r, str(v)) for r in rows]), "the lookup table has each member")
        else:
            S.check(not isinstance(lookup, EnumTable), "the lookup table has no rows")
        return
    S.check(find(dialect, catalog, "nkind") is None, "there is no lookup table")
    if mode == "TYPE":
        e = find_enum(dialect, catalog, found.name[-1]) if found.kind == "user" else None
        if e is None:
            S.fail("the column has an enumeration type")
            return
        labels = e.values
    elif mode == "INLINE":
        if found.kind != "enum":
            S.fail("the column has an enumeration type")
            return
        labels = found.labels
    else:
        if numeric:
            S.check(found.kind == "int" and S.all([found.minimum <= v and v <= found.maximum for v in values]), "the column has the numbers")
        else:
            S.check(found.kind == "text" and found.limit >= 64, "the column has labels of the permitted length")
        conditions = [expression_of(c.condition, dialect) for c in table.constraints.values() if isinstance(c, CheckConstraint)]
        if dialect in UNCHECKED:
            S.check(not conditions, "there is no constraint")
            return
        if len(conditions) != 1:
            S.fail("values are restricted to members")
            return
        S.check(conditions[0][:2] == (("id", "nvalue"), ("word", "IN")), "values are restricted to members")
        labels = literals(conditions[0][2:])
    S.check(len(labels) == count, "there is a label for each member")
    for v in values:
        S.check(S.any([S.eq(r, v if mode == "CHECK" else str(v)) for r in labels]), "each member has a label")


def unique_columns(table):
    return sorted(c.name.local_id and c.unique_columns[0].local_id for c in table.constraints.values() if isinstance(c, UniqueConstraint))


@dataclasses.dataclass
class nparent:
    nkey: PrimaryKey[int]


class nlabel(enum.Enum):
    A = "a"
    B = "b"


def nested(S, base, count):
    "A type with any nesting of markers, and the properties it stands for."

    t = base
    nullable = unique = False
    markers = ["none", "optional", "unique", "default"]
    if base is not nparent and base is not nlabel:
        # an annotated reference or enumeration is refused
        markers.append("remark")
    for i in range(count):
        marker = S.choose(f"marker{i}", markers)
        if marker == "none":
            break
        if marker in ("unique", "remark") and "default" not in markers and "optional" in markers:
            # the placeholder is a member of the outermost union
            markers.remove("optional")
        markers.remove(marker)
        if marker == "optional":
            t = Optional[t]
            nullable = True
        elif marker == "unique":
            t = Unique[t]
            unique = True
        elif marker == "default":
            t = Union[t, type(DEFAULT)]
        else:
            t = Annotated[t, "remark"]
    return t, nullable, unique


@harness("C14", params=grid(dialect=DIALECTS), thorough=grid(dialect=DIALECTS, count=[4]))
def flags(S, dialect, count=3):
    "Markers of fields, nested in any order."

    base = S.choose("base", [int, str, datetime.datetime, Annotated[str, MaxLength(10)], nparent, nlabel])
    t, nullable, unique = nested(S, base, count)
    key = S.choose("key", ["plain", "identity", "remarked identity", "unique"]) if not unique and not nullable else "plain"
    key_type = {
        "plain": PrimaryKey[int],
        "identity": PrimaryKey[Identity[int]],
        "remarked identity": PrimaryKey[Identity[Annotated[int, "remark"]]],
        "unique": Unique[PrimaryKey[int]],
    }[key]
    foreign = S.choose("foreign", [True, False]) if unique or base is nparent else True
    swap = S.choose("swap", [False, True])
    fields = [("nid", key_type), ("nvalue", t)]
    if swap:
        fields.reverse()
    catalog, table = convert(dialect, fields, skip_annotations=(str,), foreign_constraints=foreign)
    S.check([c.name.local_id for c in table.columns.values()] == [n for n, _ in fields], "there is a column for each field")
    S.check(tuple(n.local_id for n in table.primary_key) == ("nid",), "the key is the field with the marker")
    nid, nvalue = table.columns["nid"], table.columns["nvalue"]
    S.check(nid.identity == ("identity" in key) and not nvalue.identity, "an identity column has the marker")
    S.check(not nid.nullable, "the key does not accept NULL")
    S.check(nvalue.nullable == nullable, "the column accepts NULL exactly if the field is optional")
    S.check(nid.default is None and nvalue.default is None, "there is no default value")
    linked = foreign and dialect not in UNREFERENCED
    refs = [c for c in table.constraints.values() if isinstance(c, ForeignConstraint)]
    if base is nparent:
        S.check(column_capacity(S, dialect, table, "nvalue").kind == "int", "the column has the type of the key")
        S.check(len(refs) == (1 if linked else 0), "the column is a foreign key")
        for r in refs:
            S.check(
                r.reference.table.local_id == tid(dialect, "nschema", "nparent").local_id and r.foreign_columns == (nvalue.name,) and [c.local_id for c in r.reference.columns] == ["nkey"],
                "the column is a foreign key",
            )
        S.check(find(dialect, catalog, "nparent") is not None, "the table exists")
    elif base is nlabel:
        S.check(len(refs) == (1 if dialect in ("mssql", "oracle", "redshift") else 0), "the column refers to a lookup table")
    else:
        S.check(not refs, "the column is no foreign key")
    S.known("unique-unreferenced", not linked)
    expected = sorted((["nid"] if key == "unique" else []) + (["nvalue"] if unique else []))
    S.check(unique_columns(table) == expected, "a column is unique exactly if the field has the marker")


class nopen(enum.Enum):
    A = "a"


class nnumber(enum.Enum):
    ONE = 1
    MINUS = -2


def value_of(tokens):
    "The value that a literal denotes, as its kind and value."

    if len(tokens) == 1 and tokens[0][0] == "str":
        return "text", tokens[0][1]
    if len(tokens) == 1 and tokens[0] in (("word", "TRUE"), ("word", "FALSE")):
        return "bool", tokens[0][1] == "TRUE"
    if tokens and tokens[-1][0] == "num" and tokens[:-1] in ((), (("op", "-"),)):
        return "number", ("-" if len(tokens) > 1 else "", tokens[-1][1])
    if tokens and all(k in ("num", "word", "op") for k, _ in tokens):
        # a number with an exponent
        try:
            return "number", ("", str(decimal.Decimal("".join(v for _, v in tokens))))
        except decimal.InvalidOperation:
            pass
    return None, None


def number_of(found):
    sign, digits = found
    return decimal.Decimal(sign + digits)


TZ = datetime.timezone(datetime.timedelta(hours=5, minutes=30))
DATETIMES = [
    (datetime.datetime(1989, 10, 24, 23, 59, 59), "1989-10-24 23:59:59"),
    (datetime.datetime(1989, 10, 24, 23, 59, 59, 120), "1989-10-24 23:59:59.000120"),
    (datetime.datetime(2024, 1, 1, 2, 0, 0, tzinfo=datetime.timezone.utc), "2024-01-01 02:00:00"),
    (datetime.datetime(2024, 1, 1, 2, 0, 0, tzinfo=TZ), "2023-12-31 20:30:00"),
    (datetime.datetime(2024, 1, 1), "2024-01-01 00:00:00"),
]
TIMES = [
    (datetime.time(23, 59, 1), "23:59:01"),
    (datetime.time(0, 0, 0), "00:00:00"),
    (datetime.time(1, 2, 3, 4005), "01:02:03.004005"),
]
NUMBERS = ["0", "1.10", "-0.05", "123456789.987654321", "1E+3", "-2E-7"]
FLOATS = [0.0, 0.1, -2.25, 1e20, -1e-7, 3.0]


@harness("C14", params=MODE_GRID)
def defaults(S, dialect, mode):
    "The default value of a field is the default value of the column that the database has."

    kind = S.choose("kind", ["text", "any text", "int", "narrow", "bool", "float", "decimal", "datetime", "date", "time", "enum", "number enum", "extensible"])
    if kind in ("text", "any text"):
        t = Annotated[str, MaxLength(100)] if kind == "text" else str
        default = expected = S.str("default", 0, 2, NO_BACKSLASH)
        S.known("mysql-text-default", dialect == "mysql" and kind == "any text")
    elif kind in ("int", "narrow"):
        t = int if kind == "int" else int16
        default = expected = S.int("default", -9999, 9999)
    elif kind == "bool":
        t = bool
        default = expected = S.choose("default", [False, True])
    elif kind == "float":
        t = float
        default = expected = S.choose("default", FLOATS)
    elif kind == "decimal":
        t = Annotated[decimal.Decimal, Precision(30, 10)]
        default = expected = S.choose("default", [decimal.Decimal(n) for n in NUMBERS])
    elif kind == "datetime":
        t = datetime.datetime
        default, expected = S.choose("default", DATETIMES)
    elif kind == "date":
        t = datetime.date
        default = S.choose("default", [datetime.date(2024, 2, 29), datetime.date(1, 1, 1)])
        expected = default.isoformat()
    elif kind == "time":
        S.assume(dialect != "delta")
        t = datetime.time
        default, expected = S.choose("default", TIMES)
    elif kind == "enum":
        t = nlabel
        default = S.choose("default", list(nlabel))
        expected = default.value
    elif kind == "number enum":
        t = nnumber
        default = S.choose("default", list(nnumber))
        expected = str(default.value) if mode in ("TYPE", "INLINE") else default.value
    else:
        t = Union[nopen, str]
        default = S.choose("default", ["a", nopen.A])
    if S.choose("optional", [False, True]):
        t = Optional[t]
    fields = [("nid", PrimaryKey[int]), ("nvalue", t, dataclass_field(default=default))]
    try:
        catalog, table = convert(dialect, fields, enum_mode=EnumMode[mode])
    except NotImplementedError:
        S.check(kind == "extensible" or ("enum" in kind and mode == "RELATION"), "the default value is supported")
        return
    S.check(kind != "extensible" and ("enum" not in kind or mode != "RELATION"), "a label is no default value for a key")
    if dialect == "delta":
        # default values are not part of the statements
        text = table.columns["nvalue"].default
        if text is None:
            S.fail("the column has a default value")
            return
        tokens = expression_of(text, dialect)
    else:
        db = Database(dialect)
        gen = generator(dialect, namespaces={MODULE: "nschema"})
        if not execute(S, db, gen.get_mutate_stmt(catalog)):
            return
        tokens = [t for id, t in db.tables.items() if id[1].endswith("ntable")][0].columns["nvalue"].default
        if tokens is None:
            S.fail("the column has a default value")
            return
    what, value = value_of(tuple(tokens))
    if kind in ("int", "narrow"):
        S.check(what == "number" and S.eq((-1 if value[0] else 1) * int(value[1]), expected), "the default value of the column is that of the field")
    elif kind == "float":
        S.check(what == "number" and float(number_of(value)) == expected, "the default value of the column is that of the field")
    elif kind == "decimal" or isinstance(expected, int) and kind == "number enum":
        S.check(what == "number" and number_of(value) == expected, "the default value of the column is that of the field")
    elif kind == "bool":
        S.check(what == "bool" and value == expected, "the default value of the column is that of the field")
    else:
        S.check(what == "text" and S.eq(value, expected), "the default value of the column is that of the field")


# kinds of literals for kinds of columns
LITERALS = {"bool": "bool", "int": "number", "float": "number", "decimal": "number", "any decimal": "number", "text": "text", "timestamp": "text", "date": "text", "time": "text", "enum": "text", "user": "text"}


SIMPLE = (bool, int, float, datetime.datetime, datetime.date, datetime.time)


@harness("C14", params=MODE_GRID)
def inferred(S, dialect, mode):
    "A default value that is inferred is a value of the column."

    t = S.choose(
        "type",
        [
            bool,
            int,
            int8,
            uint32,
            float,
            float32,
            Annotated[str, MaxLength(10)],
            Annotated[decimal.Decimal, Precision(10, 2)],
            datetime.datetime,
            datetime.date,
            datetime.time,
            uuid.UUID,
            nlabel,
            nnumber,
            Union[nopen, str],
            nparent,
            Optional[int],
            Unique[int],
            Literal["x", "y"],
        ],
    )
    S.assume(t is not datetime.time or dialect != "delta")
    catalog, table = convert(dialect, [("nid", PrimaryKey[int]), ("nvalue", t)], enum_mode=EnumMode[mode], auto_default=True)
    for tab in [t for ns in catalog.namespaces.values() for t in ns.tables.values()]:
        for c in tab.columns.values():
            if c.nullable or c.identity or c.name in tab.primary_key:
                S.check(c.default is None, "a column that needs no default value has none")
            elif tab is table and (t in SIMPLE or t in (nlabel, nnumber) and mode != "RELATION"):
                S.known("mysql-auto-default", dialect == "mysql")
                S.check(c.default is not None, "a column that needs a default value has one")
            if c.default is None:
                continue
            found = column_capacity(S, dialect, tab, c.name.local_id)
            what, value = value_of(tuple(expression_of(c.default, dialect)))
            S.check(LITERALS.get(found.kind) == what, "the default value is a value of the column")
    db = Database(dialect)
    execute(S, db, generator(dialect, namespaces={MODULE: "nschema"}).get_mutate_stmt(catalog))


def paragraphs(S, layout):
    "The documentation of a class and what it says about the class and its field."

    def word(name):
        return S.str(name, 1, 2, LOWER)

    lines, whole, about = [], None, None
    if layout in ("short", "all", "long"):
        short = "Short " + word("short")
        lines.append(short)
        whole = short + " text."
        if layout == "long":
            # the first paragraph has several lines
            lines.append("text.")
        else:
            lines[-1] = whole
    if layout in ("all", "long"):
        long = ["Long " + word("long"), "", "  indented " + word("last")]
        lines += ["", *long]
        whole = whole + "\n\n" + "\n".join(long)
    if layout in ("all", "field"):
        if lines:
            lines.append("")
        about = "About " + word("about") + " field"
        # white space is not significant
        lines += [":param nvalue: " + about[:-6], "    field", ":param nother: Another"]
    return "\n    ".join(lines) if lines else None, whole, about


@harness("C14", params=grid(dialect=DIALECTS, kind=["table", "struct"]))
def descriptions(S, dialect, kind):
    "What a class says about itself and its fields is what the table or composite type says."

    layout = S.choose("layout", ["none", "short", "field", "long", "all"])
    doc, whole, about = paragraphs(S, layout)
    other = "Another" if about is not None else None
    fields = [("nvalue", str), ("nother", int)]
    if kind == "table":
        fields.insert(1, ("nid", PrimaryKey[int]))
    cls = make_dataclass("ndescribed", fields, namespace={"__doc__": doc if doc is not None else "-"})
    cls.__module__ = __name__
    cls.__doc__ = doc
    if kind == "table":
        gen = generator(dialect, namespaces={MODULE: "nschema"})
        catalog = gen.converter.dataclasses_to_catalog([cls])
        found = find(dialect, catalog, "ndescribed")
        members = found.columns
        S.check(members["nid"].description is None, "a field without a description has none")
    else:
        found = generator(dialect, namespaces={MODULE: "nschema"}).converter.dataclass_to_struct(cls)
        members = found.members

    def same(a, b):
        return a is None and b is None or a is not None and b is not None and S.eq(a, b)

    S.check(same(found.description or None, whole), "the description is the one of the class")
    S.check(same(members["nvalue"].description or None, about), "the description is the one of the field")
    S.check(same(members["nother"].description or None, other), "the description is the one of the field")
