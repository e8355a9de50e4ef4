"Objects and values in rows reach the driver in the representation of their column."

import dataclasses
import datetime
import decimal
import enum
import functools
import ipaddress
import json
import sys
import uuid
from typing import Annotated, Literal, Optional, Union

from strong_typing.auxiliary import MaxLength, Precision, float32, int8, int16, int32, uint8

from pysqlsync.formation.py_to_sql import EnumMode
from pysqlsync.model.key_types import PrimaryKey, Unique

from symex.api import TEXT, grid, harness

from .loading import context, run
from .sql import tokenize

DIALECTS = ["postgresql", "mysql", "mssql", "oracle", "redshift"]
# dialects whose column types for identifiers and addresses are binary strings
BINARY = ("mysql", "mssql", "oracle", "redshift")
ENUM_MODES = {"postgresql": None, "mysql": None, "mssql": EnumMode.CHECK, "oracle": EnumMode.CHECK, "redshift": EnumMode.CHECK}
# dialects that have enumeration types with text labels
LABELS = ("postgresql", "mysql")

MICROSECOND = datetime.timedelta(microseconds=1)


class NText(enum.Enum):
    FIRST = "a"
    SECOND = "b c"
    THIRD = "FIRST"


class NNumber(enum.Enum):
    FIRST = 10
    SECOND = 20
    THIRD = 0


@dataclasses.dataclass
class NDocument:
    number: int
    text: Optional[str]
    items: list[str]


try:
    from symex import rewrite, symbytes
except ImportError:
    # when a counterexample is replayed
    rewrite = symbytes = None


BYTES = (bytes,) if symbytes is None else (bytes, symbytes.SymBytes)


class NTag:
    "An annotation that has no effect."


# Models of values that have symbolic parts; isinstance holds for the classes that they represent.


class SymUUID(uuid.UUID):
    def __init__(self, text):
        object.__setattr__(self, "text", text)

    @property
    def bytes(self):
        return symbytes.make(self.text)

    @property
    def bytes_le(self):
        b = symbytes.make(self.text)
        return b[3:4] + b[2:3] + b[1:2] + b[0:1] + b[5:6] + b[4:5] + b[7:8] + b[6:7] + b[8:]

    def _unsupported(self, *args):
        raise NotImplementedError("unsupported operation on a symbolic value")

    hex = property(_unsupported)
    urn = property(_unsupported)
    fields = property(_unsupported)
    __str__ = _unsupported
    __int__ = _unsupported
    __eq__ = _unsupported
    __hash__ = _unsupported


class SymIPv4(ipaddress.IPv4Address):
    __slots__ = ("text",)

    def __init__(self, text):
        self.text = text

    @property
    def packed(self):
        return symbytes.make(self.text)


class SymIPv6(ipaddress.IPv6Address):
    __slots__ = ("text",)

    def __init__(self, text):
        self.text = text

    @property
    def packed(self):
        return symbytes.make(self.text)


class SymTime(datetime.time):
    "A time of day."

    def __new__(cls, *args):
        return datetime.time.__new__(cls)

    def __init__(self, hour, minute, second, microsecond, tzinfo):
        self._parts = (hour, minute, second, microsecond)
        self._tz = tzinfo

    hour = property(lambda self: self._parts[0])
    minute = property(lambda self: self._parts[1])
    second = property(lambda self: self._parts[2])
    microsecond = property(lambda self: self._parts[3])
    tzinfo = property(lambda self: self._tz)

    def utcoffset(self):
        return self._tz.utcoffset(None) if self._tz is not None else None

    def replace(self, hour=None, minute=None, second=None, microsecond=None, tzinfo=True, *, fold=None):
        parts = [p if n is None else n for p, n in zip(self._parts, (hour, minute, second, microsecond))]
        return SymTime(*parts, self._tz if tzinfo is True else tzinfo)

    def elapsed(self):
        h, m, s, us = self._parts
        return ((h * 60 + m) * 60 + s) * 1000000 + us


class SymDateTime:
    "A point in time, in microseconds since the first day that can be represented."

    def __init__(self, us, tzinfo):
        self.us = us
        self.tzinfo = tzinfo

    def replace(self, *, tzinfo):
        return SymDateTime(self.us, tzinfo)

    def __sub__(self, other):
        if isinstance(other, datetime.timedelta):
            return SymDateTime(self.us - other // MICROSECOND, self.tzinfo)
        if isinstance(other, datetime.datetime):
            if (other.tzinfo is None) != (self.tzinfo is None):
                raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            origin = (other.replace(tzinfo=None) - datetime.datetime.min) // MICROSECOND
            if other.tzinfo is not None:
                origin -= other.utcoffset() // MICROSECOND - self.tzinfo.utcoffset(None) // MICROSECOND
            return SymDelta(self.us - origin)
        return NotImplemented


class SymDelta(datetime.timedelta):
    def __new__(cls, us):
        return datetime.timedelta.__new__(cls)

    def __init__(self, us):
        self.us = us

    def __add__(self, other):
        return SymDelta(self.us + elapsed(other))

    __radd__ = __add__

    def __sub__(self, other):
        return SymDelta(self.us - elapsed(other))


class Native:
    "Functions that are not replaced with their model."

    delta = functools.partial(datetime.timedelta)
    combine = functools.partial(datetime.datetime.combine)


def combine(date, time, tzinfo=True):
    if isinstance(time, SymTime):
        us = (Native.combine(date, datetime.time()) - datetime.datetime.min) // MICROSECOND
        return SymDateTime(us + time.elapsed(), time.tzinfo if tzinfo is True else tzinfo)
    if tzinfo is True:
        return Native.combine(date, time)
    return Native.combine(date, time, tzinfo)


def timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    parts = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
    if all(type(p) in (int, float) for p in parts):
        return Native.delta(*parts)
    units = (86400000000, 1000000, 1, 1000, 60000000, 3600000000, 604800000000)
    us = 0
    for p, u in zip(parts, units):
        us = us + p * u
    return SymDelta(us)


if rewrite is not None:
    rewrite._FN[datetime.datetime.combine] = combine
    rewrite._FN[datetime.timedelta] = timedelta


def elapsed(value):
    if isinstance(value, SymDelta):
        return value.us
    return value // MICROSECOND


def binary(S, name, size):
    text = S.str(name, size, size, ((0, 255),))
    return text if S.symbolic else text.encode("latin-1")


def octets(S, value):
    "Makes a binary string from what `binary` returns."
    return symbytes.make(value) if S.symbolic else value


class Value:
    def __init__(self, value, check):
        self.value = value
        self.check = check  # whether what the driver receives is the representation of the value


def same(S, expected, *types):
    def check(found):
        return S.all([isinstance(found, types), S.eq(found, expected)]) if isinstance(found, types) else False

    return check


def identical(expected):
    return lambda found: found is expected


# Kinds of fields. Each is a Python type, and a function to make a value.


def k_int(S, dialect, name):
    v = S.int(name, -(2**31), 2**31 - 1)
    return Value(v, lambda found: S.eq(found, v) if isinstance(found, int) and not isinstance(found, bool) else False)


def k_sized(lo, hi):
    def make(S, dialect, name):
        v = S.int(name, lo, hi)
        return Value(v, lambda found: S.eq(found, v) if isinstance(found, int) and not isinstance(found, bool) else False)

    return make


def k_str(S, dialect, name):
    v = S.str(name, 0, 2, TEXT)
    return Value(v, lambda found: S.eq(found, v) if isinstance(found, str) else False)


def k_bool(S, dialect, name):
    v = S.choose(name, [False, True])
    return Value(v, lambda found: found in (0, 1) and bool(found) == v)


def k_as_is(*values):
    def make(S, dialect, name):
        v = S.choose(name, list(values))
        return Value(v, lambda found: type(found) is type(v) and found == v)

    return make


UTC = datetime.timezone.utc


def k_time(S, dialect, name):
    zone = S.choose(f"{name}~", [None, UTC])
    parts = [S.int(f"{name}h", 0, 23), S.int(f"{name}m", 0, 59), S.int(f"{name}s", 0, 59), S.int(f"{name}u", 0, 999999)]
    us = ((parts[0] * 60 + parts[1]) * 60 + parts[2]) * 1000000 + parts[3]
    v = SymTime(*parts, zone) if S.symbolic else datetime.time(*parts, tzinfo=zone)

    def check(found):
        if dialect == "oracle":
            return S.eq(elapsed(found), us) if isinstance(found, datetime.timedelta) else False
        if not isinstance(found, datetime.time) or found.tzinfo is not None and found.utcoffset():
            return False
        return S.all([S.eq(p, q) for p, q in zip((found.hour, found.minute, found.second, found.microsecond), parts)])

    return Value(v, check)


def k_uuid(S, dialect, name):
    b = binary(S, name, 16)
    v = SymUUID(b) if S.symbolic else uuid.UUID(bytes=b)
    if dialect in BINARY:
        return Value(v, lambda found: S.eq(found, octets(S, b)) if not isinstance(found, (str, int)) else False)
    return Value(v, lambda found: found is v)


def address(S, dialect, name, size):
    b = binary(S, name, size)
    if S.symbolic:
        v = SymIPv4(b) if size == 4 else SymIPv6(b)
    else:
        v = ipaddress.ip_address(b)
    if dialect in BINARY:
        return Value(v, lambda found: S.eq(found, octets(S, b)) if not isinstance(found, (str, int)) else False)
    return Value(v, lambda found: found is v)


def k_ip4(S, dialect, name):
    return address(S, dialect, name, 4)


def k_ip6(S, dialect, name):
    return address(S, dialect, name, 16)


def k_ip(S, dialect, name):
    return address(S, dialect, name, S.choose(f"{name}#", [4, 16]))


def label(dialect, member, mode):
    "Enumeration types in SQL have labels that are text, columns with a check constraint have the type of the value."
    return str(member.value) if mode is None and dialect in LABELS else member.value


def k_enum(cls):
    def make(S, dialect, name):
        member = S.choose(name, list(cls))
        expected = label(dialect, member, S.enum_mode)
        return Value(member, lambda found: type(found) is type(expected) and found == expected)

    return make


def k_json(values, document):
    "Values written as a document, unless the dialect has array types."

    def make(S, dialect, name):
        v = S.choose(name, values)
        d = document(v)

        def check(found):
            if dialect == "postgresql":
                if isinstance(d, dict) or isinstance(found, str):
                    return False
                found = list(found)
                return sorted(found) == sorted(d) if isinstance(v, set) else found == d
            if not isinstance(found, str):
                return False
            found = json.loads(str(found))
            return sorted(found) == sorted(d) if isinstance(v, set) else found == d

        return Value(v, check)

    return make


def labels(items):
    return [i.value for i in items]


def as_dict(d):
    found = {"number": d.number, "items": d.items}
    if d.text is not None:
        found["text"] = d.text
    return found


KINDS = {
    "int": (int, k_sized(-(2**63), 2**63 - 1)),
    "int8": (int8, k_sized(-(2**7), 2**7 - 1)),
    "uint8": (uint8, k_sized(0, 2**8 - 1)),
    "int16": (int16, k_sized(-(2**15), 2**15 - 1)),
    "int32": (int32, k_int),
    "str": (str, k_str),
    "text": (Annotated[str, MaxLength(20)], k_str),
    "bool": (bool, k_bool),
    "float": (float, k_as_is(0.0, 0.5, -3.25)),
    "float32": (float32, k_as_is(0.5)),
    "decimal": (decimal.Decimal, k_as_is(decimal.Decimal("1.25"), decimal.Decimal(0))),
    "numeric": (Annotated[decimal.Decimal, Precision(9, 2)], k_as_is(decimal.Decimal("-12.25"))),
    "datetime": (datetime.datetime, k_as_is(datetime.datetime(2024, 2, 29, 23, 59, 58, 123456))),
    "date": (datetime.date, k_as_is(datetime.date(2024, 2, 29))),
    "time": (datetime.time, k_time),
    "uuid": (uuid.UUID, k_uuid),
    "ip4": (ipaddress.IPv4Address, k_ip4),
    "ip6": (ipaddress.IPv6Address, k_ip6),
    "ip": (Union[ipaddress.IPv4Address, ipaddress.IPv6Address], k_ip),
    "enum": (NText, k_enum(NText)),
    "number": (NNumber, k_enum(NNumber)),
    "literal": (Literal["p", "q"], k_as_is("p", "q")),
    "list": (list[int], k_json([[], [3, 1, 2]], list)),
    "texts": (list[str], k_json([["x", 'b"'], ["\u00e9\n"]], list)),
    "members": (list[NText], k_json([[], [NText.SECOND, NText.FIRST]], labels)),
    "set": (set[int], k_json([{5, 3}, set()], list)),
    "choices": (set[NText], k_json([{NText.SECOND, NText.THIRD}], labels)),
    "bytes": (bytes, k_as_is(b"", b"\x00\xff")),
    "document": (NDocument, k_json([NDocument(1, None, []), NDocument(2, "x", ["\u00e9"])], as_dict)),
}
# kinds for values of which there are few
DISCRETE = ("bool", "list", "texts", "members", "set", "choices", "document", "float", "float32", "decimal", "numeric", "bytes")


def supported(dialect, kind):
    if kind == "bytes":
        return dialect == "oracle"
    if kind == "document":
        # composite types of PostgreSQL are left to the driver
        return dialect != "postgresql"
    return True


def wraps(kind):
    # (name, function, whether NULL is accepted)
    t = KINDS[kind][0]
    found = [
        ("plain", t, False),
        ("optional", Optional[t], True),
    ]
    if kind not in ("document", "enum", "number", "members", "choices", "set", "list", "texts"):
        found.append(("unique", Unique[t], False))
        found.append(("key", PrimaryKey[t], False))
    if kind not in ("enum", "number", "literal", "document"):
        found.append(("annotated", Annotated[t, NTag()], False))
        found.append(("optional annotated", Optional[Annotated[t, NTag()]], True))
        found.append(("annotated optional", Annotated[Optional[t], NTag()], True))
    return found


def announced(dialect, t):
    "Python types that may be passed for a type announced to the driver."

    if dialect == "mssql":
        import pyodbc as d

        number = t[0]
        table = [
            ((d.SQL_BIT,), (bool, int)),
            ((d.SQL_TINYINT, d.SQL_SMALLINT, d.SQL_INTEGER, d.SQL_BIGINT), (int,)),
            ((d.SQL_REAL, d.SQL_DOUBLE, d.SQL_FLOAT), (float,)),
            ((d.SQL_DECIMAL, d.SQL_NUMERIC), (decimal.Decimal,)),
            ((d.SQL_TYPE_TIMESTAMP,), (datetime.datetime,)),
            ((d.SQL_TYPE_DATE,), (datetime.date,)),
            ((d.SQL_TYPE_TIME, d.SQL_SS_TIME2), (datetime.time,)),
            ((d.SQL_CHAR, d.SQL_VARCHAR, d.SQL_LONGVARCHAR, d.SQL_WCHAR, d.SQL_WVARCHAR, d.SQL_WLONGVARCHAR), (str,)),
            ((d.SQL_BINARY, d.SQL_VARBINARY, d.SQL_LONGVARBINARY), BYTES),
        ]
        return next((types for numbers, types in table if number in numbers), None)
    else:
        import oracledb as d

        table = [
            ((d.DB_TYPE_BOOLEAN,), (bool,)),
            ((d.DB_TYPE_BINARY_INTEGER,), (int,)),
            ((d.DB_TYPE_NUMBER,), (int, float, decimal.Decimal)),
            ((d.DB_TYPE_BINARY_FLOAT, d.DB_TYPE_BINARY_DOUBLE), (float,)),
            ((d.DB_TYPE_RAW, d.DB_TYPE_LONG_RAW, d.DB_TYPE_BLOB), BYTES),
            ((d.DB_TYPE_CHAR, d.DB_TYPE_VARCHAR, d.DB_TYPE_LONG, d.DB_TYPE_CLOB, d.DB_TYPE_NVARCHAR, d.DB_TYPE_NCHAR, d.DB_TYPE_NCLOB), (str,)),
            ((d.DB_TYPE_DATE,), (datetime.date,)),
            ((d.DB_TYPE_INTERVAL_DS,), (datetime.timedelta,)),
            ((d.DB_TYPE_TIMESTAMP, d.DB_TYPE_TIMESTAMP_TZ), (datetime.datetime,)),
        ]
        return next((types for numbers, types in table if t.type in numbers), None)


def size_of(dialect, t):
    return t[1] if dialect == "mssql" else t.size


def range_of(dialect, t):
    "The range of an integer type announced to the driver."

    if dialect == "oracle":
        import oracledb as d

        return (-(1 << 31), (1 << 31) - 1) if t.type is d.DB_TYPE_BINARY_INTEGER else None
    import pyodbc as d

    return {
        d.SQL_TINYINT: (0, (1 << 8) - 1),
        d.SQL_SMALLINT: (-(1 << 15), (1 << 15) - 1),
        d.SQL_INTEGER: (-(1 << 31), (1 << 31) - 1),
        d.SQL_BIGINT: (-(1 << 63), (1 << 63) - 1),
    }.get(t[0])


def check_announced(S, dialect, kind, load):
    if dialect not in ("mssql", "oracle"):
        return
    if load.types is None:
        return
    for record in load.records:
        S.check(len(load.types) == len(record), "the type of each value is announced to the driver")
        for t, v in zip(load.types, record):
            if v is None or t is None:
                continue
            types = announced(dialect, t)
            S.check(types is not None and isinstance(v, types), "the type announced to the driver is that of the value")
            if types is not None and str in types or bytes in types:
                size = size_of(dialect, t)
                S.check(size == 0 or size >= len(v), "the size announced to the driver is large enough for the value")
            limits = range_of(dialect, t)
            if limits is not None and not isinstance(v, bool):
                S.check(S.all([limits[0] <= v, v <= limits[1]]), "the type announced to the driver has the value")
    if dialect == "mssql":
        import pyodbc as d

        for t in load.types:
            S.check(len(t) == 3 and all(isinstance(i, int) for i in t), "a type is announced to the driver as three numbers")
            if t[0] in (d.SQL_DECIMAL, d.SQL_NUMERIC) and kind == "numeric":
                S.check(t[1] >= 9 and t[2] >= 2, "the precision announced to the driver is that of the column")
            if t[0] == d.SQL_TYPE_TIMESTAMP:
                S.check(t[1] >= 6, "the precision announced to the driver is that of the column")


def mark(S, kind, name):
    return None


def make_class(wrap, t):
    if wrap == "key":
        fields = [("nname", Optional[str]), ("nkey", t), ("nvalue", int)]
    else:
        fields = [("nkey", PrimaryKey[int]), ("nfield", t), ("nvalue", int), ("nlast", Optional[str])]
    return dataclasses.make_dataclass("NClass", fields, module=__name__)


def setup(S, dialect, cls, mode):
    options = {} if mode is None else {"enum_mode": mode}
    ctx, log = context(dialect, namespaces={sys.modules[__name__]: "nschema"}, skip_annotations=(NTag,), **options)
    ctx.connection.generator.create(tables=[cls])
    return ctx, log


def columns(dialect, statement, count):
    "The columns of a statement in the order of its parameters, if these are listed first."

    tokens = tokenize(statement, dialect)
    at = next(i for i, t in enumerate(tokens) if t.kind == "op" and t.value == "(")
    return [t.value for t in tokens[at:] if t.kind == "id"][:count]


def modes(dialect):
    return [ENUM_MODES[dialect]] if dialect != "mysql" else [None, EnumMode.CHECK]


@harness("C11", params=[dict(dialect=d, kind=k) for d in DIALECTS for k in KINDS if supported(d, k)])
def objects(S, dialect, kind):
    "A field of an object, and the same value in a row."

    S.enum_mode = S.choose("mode", modes(dialect)) if kind in ("enum", "number") else ENUM_MODES[dialect]
    wrap, t, nullable = S.choose("wrap", wraps(kind))
    null = nullable and S.bool("null")
    cls = make_class(wrap, t)
    try:
        ctx, log = setup(S, dialect, cls, S.enum_mode)
    except TypeError as ex:
        S.check("annotated" in wrap, "types of fields are supported")
        return
    table = ctx.get_table(cls)
    if null:
        field = Value(None, lambda found: found is None)
    else:
        field = KINDS[kind][1](S, dialect, "v")
    names = [f.name for f in dataclasses.fields(cls)]
    other = S.int("w", 0, 1000)
    values = {"nkey": 3, "nvalue": other, "nname": None, "nlast": None}
    values["nkey" if wrap == "key" else "nfield"] = field.value
    item = cls(*[values[n] for n in names])

    def check(record, source):
        S.check(len(record) == len(names), f"there is a value for each column ({source})")
        if len(record) != len(names):
            return
        for n, found in zip(names, record):
            if n == ("nkey" if wrap == "key" else "nfield"):
                S.check(field.check(found), f"the value is represented as the driver expects ({source})")
            elif values[n] is None:
                S.check(found is None, f"NULL stays NULL ({source})")
            else:
                S.check(S.eq(found, values[n]), f"other values are passed as they are ({source})")

    check(tuple(ctx.connection.generator.get_dataclass_as_record(cls, item)), "record")
    records = list(ctx.connection.generator.get_dataclasses_as_records(cls, [item, item]))
    S.check(len(records) == 2, "there is a record for each object")
    for r in records:
        check(tuple(r), "records")

    def loaded(source):
        S.check(len(log) == 1 and not isinstance(log[0], str) and len(log[0].records) == 1, f"a record is passed to the driver ({source})")
        load = log.pop()
        order = load.columns
        if order is None:
            order = columns(dialect, load.statement, len(names))
            if dialect in ("oracle", "mssql") and "MERGE" in load.statement.upper():
                order = names
        S.check(sorted(order) == sorted(names), f"columns are those of the table ({source})")
        by_name = dict(zip(order, load.records[0]))
        check(tuple(by_name.get(n) for n in names), source)
        check_announced(S, dialect, kind, load)

    # statements of Redshift that insert data have text
    operations = ["upsert"] if dialect == "redshift" else ["insert", "upsert"]
    if wrap == "unique" and dialect in ("mssql", "oracle"):
        operations = ["insert"]
    operation = S.choose("operation", operations)
    if operation == "insert":
        run(ctx.insert_data(cls, [item]))
        loaded("insert_data")
        run(ctx.insert_rows(table, [tuple(values[n] for n in names)], field_types=types_of(S, cls, names), field_names=tuple(names)))
        loaded("insert_rows")
    else:
        run(ctx.upsert_data(cls, [item]))
        loaded("upsert_data")
        run(ctx.upsert_rows(table, [tuple(values[n] for n in names)], field_types=types_of(S, cls, names), field_names=tuple(names)))
        loaded("upsert_rows")


def types_of(S, cls, names):
    by_name = {f.name: f.type for f in dataclasses.fields(cls)}
    return tuple(by_name[n] for n in names)


@harness("C11", params=grid(dialect=DIALECTS, kind=["int", "str", "uuid", "ip4", "time", "date"]))
def keys(S, dialect, kind):
    "Keys of rows to delete."

    S.enum_mode = ENUM_MODES[dialect]
    cls = make_class("key", PrimaryKey[KINDS[kind][0]])
    ctx, log = setup(S, dialect, cls, None)
    table = ctx.get_table(cls)
    key = KINDS[kind][1](S, dialect, "v")
    if S.choose("source", ["data", "rows"]) == "data":
        run(ctx.delete_data(cls, [key.value]))
    else:
        run(ctx.delete_rows(table, KINDS[kind][0], [key.value]))
    S.check(len(log) == 1 and not isinstance(log[0], str) and len(log[0].records) == 1, "a key is passed to the driver")
    (record,) = log[0].records
    S.check(len(record) == 1 and key.check(record[0]), "the key is represented as the driver expects")
    check_announced(S, dialect, kind, log[0])


def parsed(S, kind, text):
    "How Redshift reads a value in a stream of data."

    if kind in ("int", "int16", "int32"):
        return int(text)
    if kind == "bool":
        return {"t": True, "true": True, "1": True, "f": False, "false": False, "0": False}[text.strip().lower()]
    if kind in ("float", "float32"):
        return float(text)
    if kind in ("decimal", "numeric"):
        return decimal.Decimal(text)
    if kind == "datetime":
        return datetime.datetime.fromisoformat(text)
    if kind == "date":
        return datetime.date.fromisoformat(text)
    if kind == "time":
        return datetime.time.fromisoformat(text)
    if kind in ("uuid", "ip4", "ip6"):
        return bytes.fromhex(text)
    if kind in ("list", "texts", "members"):
        return json.loads(text)
    return text


SAMPLES = {
    "int": [0, -17],
    "int16": [-5],
    "int32": [70000],
    "bool": [False, True],
    "float": [0.0, -3.25, 1e300],
    "float32": [0.5],
    "decimal": [decimal.Decimal("1.25")],
    "numeric": [decimal.Decimal("-12.25")],
    "datetime": [datetime.datetime(2024, 2, 29, 23, 59, 58, 123456), datetime.datetime(1, 1, 1)],
    "date": [datetime.date(2024, 2, 29)],
    "time": [datetime.time(1, 2, 3, 4), datetime.time(0)],
    "uuid": [uuid.UUID(int=2**96 + 0x5C7C0A0D)],
    "ip4": [ipaddress.IPv4Address("10.13.92.124")],
    "ip6": [ipaddress.IPv6Address("::1")],
    "enum": [NText.FIRST, NText.SECOND],
    "members": [[NText.SECOND], []],
    "texts": [["x|y", '"', "\\", "\n"]],
    "list": [[1, 2]],
}


@harness("C11", params=grid(kind=list(SAMPLES)))
def stream(S, kind):
    "Values in the stream of data that Redshift loads."

    S.enum_mode = EnumMode.CHECK
    t = KINDS[kind][0]
    nullable = S.bool("optional")
    cls = make_class("plain", Optional[t] if nullable else t)
    ctx, log = setup(S, "redshift", cls, S.enum_mode)
    table = ctx.get_table(cls)
    value = S.choose("v", SAMPLES[kind])
    if nullable and S.bool("null"):
        value = None
    other = S.choose("w", [0, 5])
    if S.bool("rows"):
        names = ["nkey", "nfield", "nvalue", "nlast"]
        run(ctx.insert_rows(table, [(3, value, other, "z")], field_types=types_of(S, cls, names), field_names=tuple(names)))
    else:
        run(ctx.insert_data(cls, [cls(3, value, other, "z")]))
    S.check(len(log) == 1 and len(log[0].records) == 1, "a record is passed to the driver")
    found = dict(zip(log[0].columns, log[0].records[0]))
    S.check(found["nkey"] == "3" and found["nvalue"] == str(other) and found["nlast"] == "z", "other values are passed as they are")
    text = found["nfield"]
    if value is None:
        S.check(text is None, "NULL stays NULL")
        return
    if kind in ("uuid", "ip4", "ip6"):
        expected = value.bytes if kind == "uuid" else value.packed
    elif kind == "members":
        expected = labels(value)
    else:
        expected = value.value if isinstance(value, enum.Enum) else value
    try:
        result = parsed(S, kind, text)
    except (KeyError, TypeError, ValueError, AttributeError, decimal.InvalidOperation):
        result = None
    S.check(result == expected, "the text of a value is what the database reads as that value")
