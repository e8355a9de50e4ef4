"Delimited text files are read without loss of records, with aligned columns."

import asyncio
import dataclasses
import datetime
import decimal
import enum
import ipaddress
import itertools
import uuid
from dataclasses import dataclass
from typing import Annotated, Literal, Optional, Union

from strong_typing.auxiliary import MaxLength, int16

from pysqlsync.data.exchange import AsyncTextReader, TextReader, TextWriter, fields_to_types
from pysqlsync.model.key_types import DefaultTag, PrimaryKey, Unique

from symex.api import ASCII_TEXT, LOWER, grid, harness

# characters other than those that delimit records and fields, and the one that starts an escape sequence
CELL = ((1, 8), (11, 91), (93, 127))


class File:
    "A file opened in binary mode."

    def __init__(self, lines=()):
        self.lines = list(lines)
        self.pos = 0

    def readline(self, limit=-1):
        if self.pos >= len(self.lines):
            return b""
        self.pos += 1
        return self.lines[self.pos - 1]

    def readlines(self, hint=-1):
        rest, self.pos = self.lines[self.pos :], len(self.lines)
        return rest

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos >= len(self.lines):
            raise StopIteration
        return self.readline()


class AsyncFile:
    def __init__(self, file):
        self.file = file

    async def readline(self, limit=-1):
        return self.file.readline(limit)

    async def readlines(self, hint=-1):
        return self.file.readlines(hint)

    def __aiter__(self):
        return self

    async def __anext__(self):
        try:
            return next(self.file)
        except StopIteration:
            raise StopAsyncIteration


def read(method, file, names_to_types):
    if method.startswith("async"):

        async def run():
            reader = AsyncTextReader(AsyncFile(file), names_to_types)
            await reader.read_header()
            if method == "async records":
                return reader, [r async for r in reader.records()]
            return reader, await reader.read_records()

        return asyncio.run(run())
    reader = TextReader(file, names_to_types)
    if method == "records":
        return reader, [r for r in reader.records()]
    return reader, reader.read_records()


METHODS = ["read", "records", "async read", "async records"]
TYPES = {"nkey": int, "ntext": str, "nmore": str}


def cell(S, name, typ, size):
    if typ is int:
        return S.int(name, -9, 99)
    return S.str(name, 0, size, CELL)


def same_rows(S, found, expected):
    S.check(len(found) == len(expected), "there is one record for each line of data")
    for f, e in zip(found, expected):
        S.check(len(f) == len(e), "each record has a value for each column")
        S.check(S.all([S.eq(a, b) for a, b in zip(f, e)]), "each value is at the position of its column")


@harness(
    "C20",
    params=grid(method=METHODS, columns=[1, 2, 3], rows=[0, 1, 2], size=[1]),
    thorough=grid(method=METHODS, columns=[1, 2, 3], rows=[0, 1, 2, 3], size=[2]),
)
def reading(S, method, columns, rows, size):
    "Columns in any order."

    names = list(S.choose("order", list(itertools.permutations(TYPES, columns))))
    if columns == 2 and names[1] == "ntext":
        # a symbolic name
        names[1] = S.str("column", 0, size, CELL)
        S.assume(not S.eq(names[1], names[0]))
    types = {n: TYPES.get(n, str) if n in TYPES else str for n in names}
    data = [tuple(cell(S, f"{i}.{k}", types[n], size) for k, n in enumerate(names)) for i in range(rows)]
    lines = ["\t".join(names)] + ["\t".join(f"{v}" for v in r) for r in data]
    if rows > 0 and columns > 1 and S.bool("no newline at end?"):
        lines = [f"{l}\n" for l in lines[:-1]] + lines[-1:]
    else:
        lines = [f"{l}\n" for l in lines]
    # the order in which columns are requested is not that in the file
    requested = dict(reversed(list(types.items())))
    reader, found = read(method, File([l.encode("utf-8") for l in lines]), requested)
    S.check(S.all([S.eq(a, b) for a, b in zip(reader.columns, names)]), "columns are those in the header, in order")
    S.check(len(reader.columns) == len(names), "all columns are listed")
    S.check(list(reader.field_types) == [types[n] for n in names], "types are those of the columns")
    same_rows(S, found, data)


@harness("C20", params=grid(method=METHODS, size=[1]), thorough=grid(method=METHODS, size=[3]))
def omitted(S, method, size):
    "A column that is not of interest is skipped."

    names = list(S.choose("order", list(itertools.permutations(TYPES))))
    skip = S.choose("skip", list(TYPES))
    types = {n: type(None) if n == skip else TYPES[n] for n in names}
    data = [tuple(cell(S, f"{i}.{k}", TYPES[n], size) for k, n in enumerate(names)) for i in range(2)]
    lines = ["\t".join(names)] + ["\t".join(f"{v}" for v in r) for r in data]
    reader, found = read(method, File([f"{l}\n".encode("utf-8") for l in lines]), types)
    S.check(list(reader.columns) == names, "columns are those in the header, in order")
    for f, e in zip(found, data):
        S.check(len(f) == len(e), "each record has a value for each column")
        for n, a, b in zip(names, f, e):
            if n == skip:
                S.check(a is None, "the value of a column that is skipped is absent")
            else:
                S.check(S.eq(a, b), "each value is at the position of its column")


@harness("C20", params=grid(method=METHODS))
def unknown(S, method):
    "A column for which there is no type is never mistaken for another."

    names = list(S.choose("order", list(itertools.permutations(TYPES))))
    missing = S.choose("missing", list(TYPES))
    types = {n: t for n, t in TYPES.items() if n != missing}
    data = tuple(cell(S, f"{k}", TYPES[n], 1) for k, n in enumerate(names))
    lines = ["\t".join(names) + "\n", "\t".join(f"{v}" for v in data) + "\n"]
    try:
        reader, found = read(method, File([l.encode("utf-8") for l in lines]), types)
    except KeyError:
        S.check(True, "the file is refused")
        return
    S.check(len(found) == 1, "there is one record for each line of data")
    S.check(len(reader.columns) == len(found[0]), "each record has a value for each column")
    for n, v in zip(reader.columns, found[0]):
        S.check(n != missing and S.eq(v, data[names.index(n)]), "each value is at the position of its column")


@harness("C20", params=grid(method=METHODS))
def blank(S, method):
    "Records that follow an empty line are not lost."

    data = [tuple(cell(S, f"{i}.{n}", t, 1) for n, t in TYPES.items()) for i in range(2)]
    lines = ["\t".join(TYPES) + "\n"] + ["\t".join(f"{v}" for v in r) + "\n" for r in data]
    lines.insert(S.choose("position", [1, 2, 3]), "\n")
    try:
        reader, found = read(method, File([l.encode("utf-8") for l in lines]), TYPES)
    except ValueError:
        S.check(True, "the file is refused")
        return
    same_rows(S, found, data)


@dataclass
class Item:
    nkey: int
    ntext: str
    nmore: Optional[str]


@dataclass
class Single:
    ntext: str


MAPPINGS = [None, *(dict(zip(p, ["na", "nb", "nc"])) for p in itertools.permutations(["nkey", "ntext", "nmore"]))]


class Output:
    def __init__(self):
        self.data = b""

    def write(self, b):
        self.data = self.data + b

    def lines(self):
        lines = self.data.split(b"\n")
        last = lines.pop()
        return [l + b"\n" for l in lines] + ([last] if last else [])


@harness(
    "C20",
    params=grid(method=METHODS, rows=[0, 1, 2], size=[1]),
    thorough=grid(method=METHODS, rows=[0, 1, 2, 3], size=[2]),
)
def writing(S, method, rows, size):
    "Objects that are written are read back, whatever characters they have."

    if S.bool("single?"):
        cls, mapping = Single, None
        items = [Single(S.str(f"text{i}", 0, size, ASCII_TEXT)) for i in range(rows)]
    else:
        cls, mapping = Item, S.choose("mapping", MAPPINGS if rows < 2 else MAPPINGS[-2:])
        items = [
            Item(
                S.int(f"key{i}", 0, 9),
                S.str(f"text{i}", 0, size, ASCII_TEXT),
                None if i == 0 and S.bool(f"none{i}") else "\\N",
            )
            for i in range(rows)
        ]
    file = Output()
    writer = TextWriter(file, cls, mapping)
    batch = S.choose("batch", list(range(rows + 1)))
    writer.write_objects(items[:batch])
    writer.write_objects(items[batch:])
    reader, found = read(method, File(file.lines()), fields_to_types(cls, mapping))
    names = list(mapping or fields_to_types(cls))
    S.check(list(reader.columns) == [(mapping or {}).get(n, n) for n in names], "columns are written in order")
    S.check(len(found) == rows, "there is one record for each object")
    for f, item in zip(found, items):
        S.check(len(f) == len(names), "each record has a value for each field")
        for n, a in zip(names, f):
            b = getattr(item, n)
            if a is None or b is None:
                S.check(a is None and b is None, "a missing value is read back")
            else:
                S.check(S.eq(a, b), "each value is read back")


class Label(enum.Enum):
    first = "a"
    second = "b\tc"


@dataclass
class Target:
    nkey: PrimaryKey[uuid.UUID]


@dataclass
class Struct:
    nx: int


ID = uuid.UUID(int=0x1234567890)
# types of fields, types in a file, and values
FIELDS = {
    "int": (int, int, [5, -70, 2**40]),
    "int16": (int16, int, [5]),
    "bool": (bool, bool, [True, False]),
    "float": (float, float, [-2.5, 1e300]),
    "text": (str, str, ["x\ty", "", "\\N"]),
    "limited text": (Annotated[str, MaxLength(5)], str, ["abc"]),
    "label": (Label, str, [Label.first, Label.second]),
    "extensible": (Union[Label, str], str, [Label.second, "z"]),
    "literal": (Literal["a", "b"], str, ["a", "b"]),
    "bytes": (bytes, bytes, [b"\x00\n\\", b""]),
    "timestamp": (datetime.datetime, datetime.datetime, [datetime.datetime(2024, 1, 2, 3, 4, 5, 678), datetime.datetime(1969, 12, 31, 23, 59, 59)]),
    "date": (datetime.date, datetime.date, [datetime.date(2024, 2, 29)]),
    "time": (datetime.time, datetime.time, [datetime.time(1, 2, 3, 45)]),
    "decimal": (decimal.Decimal, decimal.Decimal, [decimal.Decimal("1.50"), decimal.Decimal("-0.001")]),
    "uuid": (uuid.UUID, uuid.UUID, [ID]),
    "IPv4": (ipaddress.IPv4Address, ipaddress.IPv4Address, [ipaddress.IPv4Address("1.2.3.4")]),
    "IPv6": (ipaddress.IPv6Address, ipaddress.IPv6Address, [ipaddress.IPv6Address("::1")]),
    "IP": (Union[ipaddress.IPv4Address, ipaddress.IPv6Address], Union[ipaddress.IPv4Address, ipaddress.IPv6Address], [ipaddress.IPv4Address("1.2.3.4"), ipaddress.IPv6Address("::1")]),
    "list": (list[int], list, [[], [1, 2]]),
    "text list": (list[str], list, [["a\t", "b\\"]]),
    "dict": (dict[str, int], dict, [{"a": 1}]),
    "set": (set[str], set, []),
    "struct": (Struct, dict, []),
    "reference": (Target, uuid.UUID, [ID]),
    "key": (PrimaryKey[uuid.UUID], uuid.UUID, [ID]),
    "unique": (Unique[str], str, ["k"]),
    "default": (Union[int, DefaultTag], int, [4]),
}


@harness("C20", params=grid(method=["read", "async records"], form=["plain", "optional", "mapped"]), thorough=grid(method=METHODS, form=["plain", "optional", "mapped"]))
def typed(S, method, form):
    "Values of each type are written and read back."

    field, expected, values = FIELDS[S.choose("type", list(FIELDS))]
    if form == "optional":
        field, values = Optional[field], [None] + values[:1]
    cls = dataclasses.make_dataclass("Item", [("nbefore", str), ("nvalue", field), ("nafter", int)])
    mapping = {"nafter": "na", "nvalue": "nv", "nbefore": "nb"} if form == "mapped" else None
    names = list(mapping or ["nbefore", "nvalue", "nafter"])
    types = fields_to_types(cls, mapping)
    if mapping:
        S.check(types == {"na": int, "nv": expected, "nb": str}, "types are those of the fields")
    else:
        S.check(list(types.items()) == [("nbefore", str), ("nvalue", expected), ("nafter", int)], "types are those of the fields")
    if not values:
        return
    items = [cls(S.str("before", 0, 1, ASCII_TEXT), S.choose("value", values), S.int("after", -9, 9)), cls("x", values[0], 0)]
    file = Output()
    TextWriter(file, cls, mapping).write_objects(items)
    reader, found = read(method, File(file.lines()), types)
    S.check(len(found) == 2, "there is one record for each object")
    for f, item in zip(found, items):
        S.check(len(f) == 3, "each record has a value for each field")
        for n, a in zip(names, f):
            b = getattr(item, n)
            if isinstance(b, enum.Enum):
                b = b.value
            S.check(type(a) is type(b) if n == "nvalue" and b is not None else True, "a value has its type")
            S.check(S.eq(a, b) if b is not None else a is None, "each value is read back")


@harness("C20", params=grid(method=METHODS))
def some(S, method):
    "A mapping defines which fields are written, and in what order."

    names = list(S.choose("fields", [p for k in (1, 2, 3) for p in itertools.permutations(["nkey", "ntext", "nmore"], k)]))
    mapping = dict(zip(names, S.choose("names", [("na", "nb", "nc"), ("ntext", "nmore", "nkey")])))
    items = [Item(S.int("key", 0, 9), S.str("text", 0, 1, ASCII_TEXT), S.choose("more", [None, "y"])), Item(7, "z", "x")]
    file = Output()
    TextWriter(file, Item, mapping).write_objects(items)
    reader, found = read(method, File(file.lines()), fields_to_types(Item, mapping))
    S.check(list(reader.columns) == list(mapping.values()), "columns are those of the mapping")
    S.check(list(reader.field_types) == [int if n == "nkey" else str for n in names], "types are those of the fields")
    S.check(len(found) == 2, "there is one record for each object")
    for f, item in zip(found, items):
        S.check(len(f) == len(names), "each record has a value for each field")
        for n, a in zip(names, f):
            b = getattr(item, n)
            S.check(S.eq(a, b) if b is not None else a is None, "each value is read back")
