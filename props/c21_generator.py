"Generated test data satisfies the constraints of its class, whatever the random source yields."

import collections.abc
import dataclasses
import datetime
import decimal
import enum
import ipaddress
import itertools
import random
import string
import sys
import uuid
from dataclasses import dataclass, make_dataclass
from typing import Annotated, Literal, Optional, Union

from strong_typing.auxiliary import (
    IntegerRange,
    Length,
    MaxLength,
    MinLength,
    Precision,
    Signed,
    Storage,
    TimePrecision,
    float32,
    float64,
    int8,
    int16,
    int32,
    int64,
    uint8,
    uint16,
    uint32,
    uint64,
)

from pysqlsync.data import generator
from pysqlsync.data.generator import DataGeneratorError, random_objects
from pysqlsync.model.key_types import Identity, PrimaryKey, Unique

from symex.api import harness

try:
    from symex import strings
    from symex.engine import SymInt
    from symex.moments import SymDay, SymDecimal, SymMoment, SymTime
except ImportError:
    # replay of a counterexample
    strings = SymInt = SymDay = SymDecimal = SymMoment = SymTime = None


def hashed(cls):
    "An annotation whose (symbolic) properties do not take part in its hash code."

    return type(cls.__name__, (cls,), {"__hash__": object.__hash__, "__eq__": object.__eq__})


SymRange = hashed(IntegerRange)
SymPrecision = hashed(Precision)
SymTimePrecision = hashed(TimePrecision)
SymLength = hashed(Length)
SymMinLength = hashed(MinLength)
SymMaxLength = hashed(MaxLength)

ORIGINALS = {name: getattr(random, name) for name in dir(random) if callable(getattr(random, name))}


class Fraction(float):
    "A number in a range of which any outcome of a comparison that the range permits is possible."

    def __new__(cls, S, name, low, high):
        self = float.__new__(cls, low)
        self.steps = S.int(name, 0, 1 << 20)
        self.low, self.high = low, high
        return self

    def _scaled(self, limit):
        # low + steps / 2^20 * (high - low) <op> limit
        return (limit - self.low) / (self.high - self.low) * (1 << 20)

    def __lt__(self, other):
        v = self._scaled(other)
        return self.steps < -int(-v // 1)

    def __le__(self, other):
        return self.steps <= int(self._scaled(other) // 1)

    def __gt__(self, other):
        return self.steps > int(self._scaled(other) // 1)

    def __ge__(self, other):
        return self.steps >= -int(-self._scaled(other) // 1)

    __hash__ = float.__hash__

    def __eq__(self, other):
        if type(other) is not Fraction:
            return False
        return self.steps == other.steps


class Source:
    "A source of random numbers that may yield any value."

    def __init__(self, S, draws, long=False):
        self.S = S
        self.draws = draws
        self.count = 0
        self.long = long

    def next(self, what):
        self.count += 1
        self.S.assume(self.count <= self.draws)
        return f"{what} {self.count}"

    def randint(self, a, b):
        S = self.S
        if b < a:
            raise ValueError(f"empty range in randrange()")
        v = S.int(self.next("number"))
        S.assume(v >= a)
        S.assume(v <= b)
        return v

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        if step == 1:
            return self.randint(start, stop - 1)
        n = (stop - start + step - 1) // step
        return start + step * self.randint(0, n - 1)

    def random(self):
        return Fraction(self.S, self.next("fraction"), 0.0, 1.0)

    def uniform(self, a, b):
        return Fraction(self.S, self.next("fraction"), float(a), float(b))

    def choice(self, items):
        if not items:
            raise IndexError("Cannot choose from an empty sequence")
        if isinstance(items, str):
            return self.character(items)
        return items[self.S.choose(self.next("choice"), range(len(items)))]

    def character(self, alphabet):
        codes = sorted({ord(c) for c in alphabet})
        return self.S.str(self.next("character"), 1, 1, tuple((c, c) for c in codes))

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        if not population:
            raise IndexError("Cannot choose from an empty population")
        if self.long and isinstance(population, str) and hasattr(k, "expr"):
            self.next("characters")
            if k < 0:
                return []
            return strings.long_list(k)
        return [self.choice(population) for _ in range(int(k))]

    def sample(self, population, k, **kwargs):
        items = list(population)
        if k < 0 or k > len(items):
            raise ValueError("Sample larger than population or is negative")
        return [items.pop(self.S.choose(self.next("sample"), range(len(items)))) for _ in range(int(k))]

    # whether the order of items matters
    shuffled = True

    def shuffle(self, items):
        if not self.shuffled:
            return
        for i in range(len(items) - 1, 0, -1):
            j = self.S.choose(self.next("shuffle"), range(i + 1))
            items[i], items[j] = items[j], items[i]

    def getrandbits(self, k):
        # native code consumes these
        return self.S.choose(self.next("bits"), [0, 1, (1 << k) - 1, 1 << (k - 1), 0xC0A80001 % (1 << k)])

    def seed(self, *args, **kwargs):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self.S.inconclusive(f"no model of random.{name}()")


class Randomness:
    "Replaces the source of random numbers while generating."

    def __init__(self, S, draws=40, long=False):
        self.source = Source(S, draws, long)

    def __enter__(self):
        self.saved = []
        for name, original in ORIGINALS.items():
            if name in ("Random", "SystemRandom"):
                value = lambda *args: self.source
            else:
                try:
                    value = getattr(self.source, name)
                except BaseException:
                    continue
            self.replace(random, name, value)
            for key, v in list(vars(generator).items()):
                if v is original:
                    self.replace(generator, key, value)
        self.uuids = 0

        def uuid4():
            # never the same
            self.uuids += 1
            return uuid.UUID(int=(self.uuids << 80) | (4 << 76) | (8 << 60))

        original = uuid.uuid4
        self.replace(uuid, "uuid4", uuid4)
        for key, v in list(vars(generator).items()):
            if v is original:
                self.replace(generator, key, uuid4)
        return self

    def replace(self, where, name, value):
        self.saved.append((where, name, getattr(where, name)))
        setattr(where, name, value)

    def __exit__(self, *args):
        for where, name, value in reversed(self.saved):
            setattr(where, name, value)


def make(*fields):
    cls = make_dataclass("nclass", fields)
    cls.__module__ = __name__
    return cls


# ---------------------------------------------------------------------------------------------------------------------
# what is expected of a value


def is_a(value, kind):
    "Whether a value is an instance of exactly the kind (an integer is not a flag)."

    if SymInt is not None and isinstance(value, SymInt):
        return kind is int
    if kind is int:
        return type(value) is int
    return isinstance(value, kind) and not (kind is datetime.date and isinstance(value, datetime.datetime))


def length(value):
    if strings is not None and type(value) is strings.LongStr:
        return value.length
    return len(value)


def scaled(value, digits):
    "A decimal number as a multiple of the unit in the last of a number of decimal digits; None if it has more."

    if SymDecimal is not None and type(value) is SymDecimal:
        coefficient, exponent = value.coefficient, value.exponent
    else:
        sign, ds, exponent = value.as_tuple()
        if not isinstance(exponent, int):
            return None
        coefficient = int("".join(map(str, ds))) * (-1 if sign else 1)
    if exponent < -digits:
        if SymDecimal is not None and type(value) is SymDecimal:
            scale = 10 ** (-digits - exponent)
            return coefficient // scale if (coefficient % scale == 0) else None
        scale = 10 ** (-digits - exponent)
        return coefficient // scale if coefficient % scale == 0 else None
    return coefficient * 10 ** (exponent + digits)


def an_integer(S, what, value, least=-(1 << 63), most=(1 << 63) - 1):
    S.check(is_a(value, int), f"{what}: is an integer number")
    S.check(S.all([value >= least, value <= most]), f"{what}: is within its range")


def a_text(S, what, value, least, most):
    S.check(is_a(value, str), f"{what}: is a text")
    S.check(length(value) >= least, f"{what}: has at least as many characters as required")
    if most is not None:
        S.check(length(value) <= most, f"{what}: has at most as many characters as permitted")


def a_decimal(S, what, value, precision, scale):
    S.check(is_a(value, decimal.Decimal), f"{what}: is a decimal number")
    n = scaled(value, scale)
    S.check(n is not None, f"{what}: has at most as many decimal digits as permitted")
    S.check(S.all([n < 10**precision, n > -(10**precision)]), f"{what}: has at most as many digits as permitted")


# ---------------------------------------------------------------------------------------------------------------------
# integer numbers

INTEGERS = {
    "int": (int, -(1 << 63), (1 << 63) - 1),
    "int8": (int8, -(1 << 7), (1 << 7) - 1),
    "int16": (int16, -(1 << 15), (1 << 15) - 1),
    "int32": (int32, -(1 << 31), (1 << 31) - 1),
    "int64": (int64, -(1 << 63), (1 << 63) - 1),
    "uint8": (uint8, 0, (1 << 8) - 1),
    "uint16": (uint16, 0, (1 << 16) - 1),
    "uint32": (uint32, 0, (1 << 32) - 1),
    "uint64": (uint64, 0, (1 << 64) - 1),
    "one byte": (Annotated[int, Storage(1)], -(1 << 7), (1 << 7) - 1),
    "two bytes": (Annotated[int, Storage(2)], -(1 << 15), (1 << 15) - 1),
    "four bytes": (Annotated[int, Storage(4)], -(1 << 31), (1 << 31) - 1),
    "unsigned byte": (Annotated[int, Signed(False), Storage(1)], 0, (1 << 8) - 1),
    "unsigned two bytes": (Annotated[int, Storage(2), Signed(False)], 0, (1 << 16) - 1),
}


def wrapped(S, typ):
    "Types that impose the same limits on a value other than None."

    how = S.choose(
        "wrapped",
        [
            lambda t: t,
            lambda t: Optional[t],
            lambda t: Annotated[t, "note"],
            lambda t: Annotated[Optional[t], "note"],
            lambda t: Identity[t],
            lambda t: Optional[Annotated[t, "note"]],
        ],
    )
    r = how(typ)
    return r, r is not typ and "Optional" in repr(r)


def check_field(S, typ, expected, draws=40, long=False, count=1, wrap=True):
    "Generates objects with a field of a type, and decides whether the values of the field are as expected."

    optional = False
    if wrap:
        typ, optional = wrapped(S, typ)
    cls = make(("nfirst", typ))
    with Randomness(S, draws, long):
        objects = random_objects(cls, count)
    S.check(len(objects) == count, "as many objects as requested")
    for o in objects:
        S.check(type(o) is cls, "an object of the class")
        if optional and o.nfirst is None:
            continue
        expected(o.nfirst)


@harness("C21", params=[dict(kind=k) for k in (*INTEGERS, "range", "narrow")])
def integers(S, kind):
    if kind in INTEGERS:
        typ, low, high = INTEGERS[kind]
    else:
        low, high = S.int("least", -(1 << 63), (1 << 64) - 1), S.int("most", -(1 << 63), (1 << 64) - 1)
        S.assume(low <= high)
        typ = Annotated[(int, SymRange(low, high), *([Storage(1), Signed(False)] if kind == "narrow" else ()))]
        if kind == "narrow":
            S.assume(low >= 0)
            S.assume(high <= 255)
    check_field(S, typ, lambda v: an_integer(S, "integer", v, low, high))


@harness(
    "C21",
    params=[dict(bounds=b) for b in ("both", "least", "most", "exact", "none", "most, least")],
)
def texts(S, bounds):
    "Only the number of characters of a text is symbolic; it is not bounded."

    low, high = 0, None
    tags = []
    if bounds in ("both", "least", "most, least"):
        low = S.int("least", 0, 1 << 31)
        tags.append(SymMinLength(low))
    if bounds in ("both", "most", "most, least"):
        high = S.int("most", 0, 1 << 31)
        S.assume(high >= low)
        tags.append(SymMaxLength(high))
    if bounds == "exact":
        low = high = S.int("length", 0, 1 << 31)
        tags.append(SymLength(low))
    if bounds == "most, least":
        tags.reverse()
    typ = Annotated[(str, *tags)] if tags else str
    # a counterexample is replayed with texts of that size
    if bounds != "none":
        S.assume(low <= 4096)
    check_field(S, typ, lambda v: a_text(S, "text", v, low, high), long=S.symbolic)


@harness("C21", params=[dict(least=a, most=b) for a in range(3) for b in range(a, 4)])
def short_texts(S, least, most):
    "The characters of a text are symbolic, too."

    def expected(v):
        a_text(S, "text", v, least, most)
        for c in v:
            S.check(S.any([c == d for d in string.printable]), "text: a printable character")

    check_field(S, Annotated[str, MinLength(least), MaxLength(most)], expected, wrap=False)


@harness("C21", params=[dict(digits=n) for n in (0, 1, 2, 3, 5, 9, 18, 38)], thorough=[dict(digits=n) for n in range(39)])
def decimals(S, digits):
    if digits == 0:
        check_field(S, decimal.Decimal, lambda v: S.check(is_a(v, decimal.Decimal), "is a decimal number"))
        return
    scale = S.choose("scale", range(digits + 1) if digits < 9 else (0, 1, digits // 2, digits - 1, digits))
    check_field(
        S,
        Annotated[decimal.Decimal, Precision(digits, scale)],
        lambda v: a_decimal(S, "decimal", v, digits, scale),
        wrap=digits < 3,
    )


@harness("C21", params=[dict(kind=k) for k in ("bool", "float", "float32", "float64", "datetime", "date", "time", "uuid")])
def scalars(S, kind):
    if kind == "bool":
        check_field(S, bool, lambda v: S.check(v is True or v is False or not S.concrete(is_a(v, int)), "is a flag"))
    elif kind.startswith("float"):
        typ = {"float": float, "float32": float32, "float64": float64}[kind]
        check_field(S, typ, lambda v: S.check(isinstance(v, float), "is a number"))
    elif kind == "datetime":
        typ = S.choose("precision", [datetime.datetime, Annotated[datetime.datetime, TimePrecision(3)], Annotated[datetime.datetime, TimePrecision(0)]])
        check_field(S, typ, lambda v: check_moment(S, v, typ))
    elif kind == "date":
        check_field(S, datetime.date, lambda v: S.check(is_a(v, datetime.date), "is a date"))
    elif kind == "time":
        typ = S.choose("precision", [datetime.time, Annotated[datetime.time, TimePrecision(3)]])
        check_field(S, typ, lambda v: S.check(isinstance(v, datetime.time), "is a time of day"))
    else:
        check_field(S, uuid.UUID, lambda v: S.check(isinstance(v, uuid.UUID), "is a unique identifier"))


def check_moment(S, v, typ):
    S.check(isinstance(v, datetime.datetime), "is a moment in time")


class nlabel(enum.Enum):
    A = "a"
    B = "b"
    C = "c"


class nnumber(enum.Enum):
    ONE = 1


@dataclass
class nentity:
    nkey: PrimaryKey[int]
    nvalue: str


@dataclass
class nother:
    nkey: PrimaryKey[int]
    nvalue: str


@dataclass
class nidentified:
    nkey: PrimaryKey[uuid.UUID]


@dataclass
class nspecific:
    nkey: PrimaryKey[Annotated[int, IntegerRange(5, 9)]]


@dataclass
class nleaf:
    nx: Annotated[int, IntegerRange(1, 3)]
    ny: Literal["p", "q"]


@dataclass
class nstruct:
    nleaf: nleaf
    nlabel: nlabel


def is_leaf(S, v):
    S.check(isinstance(v, nleaf) or (isinstance(v, dict) and list(v) == ["nx", "ny"]), "has all members of the class")
    x, y = (v.nx, v.ny) if isinstance(v, nleaf) else (v["nx"], v["ny"])
    an_integer(S, "member", x, 1, 3)
    S.check(S.any([y == c for c in ("p", "q")]), "member: is among the literal values")


def is_struct(S, v):
    S.check(isinstance(v, nstruct) or (isinstance(v, dict) and list(v) == ["nleaf", "nlabel"]), "has all members of the class")
    leaf, label = (v.nleaf, v.nlabel) if isinstance(v, nstruct) else (v["nleaf"], v["nlabel"])
    is_leaf(S, leaf)
    is_label(S, label)


def is_label(S, v):
    S.check(isinstance(v, nlabel) or any(v == e.value for e in nlabel), "is a member of the enumeration")


def is_list(S, item, distinct=False):
    def expected(v):
        S.check(isinstance(v, (list, set, tuple)), "is a list of values")
        for i in v:
            item(S, i)
        if distinct:
            S.check(len(set(map(str, v))) == len(v), "has distinct members")

    return expected


def small(S, v):
    an_integer(S, "item", v, -2, 2)


SMALL = Annotated[int, IntegerRange(-2, 2)]

OTHERS = {
    "enumeration": (nlabel, is_label),
    "single": (nnumber, lambda S, v: S.check(v is nnumber.ONE, "is the member of the enumeration")),
    "literal": (Literal["p", "q"], lambda S, v: S.check(v in ("p", "q"), "is among the literal values")),
    "constant": (Literal["p"], lambda S, v: S.check(v == "p", "is the literal value")),
    "numbers": (Literal[1, 2], lambda S, v: S.check(v in (1, 2), "is among the literal values")),
    "ipv4": (ipaddress.IPv4Address, lambda S, v: S.check(isinstance(v, ipaddress.IPv4Address), "is an address")),
    "ipv6": (ipaddress.IPv6Address, lambda S, v: S.check(isinstance(v, ipaddress.IPv6Address), "is an address")),
    "ip": (
        Union[ipaddress.IPv4Address, ipaddress.IPv6Address],
        lambda S, v: S.check(isinstance(v, (ipaddress.IPv4Address, ipaddress.IPv6Address)), "is an address"),
    ),
    "union": (
        Union[Literal["p"], nlabel, Annotated[int, IntegerRange(1, 3)]],
        lambda S, v: an_integer(S, "number", v, 1, 3)
        if is_a(v, int)
        else S.check(isinstance(v, nlabel) or v == "p", "is a value of one of the types"),
    ),
    "leaf": (nleaf, is_leaf),
    "struct": (nstruct, is_struct),
    "list": (list[SMALL], lambda S, v: is_list(S, small)(v)),
    "set": (set[SMALL], lambda S, v: is_list(S, small)(v)),
    "labels": (list[nlabel], lambda S, v: is_list(S, is_label)(v)),
    "label set": (set[nlabel], lambda S, v: is_list(S, is_label, True)(v)),
    "leaves": (list[nleaf], lambda S, v: is_list(S, is_leaf)(v)),
    "entity": (nentity, lambda S, v: an_integer(S, "reference", v)),
    "entities": (Union[nentity, nother], lambda S, v: an_integer(S, "reference", v)),
    "identified": (nidentified, lambda S, v: S.check(isinstance(v, uuid.UUID), "is an identifier")),
    "specific": (nspecific, lambda S, v: an_integer(S, "reference", v, 5, 9)),
}


@harness("C21", params=[dict(kind=k) for k in OTHERS])
def others(S, kind):
    typ, expected = OTHERS[kind]
    check_field(S, typ, lambda v: expected(S, v), draws=12)


# ---------------------------------------------------------------------------------------------------------------------
# values that never repeat

KEYS = {
    "int": PrimaryKey[int],
    "int64": PrimaryKey[int64],
    "ranged": PrimaryKey[Annotated[int, IntegerRange(0, 1000)]],
    "identity": PrimaryKey[Identity[int]],
    "identity key": Identity[PrimaryKey[int]],
    "uuid": PrimaryKey[uuid.UUID],
    "unique": Unique[PrimaryKey[int]],
}

UNIQUE = {
    "int": Annotated[int, IntegerRange(1, 4)],
    "str": Annotated[str, MinLength(0), MaxLength(2)],
    "label": nlabel,
    "uuid": uuid.UUID,
    "literal": Literal["p", "q", "r"],
    "date": datetime.date,
    "datetime": datetime.datetime,
    "time": datetime.time,
    "decimal": Annotated[decimal.Decimal, Precision(2, 1)],
    "bool": bool,
    "entity": nspecific,
    "float": float,
    "int64": int64,
}


def distinct(S, values, message):
    for a, b in itertools.combinations(values, 2):
        if a is None or b is None:
            continue
        S.check(S.not_(S.eq(a, b)), message)


@harness(
    "C21",
    params=[dict(kind=k, count=3) for k in KEYS],
    thorough=[dict(kind=k, count=c) for k in KEYS for c in (0, 1, 2, 4)],
)
def keys(S, kind, count):
    cls = make(("nkey", KEYS[kind]), ("nvalue", Annotated[int, IntegerRange(0, 2)]))
    with Randomness(S):
        objects = random_objects(cls, count)
    S.check(len(objects) == count, "as many objects as requested")
    for o in objects:
        S.check(is_a(o.nkey, uuid.UUID if kind == "uuid" else int), "a key of the type of the field")
        an_integer(S, "value", o.nvalue, 0, 2)
    distinct(S, [o.nkey for o in objects], "keys never repeat")


@harness(
    "C21",
    params=[dict(kind=k, count=2 if k in ("bool", "str", "decimal") else 3) for k in UNIQUE],
    thorough=[dict(kind=k, count=2 if k == "bool" else 3 if k in ("str", "decimal") else 4) for k in UNIQUE],
)
def unique(S, kind, count):
    typ = Unique[UNIQUE[kind]]
    optional = S.choose("optional", [False, True])
    if optional:
        typ = S.choose("how", [lambda t: Optional[Unique[t]], lambda t: Unique[Optional[t]]])(UNIQUE[kind])
    draws = {"str": 8, "decimal": 8}.get(kind, count + 1)
    with Randomness(S, draws) as r:
        try:
            r.source.shuffled = False
            objects = random_objects(make(("nfirst", typ)), count)
        except DataGeneratorError:
            # not as many distinct values
            S.check({"label": 3, "literal": 3, "bool": 2, "int": 4, "entity": 5}.get(kind, 100) < count, "distinct values exist")
            return
    S.check(len(objects) == count, "as many objects as requested")
    distinct(S, [o.nfirst for o in objects], "unique values never repeat")


@harness("C21")
def several(S):
    "Fields do not affect each other."

    low, high = S.int("least", -9, 9), S.int("most", -9, 9)
    S.assume(low <= high)
    cls = make(
        ("nkey", PrimaryKey[int]),
        ("nfirst", Annotated[int, SymRange(low, high)]),
        ("nsecond", Optional[Annotated[int, IntegerRange(20, 30)]]),
        ("nthird", Annotated[decimal.Decimal, Precision(2, 1)]),
        ("nfourth", nleaf),
        ("nfifth", nlabel),
    )
    with Randomness(S):
        objects = random_objects(cls, 2)
    S.check(len(objects) == 2, "as many objects as requested")
    for o in objects:
        an_integer(S, "first", o.nfirst, low, high)
        if o.nsecond is not None:
            an_integer(S, "second", o.nsecond, 20, 30)
        a_decimal(S, "third", o.nthird, 2, 1)
        is_leaf(S, o.nfourth)
        is_label(S, o.nfifth)
    distinct(S, [o.nkey for o in objects], "keys never repeat")
