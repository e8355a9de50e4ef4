"Generated Python code defines the class that it was generated from."

import dataclasses
import datetime
import decimal
import enum
import inspect
import ipaddress
import sys
import types
import typing
import uuid
from typing import Annotated, ClassVar, Literal, Optional, Union

import strong_typing.auxiliary
from strong_typing.auxiliary import IntegerRange, MaxLength, Precision, TimePrecision, float32, int8, int16, int64, uint32
from strong_typing.core import JsonType

from pysqlsync import python_types
from pysqlsync.model import key_types
from pysqlsync.model.key_types import DEFAULT, Identity, PrimaryKey, Unique

from symex.api import grid, harness

try:
    from symex.strings import has_symbols
except ImportError:
    # replay of a counterexample
    has_symbols = None

# printable characters, line breaks and tabulators
LINES = ((9, 10), (13, 13), (32, 126), (0xA1, 0xAC))
LINE = ((9, 9), (32, 126), (0xA1, 0xAC))
# words of a documentation text
PUNCTUATION = ((34, 34), (39, 39), (92, 92), (97, 97))
WORD = ((33, 57), (59, 126), (0xA1, 0xAC))


class Malformed(Exception):
    "The text is not Python code."


SIMPLE_ESCAPES = {"\\": "\\", "'": "'", '"': '"', "a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}


def hex_char(S, text):
    digits = S.concrete(text)
    try:
        return chr(int(digits, 16))
    except ValueError:
        raise Malformed(f"invalid escape sequence")


def literal(S, text, i, quote):
    "Reads a string literal whose (first) quotation mark is at the given position."

    n = len(text)
    triple = i + 2 < n and text[i + 1] == quote and text[i + 2] == quote
    i += 3 if triple else 1
    parts = []
    while True:
        if i >= n:
            raise Malformed("string literal without an end")
        c = text[i]
        if c == quote:
            if not triple:
                return "".join(parts), i + 1
            if i + 2 < n and text[i + 1] == quote and text[i + 2] == quote:
                return "".join(parts), i + 3
            parts.append(quote)
            i += 1
        elif c == "\\":
            if i + 1 >= n:
                raise Malformed("string literal without an end")
            e = text[i + 1]
            known = [k for k in SIMPLE_ESCAPES if e == k]
            if known:
                parts.append(SIMPLE_ESCAPES[known[0]])
                i += 2
            elif e == "\n":
                i += 2
            elif e == "x":
                parts.append(hex_char(S, text[i + 2 : i + 4]))
                i += 4
            elif e == "u":
                parts.append(hex_char(S, text[i + 2 : i + 6]))
                i += 6
            elif e == "U":
                parts.append(hex_char(S, text[i + 2 : i + 10]))
                i += 10
            elif e == "N":
                raise Malformed("name of a character")
            elif S.any([e == d for d in "01234567"]):
                j = i + 1
                while j < min(n, i + 4) and S.any([text[j] == d for d in "01234567"]):
                    j += 1
                parts.append(chr(int(S.concrete(text[i + 1 : j]), 8)))
                i = j
            else:
                parts.append("\\")
                i += 1
        elif c == "\n" and not triple:
            raise Malformed("string literal that spans several lines")
        else:
            parts.append(c)
            i += 1


def skeleton(S, text):
    "Replaces string literals with arbitrary content by names for this content."

    out = []
    contents = {}
    i = 0
    while i < len(text):
        c = text[i]
        if c == "'" or c == '"':
            value, j = literal(S, text, i, "'" if c == "'" else '"')
            if has_symbols(value) or has_symbols(text[i:j]):
                name = f"content {len(contents)}"
                contents[name] = value
                out.append(repr(name))
            else:
                out.append(S.concrete(text[i:j]))
            i = j
        else:
            out.append(S.concrete(c))
            i += 1
    return "".join(out), contents


def execute(S, text, namespace):
    "Executes generated code; returns the contents of string literals in the code."

    contents = {}
    try:
        if S.symbolic:
            text, contents = skeleton(S, text)
        exec(compile(text, "generated", "exec", dont_inherit=True), namespace)
    except (Malformed, SyntaxError, ValueError, NameError, TypeError, AttributeError) as e:
        S.fail(f"generated code can be executed: {type(e).__name__}")
        return None
    return contents


def context():
    "Names that the code of a class relies on, bound as they are in the code of a module."

    names = {"__name__": "generated", "dataclasses": dataclasses, "enum": enum, "typing": typing}
    names.update({n: getattr(datetime, n) for n in ("date", "datetime", "time", "timedelta", "timezone")})
    names.update(Decimal=decimal.Decimal, UUID=uuid.UUID)
    names.update(IPv4Address=ipaddress.IPv4Address, IPv6Address=ipaddress.IPv6Address)
    names.update({n: getattr(typing, n) for n in ("Annotated", "Any", "Literal", "Optional", "Union", "ClassVar")})
    names.update({n: v for n, v in vars(strong_typing.auxiliary).items() if not n.startswith("_")})
    names.update(JsonType=JsonType, DEFAULT=DEFAULT, DefaultTag=key_types.DefaultTag)
    names.update(PrimaryKey=key_types.PrimaryKeyTag(), Identity=key_types.IdentityTag(), Unique=key_types.UniqueTag())
    return names


def shape(annotation):
    "A type in a form that can be compared, even if classes are not the same objects."

    if typing.get_origin(annotation) is Annotated:
        inner, *metas = typing.get_args(annotation)
        return ("annotated", shape(inner), [(type(m).__name__, repr(m)) for m in metas])
    origin = typing.get_origin(annotation)
    if origin is Literal:
        return ("literal", typing.get_args(annotation))
    if origin is Union or origin is types.UnionType:
        return ("union", [shape(a) for a in typing.get_args(annotation)])
    if origin is not None:
        return (origin, [shape(a) for a in typing.get_args(annotation)])
    if isinstance(annotation, typing.ForwardRef):
        return annotation.__forward_arg__
    if isinstance(annotation, str):
        return annotation
    return (annotation.__name__, annotation.__module__ if annotation.__module__ not in ("sample", "generated") else "")


def hints(cls, namespace):
    return typing.get_type_hints(cls, namespace, include_extras=True)


class Comparison:
    def __init__(self, S, contents):
        self.S = S
        self.contents = contents

    def value(self, found):
        if isinstance(found, str) and found in self.contents:
            return self.contents[found]
        return found

    def same(self, found, expected):
        S = self.S
        found = self.value(found)
        if isinstance(expected, enum.Enum):
            return type(found).__name__ == type(expected).__name__ and found.name == expected.name
        if isinstance(expected, str):
            return isinstance(found, str) and S.eq(found, expected)
        if isinstance(expected, float) and expected != expected:
            return found != found
        if type(found).__name__ != type(expected).__name__:
            return False
        if dataclasses.is_dataclass(expected):
            return S.all(
                [self.same(getattr(found, f.name), getattr(expected, f.name)) for f in dataclasses.fields(expected)]
            )
        if isinstance(expected, (list, tuple)):
            return len(found) == len(expected) and S.all([self.same(a, b) for a, b in zip(found, expected)])
        if isinstance(expected, dict):
            return list(found) == list(expected) and S.all([self.same(found[k], expected[k]) for k in expected])
        return found == expected

    def data_class(self, found, cls, namespace, doc=()):
        S = self.S
        S.check(dataclasses.is_dataclass(found), f"class is a data-class: {cls.__name__}")
        if not dataclasses.is_dataclass(found):
            return
        S.check(found.__name__ == cls.__name__, f"class has the same name: {cls.__name__}")
        fields, expected = dataclasses.fields(found), dataclasses.fields(cls)
        S.check([f.name for f in fields] == [f.name for f in expected], f"class has the same fields: {cls.__name__}")
        if len(fields) != len(expected):
            return
        try:
            new, old = hints(found, namespace), hints(cls, None)
        except NameError as e:
            S.fail(f"types of fields can be evaluated: {cls.__name__}")
            return
        for f, e in zip(fields, expected):
            what = f"{cls.__name__}.{e.name}"
            S.check(shape(new[f.name]) == shape(old[e.name]), f"field has the same type: {what}")
            for attribute in ("default", "default_factory"):
                a, b = getattr(f, attribute), getattr(e, attribute)
                if b is dataclasses.MISSING or a is dataclasses.MISSING:
                    S.check(a is b, f"field has the same {attribute}: {what}")
                elif attribute == "default":
                    S.check(self.same(a, b), f"field has the same default value: {what}")
                else:
                    S.check(self.same(a(), b()), f"field has the same default value: {what}")
            S.check(self.same(dict(f.metadata), dict(e.metadata)), f"field has the same metadata: {what}")
        names = {f.name for f in expected}

        def constants(c):
            return {n: v for n, v in vars(c).items() if not n.startswith("__") and n not in names and not callable(v)}

        a, b = constants(found), constants(cls)
        S.check(sorted(a) == sorted(b), f"class has the same constants: {cls.__name__}")
        for n in b:
            S.check(n in a and self.same(a[n], b[n]), f"constant has the same value: {cls.__name__}.{n}")

    def documentation(self, found, cls):
        "Compares documentation texts."

        S = self.S
        doc = self.value(found.__doc__)
        if not cls.__doc__ or str(cls.__doc__)[: len(cls.__name__) + 1] == f"{cls.__name__}(":
            # possibly assigned automatically
            S.check(doc is None or dataclasses.is_dataclass(found) and doc.startswith(f"{cls.__name__}("), "no documentation")
        else:
            S.check(doc is not None and S.eq(doc, cls.__doc__), "class has the same documentation")

    def enumeration(self, found, cls, values, docs):
        S = self.S
        S.check(issubclass(found, enum.Enum) and found.__name__ == cls.__name__, "class is an enumeration")
        S.check([e.name for e in found] == list(values), "enumeration has the same members")
        for name, value in values.items():
            if name in found.__members__:
                S.check(self.same(found[name].value, value), f"member has the same value: {name}")
        for name, doc in docs.items():
            if name in found.__members__:
                S.check(self.same(found[name].__doc__, doc), f"member has the same documentation: {name}")


class Sample:
    "A module in which classes are defined while the harness runs."

    def __init__(self):
        self.module = types.ModuleType("sample")

    def __enter__(self):
        sys.modules["sample"] = self.module
        return self

    def __exit__(self, *args):
        del sys.modules["sample"]

    def add(self, cls):
        cls.__module__ = "sample"
        setattr(self.module, cls.__name__, cls)
        return cls

    def data_class(self, name, fields, doc=None, **constants):
        # an explicit documentation text keeps the default values from being written into one
        cls = dataclasses.make_dataclass(name, fields, namespace={"__doc__": doc or "-", **constants})
        cls.__doc__ = doc
        return self.add(cls)


PLACES = ["documentation", "default", "default with metadata", "constant"]


@harness("C25", params=grid(place=PLACES, length=[2]), thorough=grid(place=PLACES, length=[4]))
def texts(S, place, length):
    "Documentation and default values are the same, whatever characters they contain."

    with Sample() as sample:
        text = S.str("text", 0, length, LINE if place == "documentation" else LINES)
        other = S.str("other", 1, 1, LINE)
        doc = None
        constants = {}
        fields = [("id", int), ("name", str)]
        if place == "documentation":
            doc = text
            fields.append(("title", str, other))
        elif place == "default":
            fields += [("text", str, text), ("other", Optional[str], other)]
            doc = other
        elif place == "default with metadata":
            fields += [("text", str, dataclasses.field(default=text, metadata={"description": "about"}))]
        else:
            constants = {S.choose("constant", ["TEXT", "_text", "text_", "_text_", "aa"]): text, "number": 1}
            fields += [(S.choose("field", ["other", "_other", "other_", "zz"]), str, other)]
        cls = sample.data_class("Item", fields, doc, **constants)
        code = python_types.dataclass_to_code(cls)
        namespace = context()
        contents = execute(S, code, namespace)
        if contents is None:
            return
        c = Comparison(S, contents)
        S.check("Item" in namespace, "code defines the class")
        c.data_class(namespace["Item"], cls, namespace)
        c.documentation(namespace["Item"], cls)


LAYOUTS = ["description", "short and long", "parameters", "description and parameters", "all"]
LONG = "w" * 150


@harness("C25", params=grid(layout=LAYOUTS, length=[3]), thorough=grid(layout=LAYOUTS, length=[4]))
def documentation(S, layout, length):
    "A documentation text with several lines is the same (up to white space), whatever characters its words have."

    def word(name, length=1):
        return S.str(name, 1, length, WORD if length > 1 else PUNCTUATION)

    lines = []
    if layout == "description":
        lines += ["The " + word("one") + " " + word("two"), word("line", length), LONG + word("last") + LONG + "-tail"]
    elif layout == "description and parameters":
        lines += ["Text " + word("one"), word("line")]
    elif layout == "short and long":
        lines += ["Short description " + word("short", length) + " text.", "", "x" + word("long") + ' "quoted"']
    elif layout == "all":
        lines += ["Short description " + word("short") + " text.", "", "x" + word("long") + ' "quoted"']
    if layout in ("parameters", "description and parameters", "all"):
        repeat = 2 if lines else 28
        if lines:
            lines.append("")
        lines += [":param id: Key " + word("key", length) + ".", ":param name: " + word("name") + " " + "text " * repeat]
    doc = "\n    " + "\n    ".join(lines) + "\n    "
    expected = [w for line in lines for w in line.split()]

    with Sample() as sample:
        cls = sample.data_class("Item", [("id", int), ("name", str)], doc)
        code = python_types.dataclass_to_code(cls)
        namespace = context()
        contents = execute(S, code, namespace)
        if contents is None:
            return
        c = Comparison(S, contents)
        c.data_class(namespace["Item"], cls, namespace)
        found = c.value(namespace["Item"].__doc__)
        S.check(found is not None, "class has a documentation")
        if found is not None:
            found = found.split()
            S.check(
                len(found) == len(expected) and S.all([S.eq(a, b) for a, b in zip(found, expected)]),
                "class has the same documentation",
            )


ASPECTS = ["values", "documentation", "members"]


@harness("C25", params=grid(kind=ASPECTS, length=[2]), thorough=grid(kind=ASPECTS, length=[3]))
def enumerations(S, kind, length):
    "An enumeration class has the same members, values and documentation."

    with Sample() as sample:
        values = {"first": "1", "second": 2, "third": "third"}
        docs = {}
        doc = None
        if kind == "values":
            text = S.str("value", 0, length, LINES)
            other = S.str("other", 0, 1, LINES)
            S.assume(text != other)
            values = {"first": text, "second": other, "third": "other"}
            S.assume(text != "other")
            doc = "An example."
        elif kind == "documentation":
            doc = S.str("text", 1, length, LINES)
        else:
            docs = {"first": S.str("first", 1, length, LINES), "third": S.str("third", 1, 1, LINES)}
            doc = "An example."

        class Color(enum.Enum):
            first = 1
            second = 2
            third = 3

        for e in Color:
            e._value_ = values[e.name]
        sample.add(Color)
        Color.__doc__ = doc
        for name, text in docs.items():
            Color[name].__doc__ = text
        code = python_types.enum_class_to_code(Color)
        namespace = context()
        contents = execute(S, code, namespace)
        if contents is None:
            return
        c = Comparison(S, contents)
        S.check("Color" in namespace, "code defines the class")
        c.enumeration(namespace["Color"], Color, values, docs)
        c.documentation(namespace["Color"], Color)


class Color(enum.Enum):
    "An enumeration."

    red = "r"
    green = "it's \\ green"


class Level(enum.IntEnum):
    low = 1
    high = 2


@dataclasses.dataclass
class Point:
    "A composite value."

    x: int
    y: float = 0.5


class Place(enum.Enum):
    home = Point(1, 2.0)
    work = Point(3, 4.0)


for cls in (Color, Level, Point, Place):
    cls.__module__ = "sample"

NONE = dataclasses.MISSING
TYPES = {
    "bool": (bool, [NONE, True, False]),
    "int": (int, [NONE, 0, -1, 1 << 70]),
    "float": (float, [NONE, 0.0, -1.5, 1e300, float("inf"), float("-inf"), float("nan")]),
    "str": (str, [NONE, "", "it's", '"""', "\\", "\n"]),
    "decimal": (decimal.Decimal, [NONE, decimal.Decimal("1.50"), decimal.Decimal("-0")]),
    "datetime": (
        datetime.datetime,
        [
            NONE,
            datetime.datetime(1989, 10, 24, 23, 59, 59),
            datetime.datetime(2000, 1, 1, microsecond=1, tzinfo=datetime.timezone.utc),
            datetime.datetime(2000, 1, 1, tzinfo=datetime.timezone(datetime.timedelta(hours=-3))),
        ],
    ),
    "date": (datetime.date, [NONE, datetime.date(1989, 10, 24)]),
    "time": (datetime.time, [NONE, datetime.time(23, 59, 59), datetime.time(0, 0, tzinfo=datetime.timezone.utc)]),
    "timedelta": (datetime.timedelta, [NONE, datetime.timedelta(days=-1, microseconds=3)]),
    "uuid": (uuid.UUID, [NONE, uuid.UUID(int=255)]),
    "ipv4": (ipaddress.IPv4Address, [NONE, ipaddress.IPv4Address("127.0.0.1")]),
    "ipv6": (ipaddress.IPv6Address, [NONE, ipaddress.IPv6Address("::1")]),
    "int8": (int8, [NONE, 5]),
    "int16": (int16, [NONE, 5]),
    "int64": (int64, [NONE, 5]),
    "uint32": (uint32, [NONE, 5]),
    "float32": (float32, [NONE, 5.0]),
    "optional": (Optional[int], [NONE, None, 7]),
    "optional text": (Optional[Annotated[str, MaxLength(7)]], [NONE, None, "text"]),
    "limited": (Annotated[str, MaxLength(7)], [NONE, "text"]),
    "range": (Annotated[int, IntegerRange(1, 10)], [NONE, 3]),
    "precision": (Annotated[decimal.Decimal, Precision(5, 2)], [NONE, decimal.Decimal("1.50")]),
    "timestamp": (Annotated[datetime.datetime, TimePrecision(6)], [NONE]),
    "list": (list[int], [NONE]),
    "dict": (dict[str, list[int]], [NONE]),
    "set": (set[str], [NONE]),
    "literal": (Literal["a", "it's", '"\\'], [NONE, "it's"]),
    "union": (Union[int, str], [NONE, 1, "a"]),
    "enum": (Color, [NONE, Color.red, Color.green]),
    "enum of int": (Level, [NONE, Level.high]),
    "optional enum": (Optional[Color], [NONE, None, Color.green]),
    "enum of object": (Place, [NONE, Place.work]),
    "list of enum": (list[Color], [NONE]),
    "class": (Point, [NONE]),
    "forward": ("Point", [NONE]),
    "optional forward": (Optional["Point"], [NONE, None]),
    "key": (PrimaryKey[int], [NONE]),
    "text key": (PrimaryKey[Annotated[str, MaxLength(7)]], [NONE]),
    "unique": (Unique[str], [NONE]),
    "identity": (PrimaryKey[Identity[int]], [NONE, DEFAULT]),
    "class variable": (ClassVar[int], [3]),
}
FACTORIES = {"list": list, "dict": dict, "set": set}


def some_class(S, sample, kind):
    typ, defaults = TYPES[kind]
    default = S.choose("default", defaults)
    described = S.bool("with metadata")
    details = {"metadata": {"description": "it's"}} if described else {}
    if default is not NONE:
        details["default"] = default
    elif kind in FACTORIES and S.bool("with factory"):
        details["default_factory"] = FACTORIES[kind]
    fields = [("first", str)]
    if S.bool("in the middle"):
        fields.append(("number", int))
    if kind == "class variable":
        cls = dataclasses.make_dataclass("Item", fields, namespace={"value": default})
        return sample.add(cls)
    fields.append(("value", typ, dataclasses.field(**details)))
    fields.append(("last", Optional[str], None))
    return sample.data_class("Item", fields, S.choose("documentation", [None, "An item."]))


@harness("C25", params=grid(kind=list(TYPES)))
def types_of_fields(S, kind):
    "A class has fields with the same types and default values."

    with Sample() as sample:
        for c in (Color, Level, Point, Place):
            sample.add(c)
        cls = some_class(S, sample, kind)
        code = python_types.dataclass_to_code(cls)
        namespace = {**context(), **{c.__name__: c for c in (Color, Level, Point, Place)}}
        contents = execute(S, code, namespace)
        if contents is None:
            return
        c = Comparison(S, contents)
        c.data_class(namespace["Item"], cls, namespace)
        c.documentation(namespace["Item"], cls)


@harness("C25", params=grid(kind=list(TYPES)))
def modules(S, kind):
    "The code of a module can be executed, and defines all classes of the module."

    with Sample() as sample:
        for c in (Color, Level, Point, Place):
            sample.add(c)
        cls = some_class(S, sample, kind)
        text = S.str("text", 1, 1, LINES) if kind == "int" else "it's"
        other = sample.data_class("Another", [("item", "Item"), ("text", str, text)])
        code = python_types.module_to_code(sample.module)
        generated = types.ModuleType("generated")
        sys.modules["generated"] = generated
        try:
            namespace = generated.__dict__
            contents = execute(S, code, namespace)
            if contents is None:
                return
            c = Comparison(S, contents)
            for d in (cls, other, Point):
                S.check(d.__name__ in namespace, f"code defines the class: {d.__name__}")
                c.data_class(namespace[d.__name__], d, namespace)
                c.documentation(namespace[d.__name__], d)
            for e in (Color, Level, Place):
                S.check(e.__name__ in namespace, f"code defines the class: {e.__name__}")
                c.enumeration(namespace[e.__name__], e, {m.name: m.value for m in e}, {})
        finally:
            del sys.modules["generated"]
