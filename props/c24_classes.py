"A class derived from a table has the columns, keys, references, types and descriptions of the table."

import dataclasses
import datetime
import decimal
import keyword
import sys
import types
import typing
import uuid
from typing import Annotated, Union

from strong_typing.auxiliary import (
    Length,
    MaxLength,
    Precision,
    Signed,
    Storage,
    TimePrecision,
    float32,
    float64,
)
from strong_typing.core import JsonType

from pysqlsync.formation.object_types import ConstraintReference, DiscriminatedConstraint
from pysqlsync.formation.sql_to_py import SqlConverterOptions, table_to_dataclass
from pysqlsync.model.data_types import (
    SqlArrayType,
    SqlBooleanType,
    SqlDateType,
    SqlDecimalType,
    SqlDoubleType,
    SqlFixedCharacterType,
    SqlFloatType,
    SqlIntegerType,
    SqlJsonType,
    SqlRealType,
    SqlTimestampType,
    SqlTimeType,
    SqlUuidType,
    SqlVariableCharacterType,
)
from pysqlsync.model.id_types import LocalId
from pysqlsync.model.key_types import PrimaryKeyTag

from symex.api import LOWER, grid, harness

from .common import Models, tid

try:
    from symex.engine import SymInt
except ImportError:
    # replay of a counterexample
    SymInt = None


class Annotations:
    "Lets annotations with symbolic properties take part in types, whose cache the standard library keeps."

    def __init__(self, S):
        self.symbolic = S.symbolic

    def __enter__(self):
        for f in typing._cleanups:
            f()
        if self.symbolic:
            SymInt.constant_hash = True

    def __exit__(self, *args):
        if self.symbolic:
            SymInt.constant_hash = False
        for f in typing._cleanups:
            f()


def module(name):
    m = types.ModuleType(name)
    sys.modules[name] = m
    return m


def derive(S, table, namespaces):
    modules = {schema: module(name) for schema, name in namespaces.items()}
    try:
        with Annotations(S):
            cls = table_to_dataclass(table, SqlConverterOptions(dict(modules)))
            return cls, modules
    finally:
        for m in modules.values():
            del sys.modules[m.__name__]


def python_name(name):
    return f"{name}_" if name in keyword.kwlist else name


def target_of(ref):
    "The name of the class that a forward reference points to."

    return ref.__forward_arg__ if isinstance(ref, typing.ForwardRef) else ref


def is_union(annotation):
    return typing.get_origin(annotation) in (Union, types.UnionType)


def read(annotation):
    "Takes a field type apart: whether it is the key, whether it may be None, the types it may take and annotations."

    key = optional = False
    extra = []
    members = [annotation]
    changed = True
    while changed:
        changed = False
        if len(members) == 1 and typing.get_origin(members[0]) is Annotated:
            inner, *metas = typing.get_args(members[0])
            for m in metas:
                if isinstance(m, PrimaryKeyTag):
                    key = True
                else:
                    extra.append(m)
            members = [inner]
            changed = True
        if any(is_union(m) for m in members):
            flat = []
            for m in members:
                flat += list(typing.get_args(m)) if is_union(m) else [m]
            members = flat
            changed = True
        if type(None) in members:
            optional = True
            members = [m for m in members if m is not type(None)]
            changed = True
    return key, optional, members, extra


def meta(extra, kind):
    found = [m for m in extra if isinstance(m, kind)]
    return found[0] if found else None


def same_value(S, meta, attribute, value):
    "Whether an annotation states a value, and is omitted if there is no value."

    if value is None:
        return meta is None
    return meta is not None and S.eq(getattr(meta, attribute), value)


def corresponds(S, annotation, sql_type):
    "Whether a Python type has the values that a column type has."

    _, _, members, extra = read(annotation)
    if isinstance(sql_type, SqlJsonType):
        return members == read(JsonType)[2] and extra == read(JsonType)[3]
    if len(members) != 1:
        return False
    base = members[0]
    if isinstance(sql_type, SqlArrayType):
        return typing.get_origin(base) is list and corresponds(S, typing.get_args(base)[0], sql_type.element_type)
    if isinstance(sql_type, SqlBooleanType):
        return base is bool and not extra
    if isinstance(sql_type, SqlIntegerType):
        signed, storage = meta(extra, Signed), meta(extra, Storage)
        if base is not int:
            return False
        if storage is None:
            # any integer
            return S.not_(S.any([S.eq(sql_type.width, w) for w in (1, 2, 4, 8)]))
        is_signed = signed is None or signed.is_signed
        return S.all([S.eq(storage.bytes, sql_type.width), S.eq(sql_type.signed, is_signed)])
    if isinstance(sql_type, SqlRealType):
        return annotation_is(annotation, float32)
    if isinstance(sql_type, SqlDoubleType):
        return annotation_is(annotation, float64) or base is float and not extra
    if isinstance(sql_type, SqlFloatType):
        return base is float and same_value(S, meta(extra, Precision), "significant_digits", sql_type.precision)
    if isinstance(sql_type, SqlDecimalType):
        p = meta(extra, Precision)
        if base is not decimal.Decimal or not same_value(S, p, "significant_digits", sql_type.precision):
            return False
        return p is None or S.eq(p.decimal_digits, 0 if sql_type.scale is None else sql_type.scale)
    if isinstance(sql_type, SqlTimestampType):
        return base is datetime.datetime and same_value(
            S, meta(extra, TimePrecision), "decimal_digits", sql_type.precision
        )
    if isinstance(sql_type, SqlDateType):
        return base is datetime.date and not extra
    if isinstance(sql_type, SqlTimeType):
        return base is datetime.time and same_value(S, meta(extra, TimePrecision), "decimal_digits", sql_type.precision)
    if isinstance(sql_type, SqlFixedCharacterType):
        return base is str and same_value(S, meta(extra, Length), "value", sql_type.limit)
    if isinstance(sql_type, SqlVariableCharacterType):
        return base is str and same_value(S, meta(extra, MaxLength), "value", sql_type.limit)
    if isinstance(sql_type, SqlUuidType):
        return base is uuid.UUID and not extra
    return False


def annotation_is(annotation, expected):
    "Whether a type, which may be optional or marked as the key, is one that has a name."

    metas = [m for m in read(annotation)[3]]
    return read(annotation)[2] == read(expected)[2] and metas == read(expected)[3]


def symbolic_type(S, kind, name="type"):
    "A column type with arbitrary properties."

    def optional(what, low, high):
        return S.int(f"{name} {what}", low, high) if S.bool(f"{name} has {what}") else None

    if kind == "integer":
        return SqlIntegerType(S.int(f"{name} width", 1, 8), S.bool(f"{name} signed"))
    elif kind == "float":
        return SqlFloatType(optional("precision", 1, 53))
    elif kind == "decimal":
        precision = optional("precision", 1, 38)
        return SqlDecimalType(precision, optional("scale", 0, 38) if precision is not None else None)
    elif kind == "timestamp":
        return SqlTimestampType(optional("precision", 0, 9), S.bool(f"{name} zone"))
    elif kind == "time":
        return SqlTimeType(optional("precision", 0, 9), S.bool(f"{name} zone"))
    elif kind == "char":
        return SqlFixedCharacterType(optional("limit", 1, 1 << 31))
    elif kind == "varchar":
        return SqlVariableCharacterType(optional("limit", 1, 1 << 31))
    return {
        "boolean": SqlBooleanType,
        "real": SqlRealType,
        "double": SqlDoubleType,
        "date": SqlDateType,
        "uuid": SqlUuidType,
        "json": SqlJsonType,
    }[kind]()


KINDS = [
    "boolean", "integer", "real", "double", "float", "decimal", "timestamp", "date", "time", "char", "varchar", "uuid", "json"
]


@harness("C24", params=grid(kind=KINDS, depth=[0, 2]), thorough=grid(kind=KINDS, depth=[0, 1, 2, 3]))
def types_of_columns(S, kind, depth):
    "The type of a field is that of the column, for any type properties, nested in arrays or not."

    m = Models("postgresql")
    data_type = symbolic_type(S, kind)
    for _ in range(depth):
        data_type = SqlArrayType(data_type)
    nullable = S.bool("nullable")
    other = S.int("size", 1, 1 << 31)
    table = m.table(
        "public",
        "Data",
        [
            m.column("id", SqlIntegerType(8)),
            m.column("value", data_type, nullable),
            m.column("text", SqlVariableCharacterType(other)),
        ],
        "id",
    )
    cls, _ = derive(S, table, {"public": "nschema"})
    with Annotations(S):
        fields = {f.name: f.type for f in dataclasses.fields(cls)}
        S.check(list(fields) == ["id", "value", "text"], "one field for each column")
        S.check(corresponds(S, fields["id"], SqlIntegerType(8)), "type of the key")
        S.check(corresponds(S, fields["value"], data_type), f"field has the type of the column: {kind}")
        S.check(corresponds(S, fields["text"], SqlVariableCharacterType(other)), "type of another field")
        key, optional, _, _ = read(fields["value"])
        S.check(not key, "field is not the key")
        # JSON data includes the value `null`
        S.check(
            (kind == "json" and depth == 0) or S.eq(nullable, optional),
            "field is optional exactly if the column accepts NULL",
        )


NAMES = [("id", "name", "value"), ("from", "match", "class"), ("class", "import", "_x")]
KEYS = [(0,), (1,), (2,), (0, 2), (2, 1)]


DEFAULTS = ["0", "'text'", ""]
ASPECTS = ["nullable", "default", "description"]


@harness(
    "C24",
    params=grid(names=NAMES, key=KEYS, aspect=ASPECTS),
    thorough=grid(names=NAMES, key=KEYS + [(0, 1, 2)], aspect=ASPECTS)
    + grid(names=NAMES[1:2], key=[(0, 2), (2, 1)], aspect=["all"]),
)
def columns(S, names, key, aspect):
    "Fields have the nullability, key, default and description of the columns, in order."

    m = Models("postgresql")
    columns = []
    spec = {}
    for i, name in enumerate(names):
        nullable = default = description = None
        if aspect in ("nullable", "all"):
            nullable = S.bool(f"{name} nullable") if i not in key else False
        else:
            nullable = i not in key and i % 2 == 1
        if aspect in ("default", "all"):
            default = S.choose(f"{name} default", DEFAULTS) if S.bool(f"{name} has default") else None
        if aspect in ("description", "all"):
            description = S.str(f"{name} description", 1, 2, LOWER) if S.bool(f"{name} has description") else None
        limit = S.int("size", 1, 1 << 31) if i == 1 else i + 1
        columns.append(
            m.column(name, SqlVariableCharacterType(limit), nullable, default=default, description=description)
        )
        spec[python_name(name)] = (i in key, nullable, default, description, limit)
    description = None
    if aspect in ("description", "all"):
        description = S.str("description", 1, 2, LOWER) if S.bool("has description") else None
    class_name = S.choose("class", ["Item", "class", "type"]) if aspect == "nullable" else "Item"
    table = m.table("public", class_name, columns, [names[k] for k in key], description=description)
    cls, modules = derive(S, table, {"public": "nschema", None: "nglobal"})

    S.check(cls.__name__ == python_name(class_name), "class has the name of the table")
    S.check(cls.__module__ == "nschema", "class belongs to the module of the schema")
    public = [n for n in vars(modules["public"]) if not n.startswith("__")]
    S.check(public == [cls.__name__] and getattr(modules["public"], cls.__name__) is cls, "module has the class")
    S.check(not [n for n in vars(modules[None]) if not n.startswith("__")], "other modules are left alone")

    with Annotations(S):
        fields = dataclasses.fields(cls)
        order = [n for n in spec if spec[n][2] is None] + [n for n in spec if spec[n][2] is not None]
        S.check([f.name for f in fields] == order, "fields without a default, then those with one, in column order")
        doc = cls.__doc__
        if description is not None:
            S.check((doc + "\n").startswith(description + "\n"), "class has the description of the table")
        lines = "\n" + doc + "\n"
        for f in fields:
            is_key, nullable, default, about, limit = spec[f.name]
            key_found, optional, _, _ = read(f.type)
            S.check(key_found == is_key, f"field is marked as the key exactly if it belongs to the key: {f.name}")
            S.check(S.eq(nullable, optional), f"field is optional exactly if the column accepts NULL: {f.name}")
            S.check(corresponds(S, f.type, SqlVariableCharacterType(limit)), f"field has the type of the column: {f.name}")
            if default is None:
                S.check(f.default is dataclasses.MISSING, f"field has no default: {f.name}")
            else:
                S.check(
                    f.default is not dataclasses.MISSING and S.eq(f.default, default), f"field has the default: {f.name}"
                )
            if about is None:
                S.check(f":param {f.name}:" not in lines, f"field has no description: {f.name}")
            else:
                S.check(f"\n:param {f.name}: {about}\n" in lines, f"field has the description of the column: {f.name}")


REFERENCES = ["same schema", "other schema", "keyword", "discriminated", "two schemas", "pair", "itself", "unique", "check"]


@harness("C24", params=grid(kind=REFERENCES))
def references(S, kind, dialect="postgresql"):
    "A field refers to the class of the table that its column refers to, and accepts None as the column does."

    m = Models(dialect)
    key = S.choose("key", ["id", "first"])
    nullable = [S.bool(f"column {i} nullable") for i in range(2)]
    names = ("first", "second")
    columns = [m.column("id", m.int(), key != "id" and S.bool("id nullable"))] + [
        m.column(n, m.int(), S.all([b, key != n])) for n, b in zip(names, nullable)
    ]
    position = S.choose("column", [0, 1])
    column = names[position]
    expected = {}

    def ref(schema, table):
        return ConstraintReference(tid(dialect, schema, table), (LocalId("id"),))

    if kind == "same schema":
        constraints = [m.foreign("fk", (column,), "public", "Person", ("id",))]
        expected[column] = ["public.Person"]
    elif kind == "other schema":
        constraints = [
            m.foreign("fk", (column,), "other", "Person", ("id",)),
            m.foreign("fk2", (names[1 - position],), "public", "Place", ("id",)),
        ]
        expected[column] = ["other.Person"]
        expected[names[1 - position]] = ["public.Place"]
    elif kind == "keyword":
        constraints = [m.foreign("fk", (column,), "public", "class", ("id",))]
        expected[column] = ["public.class_"]
    elif kind == "discriminated":
        constraints = [DiscriminatedConstraint(LocalId("dk"), (LocalId(column),), [ref("public", "A"), ref("public", "B")])]
        expected[column] = ["public.A", "public.B"]
    elif kind == "two schemas":
        constraints = [
            DiscriminatedConstraint(
                LocalId("dk"), (LocalId(column),), [ref("public", "A"), ref("other", "A"), ref("other", "B")]
            )
        ]
        expected[column] = ["public.A", "other.A", "other.B"]
    elif kind == "pair":
        constraints = [m.foreign("fk", names, "public", "Pair", ("id", "part"))]
        expected = {n: ["public.Pair"] for n in names}
    elif kind == "itself":
        constraints = [m.foreign("fk", (column,), "public", "Item", ("id",))]
        expected[column] = ["public.Item"]
    elif kind == "unique":
        constraints = [m.unique("uq", (column,)), m.foreign("fk", (column,), "public", "Person", ("id",))]
        if S.bool("reverse"):
            constraints.reverse()
        expected[column] = ["public.Person"]
    else:
        constraints = [m.check("ck", '"first" > 0'), m.unique("uq", names)]
    table = m.table("public", "Item", columns, key, constraints)
    cls, _ = derive(S, table, {"public": "npublic", "other": "nother"})

    with Annotations(S):
        fields = dataclasses.fields(cls)
        S.check([f.name for f in fields] == ["id", "first", "second"], "one field for each column")
        for f in fields:
            c = table.columns[f.name]
            is_key, optional, members, _ = read(f.type)
            S.check(is_key == (f.name == key), f"field is marked as the key exactly if it is the key: {f.name}")
            S.check(S.eq(c.nullable, optional), f"field is optional exactly if the column accepts NULL: {f.name}")
            if f.name in expected:
                found = sorted(target_of(t) for t in members)
                S.check(
                    found == sorted("n" + t for t in expected[f.name]),
                    f"field refers to the class of the table: {f.name}",
                )
            else:
                S.check(corresponds(S, f.type, c.data_type), f"field has the type of the column: {f.name}")
