"Reshaping a class keeps its fields, their types, default values and documentation."

import dataclasses
import datetime
import sys
import types
from typing import Annotated, Optional

from strong_typing.auxiliary import MaxLength
from strong_typing.docstring import parse_type
from strong_typing.inspection import DataclassField

from pysqlsync.formation.inspection import dataclass_primary_key_name, dataclass_primary_key_type
from pysqlsync.model.entity_types import key_value_fields, make_entity
from pysqlsync.model.key_types import PrimaryKey, Unique
from pysqlsync.util.dataclasses import flatten_dataclass, make_dataclass

from symex.api import grid, harness

TYPES = {
    "int": int,
    "text": Annotated[str, MaxLength(8)],
    "optional": Optional[datetime.date],
    "unique": Unique[int],
    "list": list[int],
}
MISSING = dataclasses.MISSING


class Module:
    "A module for the duration of a test."

    def __init__(self, name="nmodule"):
        self.module = types.ModuleType(name)

    def __enter__(self):
        sys.modules[self.module.__name__] = self.module
        return self.module

    def __exit__(self, *args):
        del sys.modules[self.module.__name__]


class Spec:
    "What a field of a class is meant to be."

    def __init__(self, name, type, default=MISSING, factory=MISSING, doc=None):
        self.name = name
        self.type = type
        self.default = default
        self.factory = factory
        self.doc = doc

    @property
    def required(self):
        return self.default is MISSING and self.factory is MISSING

    def definition(self):
        if self.factory is not MISSING:
            return (self.name, self.type, dataclasses.field(default_factory=self.factory))
        if self.default is not MISSING:
            return (self.name, self.type, self.default)
        return (self.name, self.type)


def field_spec(S, name, kinds, factories=True, after=None, documented=None):
    "Describes a field that comes after another."
    kind = S.choose(f"type of {name}", kinds)
    if documented is None:
        documented = bool(S.bool(f"doc of {name}"))
    doc = f"Text of {name}: first, second." if documented else None
    if (after is None or after.required) and not S.bool(f"default of {name}"):
        return Spec(name, TYPES[kind], doc=doc)
    if kind in ("int", "unique"):
        return Spec(name, TYPES[kind], S.choose(f"number of {name}", [0, 7]), doc=doc)
    if kind == "text":
        return Spec(name, TYPES[kind], S.choose(f"text of {name}", ["", "value"]), doc=doc)
    if kind == "list":
        S.assume(factories)
        return Spec(name, TYPES[kind], factory=list, doc=doc)
    return Spec(name, TYPES[kind], None, doc=doc)


def field_specs(S, prefix, count, kinds, factories=True):
    documented = S.choose(f"doc of {prefix}", [*range(count), count])
    specs = []
    for i in range(count):
        specs.append(field_spec(S, f"{prefix}{i}", kinds, factories, specs[-1] if specs else None, i != documented))
    return specs


def define(S, module, name, specs, text):
    seen = False
    for s in specs:
        S.assume(not seen or not s.required)
        seen = seen or not s.required
    cls = dataclasses.make_dataclass(name, [s.definition() for s in specs], module=module.__name__)
    params = "".join(f"\n:param {s.name}: {s.doc}" for s in specs if s.doc is not None)
    cls.__doc__ = f"{text}\n{params}" if params else text
    setattr(module, name, cls)
    return cls


def same_default(S, expected, found):
    if expected.default is MISSING:
        S.check(found is MISSING, "no default value is invented")
    elif expected.default is None:
        S.check(found is None, "a field without a value by default remains so")
    else:
        if found is MISSING or found is None:
            S.fail("a default value is kept")
        S.check(S.eq(found, expected.default), "a default value is kept")


def same_fields(S, specs, found):
    S.check([s.name for s in specs] == [f.name for f in found], "the class has the expected fields in order")
    for s, f in zip(specs, found):
        S.check(s.type == f.type, "the type of a field is kept")
        same_default(S, s, f.default)
        S.check(s.factory is getattr(f, "default_factory", MISSING), "the default factory of a field is kept")


def same_docs(S, specs, cls, text):
    docs = parse_type(cls)
    S.check(docs.short_description == text, "the description of the class is kept")
    S.check(
        {s.name: s.doc for s in specs if s.doc is not None} == {n: p.description for n, p in docs.params.items()},
        "the description of each field is kept",
    )


@harness("C29", params=grid(count=[2, 3]), thorough=grid(count=[4]))
def entity(S, count):
    "A class becomes an entity with the selected key."
    specs = field_specs(S, "nfield", count, ["int", "text", "optional", "list"] if count < 3 else ["int", "optional", "list"])
    # fields that follow a field with a default value have one, too
    index = S.choose(
        "key",
        [
            i
            for i, s in enumerate(specs)
            if s.type is not TYPES["optional"] and s.factory is MISSING and (s.required or not any(o.required for o in specs if o is not s))
        ]
        or [None],
    )
    S.assume(index is not None)
    with Module() as module:
        cls = define(S, module, "NClass", specs, "A class.")
        if S.bool("values"):
            key, values = key_value_fields(cls, f"nfield{index}")
            S.check(key.name == f"nfield{index}" and key.type == specs[index].type, "the key field is found")
            rest = [s for i, s in enumerate(specs) if i != index]
            S.check([v.name for v in values] == [s.name for s in rest], "all other fields are values, in order")
            for s, v in zip(rest, values):
                S.check(v.type == s.type, "the type of a field is kept")
                same_default(S, s, v.default)
            same_default(S, specs[index], key.default)
            return
        made = make_entity(cls, f"nfield{index}")
        S.check(made.__name__ == "NClass" and made.__module__ == "nmodule", "the class keeps its name")
        S.check(module.NClass is made, "the class replaces the original one in its module")
        S.check(dataclass_primary_key_name(made) == f"nfield{index}", "the selected field is the key")
        S.check(dataclass_primary_key_type(made) == specs[index].type, "the key keeps its type")
        key = Spec(specs[index].name, PrimaryKey[specs[index].type], specs[index].default, doc=specs[index].doc)
        expected = [key] + [s for i, s in enumerate(specs) if i != index]
        same_fields(S, expected, dataclasses.fields(made))
        same_docs(S, expected, made, "A class.")


@harness("C29")
def missing_key(S):
    "A key that the class does not have is refused."
    name = S.str("name", 1, 2, ((97, 98),))
    with Module() as module:
        cls = define(S, module, "NClass", [Spec("a", int), Spec("ab", int)], "A class.")
        try:
            make_entity(cls, name)
        except ValueError:
            S.check(name != "a" and name != "ab", "a field that the class has becomes the key")
        else:
            S.check(S.any([name == "a", name == "ab"]), "a field that the class does not have is refused")


def optional(t):
    return t if t == TYPES["optional"] else Optional[t]


@harness("C29", params=grid(members=[1, 2]), thorough=grid(members=[3]))
def flatten(S, members):
    "Composite members are replaced with the fields of their classes."
    few = ["int", "text", "optional", "list"] if members < 3 else ["int", "optional"]
    inner = field_specs(S, "nmember", members, few, factories=False)
    other = field_spec(S, "nother", ["int", "list"], documented=True)
    mode = S.choose("mode", ["required", "optional", "default"])
    place = S.choose("place", ["first", "last"])
    with Module() as module:
        struct = define(S, module, "NStruct", inner, "A composite type.")
        composite = Spec(
            "nstruct",
            struct if mode == "required" else Optional[struct],
            None if mode == "default" else MISSING,
            doc="The composite.",
        )
        outer = [Spec("nkey", PrimaryKey[int])] + ([composite, other] if place == "first" else [other, composite])
        cls = define(S, module, "NClass", outer, "A class.")
        fields, docs = flatten_dataclass(cls)

        # a default factory has no place in a list of fields
        expected = []
        for s in outer:
            if s is not composite:
                expected.append(Spec(s.name, s.type, s.default, doc=s.doc))
                continue
            for m in inner:
                name = f"nstruct__{m.name}"
                if mode == "required":
                    expected.append(Spec(name, m.type, m.default, doc=m.doc))
                elif mode == "default":
                    expected.append(Spec(name, optional(m.type), None, doc=m.doc))
                else:
                    expected.append(Spec(name, optional(m.type), m.default, doc=m.doc))
        same_fields(S, expected, fields)

        seen = False
        for s in expected:
            S.assume(not seen or not s.required)
            seen = seen or not s.required
        made = make_dataclass("NFlat", fields, module=module, docstring=docs)
        S.check(made.__name__ == "NFlat" and made.__module__ == "nmodule", "the class has the name that is asked for")
        S.check(module.NFlat is made, "the class is part of its module")
        same_fields(S, expected, dataclasses.fields(made))
        same_docs(S, expected, made, "A class.")


@harness("C29")
def selection(S):
    "A class has the documentation of its own fields only."
    specs = field_specs(S, "nfield", 3, ["text"])
    keep = [bool(S.bool(f"keep {i}")) for i in range(3)]
    with Module() as module:
        cls = define(S, module, "NClass", specs, "A class.")
        fields, docs = flatten_dataclass(cls)
        kept = [s for s, k in zip(specs, keep) if k]
        fields = [f for f, k in zip(fields, keep) if k]
        if S.bool("added"):
            kept.insert(0, Spec("nadded", int))
            fields.insert(0, DataclassField("nadded", int))
        made = make_dataclass("NPart", fields, module=module, docstring=docs)
        same_fields(S, kept, dataclasses.fields(made))
        same_docs(S, kept, made, "A class.")
