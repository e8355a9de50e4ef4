"A model that is derived from classes defines everything that it refers to."

import enum
import sys
import types
from dataclasses import make_dataclass
from typing import Annotated, ForwardRef, Optional, Union

from pysqlsync.formation.object_types import CheckConstraint, DiscriminatedConstraint, ForeignConstraint, UniqueConstraint
from pysqlsync.formation.py_to_sql import ArrayMode, EnumMode, StructMode
from pysqlsync.model.data_types import SqlArrayType, SqlUserDefinedType
from pysqlsync.model.id_types import GlobalId
from pysqlsync.model.key_types import PrimaryKey, Unique

from strong_typing.auxiliary import IntegerRange

from symex.api import LOWER, grid, harness

from .c14_columns import MODES
from .common import DIALECTS, generator, has_schemas, tid
from .refdb import Database
from .schemas import check_schema, execute, is_empty

NAMES = ("nfirst", "nsecond", "nthird")


def make_module(name):
    full = f"{__name__}_{name}"
    if full not in sys.modules:
        sys.modules[full] = types.ModuleType(full)
    return sys.modules[full]


def define(cls, module):
    cls.__module__ = module.__name__
    setattr(module, cls.__name__, cls)
    return cls


class World:
    "Classes in modules; an object is needed if a class that is converted refers to it."

    def __init__(self, where):
        self.modules = [make_module(n) for n in NAMES]
        for m in self.modules:
            for name in [n for n in vars(m) if not n.startswith("__")]:
                delattr(m, name)
        self.where = where

    def place(self, what):
        return self.modules[self.where.get(what, 0)]

    def schema(self, what):
        return NAMES[self.where.get(what, 0)]

    def build(self):
        self.nlabel = define(enum.Enum("nlabel", {"A": "a", "B": "b"}), self.place("enum"))
        self.nsingle = define(enum.Enum("nsingle", {"A": "a"}), self.place("enum"))
        self.nleaf = define(make_dataclass("nleaf", [("nx", int)]), self.place("leaf"))
        self.nstruct = define(make_dataclass("nstruct", [("ny", str), ("nz", self.nleaf)]), self.place("struct"))
        self.nmember = define(make_dataclass("nmember", [("nv", self.nlabel)]), self.place("struct"))
        self.nother = define(make_dataclass("nother", [("nkey", PrimaryKey[int]), ("nremark", str)]), self.place("other"))
        self.nthird = define(make_dataclass("nthird", [("nkey", PrimaryKey[int]), ("nnext", self.nother)]), self.place("third"))


# the type of a field, and what it needs: tables, enumerations, composite types
FIELDS = {
    "number": (lambda w: int, ""),
    "reference": (lambda w: w.nother, "nother"),
    "optional reference": (lambda w: Optional[w.nother], "nother"),
    "unique reference": (lambda w: Unique[w.nother], "nother"),
    "indirect": (lambda w: w.nthird, "nthird nother"),
    "self": (lambda w: Optional[ForwardRef("nmain")], ""),
    "either": (lambda w: Union[w.nother, w.nthird], "nother nthird"),
    "list of entities": (lambda w: list[w.nother], "nother join"),
    "set of entities": (lambda w: set[w.nother], "nother join"),
    "enum": (lambda w: w.nlabel, "nlabel"),
    "optional enum": (lambda w: Optional[w.nlabel], "nlabel"),
    "single": (lambda w: w.nsingle, "nsingle"),
    "extensible": (lambda w: Union[w.nsingle, str], "+nsingle"),
    "open": (lambda w: Union[w.nlabel, str, None], "+nlabel"),
    "list of enums": (lambda w: list[w.nlabel], "*nlabel"),
    "set of enums": (lambda w: set[w.nlabel], "*nlabel"),
    "struct": (lambda w: w.nleaf, "nleaf"),
    "optional nested struct": (lambda w: Optional[w.nstruct], "nstruct nleaf"),
    "list of structs": (lambda w: list[w.nstruct], "nstruct nleaf"),
    "struct with enum": (lambda w: w.nmember, "nmember .nlabel"),
    "list of numbers": (lambda w: list[int], ""),
}

ENUMS = ("nlabel", "nsingle")
STRUCTS = ("nleaf", "nstruct", "nmember")


def refused(kind, modes):
    "Whether the conversion is refused with an error, as documented."

    e, s, a = modes
    if a is ArrayMode.RELATION:
        if kind in ("list of structs", "list of numbers"):
            return True
        if kind in ("list of enums", "set of enums") and e is not EnumMode.RELATION:
            return True
    return False


def place_of(world, name):
    if name in ENUMS:
        return world.schema("enum")
    return world.schema({"nleaf": "leaf", "nstruct": "struct", "nmember": "struct", "nother": "other", "nthird": "third", "nmain": "main"}[name])


def expected_objects(world, kinds, modes):
    "Tables, enumerations and composite types of the model, with the schema of each."

    e, s, a = modes
    tables, enums, structs = {("nmain", world.schema("main"))}, set(), set()
    spare = set()  # may be there, too
    joins = 0
    for kind in kinds:
        for need in FIELDS[kind][1].split():
            if need == "join":
                joins += 1
                continue
            marker, name = (need[0], need[1:]) if not need[0].isalpha() else ("", need)
            at = (name, place_of(world, name))
            if name in STRUCTS:
                if s is StructMode.TYPE:
                    if kind.startswith("list") and a is not ArrayMode.ARRAY:
                        spare.add(at)
                    else:
                        structs.add(at)
            elif name in ENUMS:
                if marker == "+":
                    tables.add(at)
                elif marker == "." and (s is not StructMode.TYPE or e is EnumMode.RELATION):
                    spare.add(at)
                elif marker == "*" and a is ArrayMode.JSON:
                    spare.add(at)
                elif e is EnumMode.RELATION:
                    if marker == "*" and a is ArrayMode.RELATION:
                        joins += 1
                    tables.add(at)
                elif e is EnumMode.TYPE:
                    enums.add(at)
            else:
                tables.add(at)
    return tables, enums, structs, spare, joins


def at(dialect, id):
    "The name and schema of an object."

    if not has_schemas(dialect):
        schema, _, name = id.local_id.partition("__")
        return name, schema
    return id.local_id, id.scope_id


def user_types(data_type):
    while isinstance(data_type, SqlArrayType):
        data_type = data_type.element_type
    if isinstance(data_type, SqlUserDefinedType) and not isinstance(data_type.ref, GlobalId):
        return [data_type.ref]
    return []


def check_closed(S, catalog):
    "References within a model."

    tables = {}
    types = set()
    for ns in catalog.namespaces.values():
        for t in ns.tables.values():
            S.check(t.name not in tables, "a table appears once")
            tables[t.name] = t
        for t in list(ns.enums.values()) + list(ns.structs.values()):
            S.check(t.name not in types and t.name not in tables, "a type appears once")
            types.add(t.name)
    for ns in catalog.namespaces.values():
        for s in ns.structs.values():
            for m in s.members.values():
                S.check(all(r in types for r in user_types(m.data_type)), "the type of a member is part of the model")
    for t in tables.values():
        for c in t.columns.values():
            S.check(all(r in types for r in user_types(c.data_type)), "the type of a column is part of the model")
        S.check(len(t.primary_key) == 1 and all(n in [c.name for c in t.columns.values()] for n in t.primary_key), "the key is a column")
        for c in t.constraints.values():
            if isinstance(c, UniqueConstraint):
                S.check(all(n in [c.name for c in t.columns.values()] for n in c.unique_columns), "a unique column exists")
            refs = []
            if isinstance(c, ForeignConstraint):
                refs = [c.reference]
            elif isinstance(c, DiscriminatedConstraint):
                refs = c.references
            for r in refs:
                target = tables.get(r.table)
                if target is None:
                    S.fail("the table that a foreign key refers to is part of the model")
                    return
                S.check(tuple(r.columns) == tuple(target.primary_key), "a foreign key refers to the key of the table")
                S.check(
                    [str(t.columns[n.local_id].data_type) for n in c.foreign_columns] == [str(target.columns[n.local_id].data_type) for n in r.columns],
                    "a foreign key has the type of the key",
                )


def options_of(S, dialect, mode):
    struct = {"postgresql": [StructMode.TYPE, StructMode.JSON]}.get(dialect, [StructMode.JSON])
    array = {"postgresql": [ArrayMode.ARRAY, ArrayMode.JSON, ArrayMode.RELATION]}.get(dialect, [ArrayMode.JSON, ArrayMode.RELATION])
    return EnumMode[mode], S.choose("struct mode", struct), S.choose("array mode", array)


def convert(S, dialect, world, kinds, modes, given=("nmain",), **options):
    world.build()
    fields = [("nid", PrimaryKey[int])] + [(f"n{chr(ord('a') + i)}", FIELDS[k][0](world)) for i, k in enumerate(kinds)]
    world.nmain = define(make_dataclass("nmain", fields), world.place("main"))
    gen = generator(
        dialect,
        namespaces={m: n for m, n in zip(world.modules, NAMES)},
        enum_mode=modes[0],
        struct_mode=modes[1],
        array_mode=modes[2],
        **options,
    )
    return gen, gen.converter.dataclasses_to_catalog([getattr(world, n) for n in given])


EDGES = {"nthird": ["other"], "nstruct": ["leaf"], "nmember": ["enum"]}


def is_cyclic(world, kinds):
    "Whether schemas refer to one another, which is refused."

    graph = {}

    def add(a, b):
        if a != b:
            graph.setdefault(a, set()).add(b)

    for kind in kinds:
        for need in FIELDS[kind][1].replace("*", "").replace("+", "").replace(".", "").split():
            if need != "join":
                add(world.schema("main"), place_of(world, need))
                for what in EDGES.get(need, ()):
                    add(place_of(world, need), world.schema(what))

    def reach(a, seen):
        for b in graph.get(a, ()):
            if b not in seen:
                seen.add(b)
                reach(b, seen)
        return seen

    return any(a in reach(a, set()) for a in NAMES)


def exactly(S, found, needed, spare, label):
    S.check(len(set(found)) == len(found), f"{label}: {found}")
    S.check(needed <= set(found) and set(found) - needed <= spare, f"{label}: {found}")


def check_model(S, dialect, world, kinds, modes, initialize):
    try:
        gen, catalog = convert(S, dialect, world, kinds, modes, initialize_tables=initialize)
    except TypeError:
        S.check(any(refused(k, modes) for k in kinds), "the classes can be converted")
        return
    S.check(not any(refused(k, modes) for k in kinds), "lists without a representation are refused")
    check_closed(S, catalog)
    tables, enums, structs, spare, joins = expected_objects(world, kinds, modes)
    found = [at(dialect, t.name) for ns in catalog.namespaces.values() for t in ns.tables.values()]
    own = [f for f in found if not f[0].startswith("nmain_")]
    S.check(len(found) - len(own) == joins, "each list of references has a table")
    exactly(S, own, tables, spare, "each class and enumeration that needs a table has one")
    exactly(S, [at(dialect, x.name) for ns in catalog.namespaces.values() for x in ns.enums.values()], enums, spare, "each enumeration that needs a type has one")
    exactly(S, [at(dialect, x.name) for ns in catalog.namespaces.values() for x in ns.structs.values()], structs, spare, "each class that needs a type has one")
    for ns in catalog.namespaces.values():
        for x in list(ns.tables.values()) + list(ns.enums.values()) + list(ns.structs.values()):
            S.check(not has_schemas(dialect) or x.name.scope_id == ns.name.local_id, "an object is in its schema")
    db = Database(dialect)
    if not execute(S, db, gen.get_mutate_stmt(catalog)):
        return
    check_schema(S, db, catalog)
    gen.state = catalog
    if execute(S, db, gen.drop()):
        S.check(is_empty(db), "nothing remains when the schema is dropped")


MODE_GRID = [{"dialect": d, "mode": m.name} for d in DIALECTS for m in MODES[d]]


@harness("C15", params=MODE_GRID)
def placement(S, dialect, mode):
    "One field of any kind; the classes it needs are in any of several modules."

    modes = options_of(S, dialect, mode)
    kind = S.choose("field", list(FIELDS))
    needs = FIELDS[kind][1]
    where = {}
    for what, names in (("enum", ENUMS), ("leaf", ("nleaf",)), ("struct", ("nstruct", "nmember")), ("other", ("nother",)), ("third", ("nthird",))):
        if any(n in needs for n in names):
            where[what] = S.choose(what, [0, 1, 2])
    initialize = S.choose("initialize", [False, True]) if any(n in needs for n in ENUMS) else False
    world = World(where)
    S.assume(not is_cyclic(world, [kind]))
    check_model(S, dialect, world, [kind], modes, initialize)


# pairs of fields, of which the second is one that involves tables or types
PAIRED = ["reference", "self", "list of entities", "enum", "single", "extensible", "list of enums", "optional nested struct", "list of structs"]


@harness("C15", params=[{"dialect": "oracle", "mode": "RELATION"}, {"dialect": "mysql", "mode": "INLINE"}, {"dialect": "postgresql", "mode": "TYPE", "few": True}], thorough=MODE_GRID)
def pairs(S, dialect, mode, few=False):
    "Two fields of any kinds."

    modes = options_of(S, dialect, mode)
    kinds = [S.choose("first", [k for k in FIELDS if not few or "enum" in k or k in ("extensible", "open")]), S.choose("second", PAIRED)]
    world = World({w: S.choose(w, [0, 1]) for w in ("enum", "struct", "other") if any(uses(k, w) for k in kinds)})
    S.assume(not is_cyclic(world, kinds))
    needs = " ".join(FIELDS[k][1] for k in kinds).split()
    S.known("type-and-table", mode == "TYPE" and any("+" + e in needs and any(n != "+" + e and n.endswith(e) for n in needs) for e in ENUMS))
    check_model(S, dialect, world, kinds, modes, True)


def uses(kind, what):
    names = {"enum": ENUMS, "struct": ("nstruct", "nmember"), "other": ("nother",)}[what]
    return any(n in FIELDS[kind][1] for n in names)


class Named(type):
    "A class with a symbolic name."

    @property
    def __name__(cls):
        found = cls.__dict__.get("_given")
        return type.__dict__["__name__"].__get__(cls) if found is None else found


class NamedEnum(enum.EnumMeta):
    @property
    def __name__(cls):
        found = type.__getattribute__(cls, "__dict__").get("_given")
        return type.__dict__["__name__"].__get__(cls) if found is None else found


class Base(metaclass=Named):
    pass


def entity(module, name, fields, names):
    cls = make_dataclass("nentity", fields, bases=(Base,))
    cls.__module__ = module.__name__
    cls._given = name
    for f, given in zip(cls.__dataclass_fields__.values(), names):
        f.name = given
    return cls


def enumeration(module, name):
    cls = NamedEnum("nenumeration", (enum.Enum,), enum_members({"A": "a", "B": "b"}))
    cls.__module__ = module.__name__
    type.__setattr__(cls, "_given", name)
    return cls


def enum_members(members):
    out = enum.EnumMeta.__prepare__("nenumeration", (enum.Enum,))
    for k, v in members.items():
        out[k] = v
    return out


# constraints whose names have a scope wider than the table, and whether that scope includes the names of tables
SCOPES = {
    "postgresql": (("pk", "uq"), True),
    "redshift": (("pk", "uq"), True),
    "mysql": (("fk", "ch"), False),
    "mssql": (("pk", "uq", "fk", "ch"), True),
    "oracle": (("pk", "uq", "fk", "ch"), False),
}


def check_names(S, dialect, catalog):
    "Names of tables and constraints are unique in their scope."

    kinds, mixed = SCOPES.get(dialect, ((), False))
    for ns in catalog.namespaces.values():
        scope = []
        tables = list(ns.tables.values())
        for i, t in enumerate(tables):
            own = [("pk", t.primary_key_constraint_id)]
            for c in t.constraints.values():
                if not isinstance(c, DiscriminatedConstraint):
                    own.append(({UniqueConstraint: "uq", ForeignConstraint: "fk", CheckConstraint: "ch"}[type(c)], c.name))
            for k, (_, n) in enumerate(own):
                for _, m in own[:k]:
                    S.check(S.not_(S.eq(n.local_id, m.local_id)), "constraints of a table have different names")
            columns = [c.name.local_id for c in t.columns.values()]
            for k, n in enumerate(columns):
                for m in columns[:k]:
                    S.check(S.not_(S.eq(n, m)), "columns of a table have different names")
            scope.append([n.local_id for k, n in own if k in kinds])
            for u in tables[:i]:
                S.check(S.not_(S.eq(t.name.local_id, u.name.local_id)), "tables have different names")
        for i, own in enumerate(scope):
            for other in scope[:i]:
                for n in own:
                    for m in other:
                        S.check(S.not_(S.eq(n, m)), "constraints in the same scope have different names")
            if mixed:
                for n in own:
                    for t in tables:
                        S.check(S.not_(S.eq(n, t.name.local_id)), "tables and constraints in the same scope have different names")


@harness("C15", params=[dict(g, size=1) for g in MODE_GRID], thorough=[dict(g, size=2) for g in MODE_GRID])
def names(S, dialect, mode, size):
    "Names of classes and fields are symbolic; classes of different modules may have the same name."

    kind = S.choose("field", ["reference", "enum", "extensible", "list", "unique", "range", "either", "enums"])
    mods = [make_module(n) for n in NAMES]
    where = S.choose("module", [0, 1])
    main, other = S.str("main", 1, size, LOWER), S.str("other", 1, size, LOWER)
    if where == 0:
        S.assume(S.not_(S.eq(main, other)))
    fields = [S.str(f"field{i}", 1, size, LOWER) for i in range(3)]
    for i, a in enumerate(fields):
        for b in fields[:i]:
            S.assume(S.not_(S.eq(a, b)))
    third = None
    modes = EnumMode[mode], StructMode.JSON, S.choose("array mode", [ArrayMode.JSON, ArrayMode.RELATION]) if kind == "list" else ArrayMode.RELATION
    t2 = None
    if kind == "enums":
        third = S.str("third", 1, size, LOWER)
        t = enumeration(mods[where], other)
        t2 = enumeration(mods[S.choose("second module", [0, 1])], third)
        S.assume(t2.__module__ != t.__module__ or S.not_(S.eq(third, other)))
        S.assume(t2.__module__ != mods[0].__name__ or S.not_(S.eq(third, main)))
        classes = []
    elif kind in ("enum", "extensible"):
        e = enumeration(mods[where], other)
        t = e if kind == "enum" else Union[e, str]
        classes = []
    else:
        b = entity(mods[where], other, [("nkey", PrimaryKey[int]), ("nvalue", str)], [S.str("key", 1, size, LOWER), "nvalue"])
        t = {"reference": b, "list": list[b], "unique": Unique[int], "range": Annotated[int, IntegerRange(1, 9)], "either": None}[kind]
        if kind == "either":
            third = S.str("third", 1, size, LOWER)
            S.assume(S.not_(S.eq(third, other)))
            S.assume(S.not_(S.eq(third, main)))
            t = Union[b, entity(mods[where], third, [("nkey", PrimaryKey[int]), ("nvalue", str)], ["nid", "nvalue"])]
        classes = [b]
    a = entity(mods[0], main, [("na", PrimaryKey[int]), ("nb", t), ("nc", t if t2 is None else t2)], fields)
    gen = generator(dialect, namespaces={m: n for m, n in zip(mods, NAMES)}, enum_mode=modes[0], array_mode=modes[2])
    catalog = gen.converter.dataclasses_to_catalog([a] + classes)
    check_closed(S, catalog)
    check_names(S, dialect, catalog)


@harness("C15", params=grid(dialect=DIALECTS))
def modules(S, dialect):
    "All classes defined in a list of modules, which may import classes of each other."

    world = World({"main": 0, "other": S.choose("other in", [0, 1]), "third": S.choose("third in", [1, 2])})
    world.build()
    refers = S.bool("refers")
    world.nmain = define(make_dataclass("nmain", [("nid", PrimaryKey[int]), ("na", world.nother if refers else int)]), world.place("main"))
    # classes imported by a module, perhaps by another name
    imported = S.choose("imported", [None, "nthird", "nother", "nalias"])
    if imported:
        setattr(world.modules[S.choose("imported by", [0, 1])], imported, world.nthird if imported == "nthird" else world.nother)
    chosen = S.choose("modules", [(0,), (1,), (2,), (0, 1), (1, 0), (2, 0), (0, 1, 2)])
    needed = {n for n in ("nmain", "nother", "nthird") if world.modules.index(sys.modules[getattr(world, n).__module__]) in chosen}
    if "nthird" in needed or (refers and "nmain" in needed):
        needed.add("nother")
    gen = generator(dialect, namespaces={m: n for m, n in zip(world.modules, NAMES)})
    catalog = gen.converter.modules_to_catalog([world.modules[i] for i in chosen])
    check_closed(S, catalog)
    found = sorted(t.name.local_id for ns in catalog.namespaces.values() for t in ns.tables.values())
    expected = sorted(tid(dialect, place_of(world, n), n).local_id for n in needed)
    S.check(found == expected, "there is a table for each class that the modules define or that these refer to")
