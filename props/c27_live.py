"A live database is synchronised with classes: it is changed to have the objects of the model, and then it is left alone."

import asyncio
import copy
import datetime
import decimal
import enum
import ipaddress
import sys
import types
import uuid
from dataclasses import field, make_dataclass
from typing import Annotated, Optional, Union

from pysqlsync.base import QueryException
from pysqlsync.formation.object_types import FormationError
from pysqlsync.formation.py_to_sql import ArrayMode, EnumMode, StructMode
from pysqlsync.model.id_types import LocalId
from pysqlsync.model.key_types import Identity, PrimaryKey, Unique

from strong_typing.auxiliary import MaxLength, Precision, TimePrecision, float32, int16, int32, int64

from symex.api import PRINTABLE, grid, harness

from .common import engine, fake_context, generator, has_schemas
from .refcatalog import Col, Tab, catalog, default_definition, text_of
from .refdb import Database
from .schemas import check_schema

DIALECTS = ["postgresql", "mysql", "mssql", "oracle"]
COMMENTED = ("postgresql", "mysql")
NAMES = ("nfirst", "nsecond")
# characters that have no meaning in a constant
PLAIN = ((32, 38), (40, 91), (93, 126))


class Server:
    "A database with its catalog."

    def __init__(self, S, dialect, current="ncurrent"):
        self.S = S
        self.dialect = dialect
        self.current = current
        self.db = Database(dialect, current if dialect in ("postgresql", "mssql") else None)
        # in which order the catalog lists objects
        self.reverse = S.choose("reverse", [False, True])
        self.log = []
        self.answers = None
        self.elsewhere = []  # names of tables that another user has, or that are in another database

    def catalog(self):
        S, d = self.S, self.dialect
        flat = d in ("mysql", "oracle")

        def schema(id):
            return id[0] or self.current
        tabs = []

        def column(c):
            return Col(c.name, text_of(c.type), c.nullable, default_definition(S, d, c.type, c.default), c.identity, c.comment)

        for id, t in self.db.tables.items():
            key_name = [n for n, c in t.constraints.items() if c.kind == "primary"]
            tabs.append(
                Tab(
                    None if flat else schema(id),
                    id[1],
                    [column(c) for c in t.columns.values()],
                    t.key(),
                    [(n, c.columns) for n, c in t.constraints.items() if c.kind == "unique"],
                    [(n, c.columns, None if flat else schema(c.ref), c.ref[1], c.ref_columns) for n, c in t.constraints.items() if c.kind == "foreign"],
                    t.comment,
                    key_name[0] if key_name else None,
                )
            )
        if flat:
            num = "number" if d == "oracle" else "bigint"
            for name in self.elsewhere:
                t = Tab("NFOREIGN" if d == "oracle" else None, name, [Col("nid", num)], ["nid"], database="nforeign" if d == "mysql" else None)
                tabs.insert(0, t)
        enums, structs = [], []
        for id, t in self.db.types.items():
            if t.labels is not None:
                enums.append((schema(id), id[1], list(t.labels)))
            else:
                structs.append((schema(id), id[1], [column(m) for m in t.members.values()], t.comment))
        return catalog(S, d, tabs, enums, structs, current=self.current, reverse=self.reverse)

    def answer(self, signature, statement):
        if self.answers is None:
            self.answers = self.catalog()
        return self.answers(signature, statement)

    def execute(self, statement):
        self.log.append(statement)
        self.answers = None
        self.db.execute(statement)

    def client(self, **options):
        "A client that has just connected."

        return Client(self, generator(self.dialect, **options))


class Client:
    def __init__(self, server, gen):
        self.server = server
        self.generator = gen
        self.context = fake_context(server.dialect, gen, server.answer, server.execute)
        self.explorer = engine(server.dialect).create_explorer(self.context)

    def synchronize(self, modules):
        """
        Synchronizes the database.

        :returns: The statements executed.
        """

        del self.server.log[:]
        asyncio.run(self.explorer.synchronize(modules=modules))
        return list(self.server.log)


def make_module(name):
    full = f"{__name__}_{name}"
    if full not in sys.modules:
        sys.modules[full] = types.ModuleType(full)
    module = sys.modules[full]
    for name in [n for n in vars(module) if not n.startswith("__")]:
        delattr(module, name)
    return module


def define(cls, module):
    cls.__module__ = module.__name__
    setattr(module, cls.__name__, cls)
    return cls


def entity(module, name, fields, doc="An entity.", params=()):
    "Defines a class in a module."

    cls = make_dataclass(name, fields)
    cls.__doc__ = doc + "".join(f"\n\n:param {n}: {text}" if i == 0 else f"\n:param {n}: {text}" for i, (n, text) in enumerate(params))
    return define(cls, module)


def settle(S, server, modules, options, refusable=False, same=False, label=""):
    """
    Synchronizes a database with classes, and again.

    :param refusable: Whether the change may be refused.
    :param same: Whether the same client synchronizes once more, too.
    """

    client = server.client(**options)
    try:
        client.synchronize(modules)
    except FormationError as ex:
        S.check(refusable, f"{label}a change that the database supports is not refused: {ex}")
        return False
    except QueryException as ex:
        S.fail(f"{label}the database accepts the statements: {ex}")
        return False
    # the same client, or another one, which knows nothing of the first
    for other in (client, server.client(**options)) if same else (server.client(**options),):
        try:
            log = other.synchronize(modules)
        except (FormationError, QueryException) as ex:
            S.fail(f"{label}a database in the requested state is not changed again: {ex}")
            return False
        S.check(not log, f"{label}a database in the requested state is not changed again")
        if log and not S.symbolic:
            print(label, log)
    return True


def strangers(server, default=True):
    """
    Creates tables that others have.

    :param default: Whether some of these are not in a schema.
    """

    before = set(server.db.tables)
    key = "number" if server.dialect == "oracle" else "bigint"
    script = ""
    if has_schemas(server.dialect):
        names = ['"nelse"."NTarget"', '"nschema1"."NMore"']
        for schema in ("nelse", "nschema1"):
            script += f'CREATE SCHEMA "{schema}";\n'
    else:
        names = ['"nelse__NTarget"', '"nschema1__NMore"']
        if default:
            names += ['"nschemaxxNTable"', '"NTarget"']
    for i, name in enumerate(names):
        script += f'CREATE TABLE {name} ("nid" {key} NOT NULL, CONSTRAINT "pk_other{i}" PRIMARY KEY ("nid"));\n'
    server.db.execute(script)
    return set(server.db.tables) - before


def described(S, server, modules, options, others=(), label=""):
    """
    The database has the objects that the classes describe.

    :param others: The tables of others.
    """

    gen = generator(server.dialect, **options)
    gen.create(modules=modules)
    db = copy.copy(server.db)
    db.schemas = {s: v for s, v in db.schemas.items() if s not in [o[0] for o in others]}
    db.tables = {id: t for id, t in db.tables.items() if id not in others}
    check_schema(S, db, gen.state, ordered=False, comments=server.dialect in COMMENTED, label=label)


def hashed(cls):
    "An annotation whose (symbolic) properties do not take part in its hash code."

    return type(cls.__name__, (cls,), {"__hash__": object.__hash__, "__eq__": object.__eq__})


SymMaxLength = hashed(MaxLength)
SymPrecision = hashed(Precision)


class Label(enum.Enum):
    A = "a"
    B = "b c"


# the type of a field, and default values
KINDS = {
    "bool": (bool, [True, False]),
    "int": (int, [0, 23, -23]),
    "int16": (int16, [0, 23, -23]),
    "int32": (int32, [0, 2147483647, -23]),
    "int64": (int64, [0, 23, 3000000000]),
    "float": (float, [0.5, -2.25]),
    "float32": (float32, [0.5]),
    "str": (str, []),
    "short": (Annotated[str, MaxLength(80)], ["", "a", "it's", "1", "TRUE"]),
    "decimal": (decimal.Decimal, []),
    "money": (Annotated[decimal.Decimal, Precision(10, 2)], [decimal.Decimal("2.50"), decimal.Decimal("-2.50")]),
    "timestamp": (datetime.datetime, [datetime.datetime(2024, 2, 29, 12, 30, 59)]),
    "precise": (Annotated[datetime.datetime, TimePrecision(3)], []),
    "date": (datetime.date, [datetime.date(2024, 2, 29)]),
    "time": (datetime.time, [datetime.time(12, 30, 59)]),
    "uuid": (uuid.UUID, []),
    "ipv4": (ipaddress.IPv4Address, []),
    "ipv6": (ipaddress.IPv6Address, []),
}


@harness("C27", params=grid(dialect=DIALECTS, kind=list(KINDS)))
def column(S, dialect, kind):
    "A table with a column of a type."

    module = make_module(NAMES[0])
    type, defaults = KINDS[kind]
    if S.choose("nullable", [False, True]):
        type = Optional[type]
    default = S.choose("default", [None] + defaults)
    S.known("mysql-real", kind == "float32" and dialect == "mysql")
    S.known("decimal", kind == "decimal" and dialect in ("mysql", "mssql"))
    entity(module, "NTable", [("nid", PrimaryKey[int]), attribute("nvalue", type, default)])
    server = Server(S, dialect)
    options = {"namespaces": {module: "nschema"}}
    if settle(S, server, [module], options, same=True):
        described(S, server, [module], options)


def attribute(name, type, default=None):
    if default is None:
        return (name, type)
    return (name, type, field(default=default))


@harness("C27", params=grid(dialect=DIALECTS, what=["default", "description", "table"]))
def texts(S, dialect, what):
    "A table with texts in its definition."

    # a backslash starts an escape sequence in MySQL, and is in a constant of another kind in PostgreSQL
    alphabet = PLAIN if what == "default" and dialect in ("mysql", "postgresql") else PRINTABLE
    text = S.str("text", 0, 2, alphabet)
    module = make_module(NAMES[0])
    entity(
        module,
        "NTable",
        [("nid", PrimaryKey[int]), attribute("nvalue", KINDS["short"][0], text if what == "default" else None)],
        doc="A" + text + "z" if what == "table" else "An entity.",
        params=[("nvalue", "A" + text + "z")] if what == "description" else (),
    )
    server = Server(S, dialect)
    options = {"namespaces": {module: "nschema"}}
    if settle(S, server, [module], options, same=True):
        described(S, server, [module], options)


POOL = [
    ("nfirst", int),
    ("nsecond", Optional[KINDS["short"][0]]),
    ("nunique", Unique[int]),
    ("nthird", bool, field(default=True)),
    ]


@harness("C27", params=grid(dialect=DIALECTS, count=[3]), thorough=grid(dialect=DIALECTS, count=[4]))
def fields(S, dialect, count):
    "Fields are added and removed."

    module = make_module(NAMES[0])
    options = {"namespaces": {module: "nschema"}}
    server = Server(S, dialect)
    for step in ("before", "after"):
        chosen = [f for f in POOL[-count:] if S.choose(f"{f[0]} {step}", [True, False])]
        entity(module, "NTable", [("nid", PrimaryKey[int])] + chosen)
        if not settle(S, server, [module], options, label=f"{step}: "):
            return
        described(S, server, [module], options, label=f"{step}: ")


# types and default values that a column may have, one after the other
SHAPES = [
    (int16, None),
    (int32, None),
    (int32, 7),
    (int32, 8),
    (Optional[int32], None),
    (Optional[int32], 7),
    (int64, 7),
]


@harness("C27", params=grid(dialect=DIALECTS))
def shapes(S, dialect):
    "A field changes its type, or its default value, or whether it accepts no value."

    module = make_module(NAMES[0])
    options = {"namespaces": {module: "nschema"}}
    server = Server(S, dialect)
    for step in ("before", "after"):
        type, default = S.choose(step, SHAPES)
        entity(module, "NTable", [("nid", PrimaryKey[int]), attribute("nvalue", type, default)])
        if not settle(S, server, [module], options, label=f"{step}: "):
            return
        described(S, server, [module], options, label=f"{step}: ")


@harness("C27", params=grid(dialect=DIALECTS, names=[["nfirst"]]), thorough=grid(dialect=DIALECTS, names=[["nfirst", "nsecond"]]))
def references(S, dialect, names):
    "Classes that refer to each other."

    module = make_module(NAMES[0])
    options = {"namespaces": {module: "nschema"}}
    server = Server(S, dialect)
    key = S.choose("key", [int, KINDS["short"][0]])
    for step in ("before", "after"):
        clear(module)
        target = entity(module, S.choose("target", ["NTarget", "n__t"]) if step == "before" else target.__name__, [("nkey", PrimaryKey[key]), ("nother", int)])
        own = []
        for name in names:
            kind = S.choose(f"{name} {step}", ["none", "reference", "optional"])
            if kind != "none":
                own.append((name, Optional[target] if kind == "optional" else target))
        entity(module, "NSource", [("nid", PrimaryKey[int])] + own + [("nvalue", int)])
        if not settle(S, server, [module], options, label=f"{step}: "):
            return
        described(S, server, [module], options, label=f"{step}: ")


ENUM_MODES = {
    "postgresql": [EnumMode.TYPE, EnumMode.RELATION, EnumMode.CHECK],
    "mysql": [EnumMode.INLINE, EnumMode.RELATION, EnumMode.CHECK],
    "mssql": [EnumMode.RELATION, EnumMode.CHECK],
    "oracle": [EnumMode.RELATION, EnumMode.CHECK],
}


@harness("C27", params=[{"dialect": d, "mode": m.name} for d, modes in ENUM_MODES.items() for m in modes])
def enumerations(S, dialect, mode):
    "A class with an enumeration, to which a member is added."

    module = make_module(NAMES[0])
    options = {"namespaces": {module: "nschema"}, "enum_mode": EnumMode[mode]}
    server = Server(S, dialect)
    S.known("check", mode == "CHECK")
    optional = S.choose("optional", [False, True])
    for step in ("before", "after"):
        clear(module)
        members = ["A", "B"]
        if S.choose(f"{step} more", [False, True]):
            members.append("C")
        label = define(enum.Enum("Label", {m: m.lower() for m in members}), module)
        default = None
        if mode != "RELATION" and S.choose(f"{step} default", [False, True]):
            default = label.B
        entity(module, "NTable", [("nid", PrimaryKey[int]), attribute("nlabel", Optional[label] if optional else label, default)])
        # a member cannot be removed from a type
        if not settle(S, server, [module], options, refusable=True, label=f"{step}: "):
            return
        described(S, server, [module], options, label=f"{step}: ")


def clear(module):
    for name in [n for n in vars(module) if not n.startswith("__")]:
        delattr(module, name)


@harness("C27", params=grid(dialect=DIALECTS))
def modules(S, dialect):
    "Classes in two modules, one of which refers to the other, next to tables of others."

    first, second = make_module(NAMES[0]), make_module(NAMES[1])
    # names of schemas, some of which start like others
    name = S.choose("name", ["nfirst", "nschem", "nschema2"])
    options = {"namespaces": {first: "nschema", second: name}}
    server = Server(S, dialect)
    kept = strangers(server)
    for step in ("before", "after"):
        clear(first)
        clear(second)
        target = entity(first, "NTarget", [("nkey", PrimaryKey[int])])
        if S.choose(f"{step} reference", [True, False]):
            entity(second, "NSource", [("nid", PrimaryKey[int]), ("nref", target)])
        else:
            entity(second, "NSource", [("nid", PrimaryKey[int]), ("nvalue", int)])
        if S.choose(f"{step} more", [True, False]):
            entity(second, "NMore", [("nid", PrimaryKey[int])])
        if not settle(S, server, [first, second], options, same=True, label=f"{step}: "):
            return
        S.check(server.db.tables.keys() >= kept, f"{step}: tables of others are left alone")
        described(S, server, [first, second], options, kept, label=f"{step}: ")




@harness("C27", params=grid(dialect=DIALECTS))
def dropped(S, dialect):
    "The objects of a schema are dropped, and those of others are left alone."

    first, second = make_module(NAMES[0]), make_module(NAMES[1])
    name = S.choose("name", ["nfirst", "nschem", "nschema2", "n_schema"])
    options = {"namespaces": {first: "nschema", second: name}}
    server = Server(S, dialect)
    server.elsewhere = ["nschema__NTarget", "nschema__NOther"]
    kept = strangers(server)
    names = S.choose("classes", [["NTarget"], ["NTarget", "NSource"], ["NTarget", "ASource"], ["NTarget", "n__t"], []])
    if names:
        label = define(enum.Enum("NLabel", {"A": "a", "B": "b"}), first)
        target = entity(first, "NTarget", [("nkey", PrimaryKey[int]), ("nlabel", label)])
    for n in names[1:]:
        entity(first, n, [("nid", PrimaryKey[int]), ("nref", target)])
    if not names:
        options = {"namespaces": {second: name}}
    entity(second, "NTarget", [("nid", PrimaryKey[int])])
    if not settle(S, server, [first, second] if names else [second], options):
        return
    before = {id: dict(t.constraints) for id, t in server.db.tables.items()}
    types = set(server.db.types)
    for step in ("first", "again"):
        client = server.client(**options)
        try:
            asyncio.run(client.context.drop_schema(LocalId("nschema")))
        except QueryException as ex:
            S.fail(f"{step}: the database accepts the statements: {ex}")
            return
        left = {id: t for id, t in before.items() if not (id[0] == "nschema" or id[1].startswith("nschema__"))}
        S.check(server.db.tables.keys() == left.keys() and server.db.tables.keys() >= kept, f"{step}: tables of the schema are dropped, and no other")
        S.check(all(dict(server.db.tables[id].constraints) == c for id, c in left.items()), f"{step}: tables of others keep their constraints")
        S.check(set(server.db.types) == {id for id in types if id[0] != "nschema"}, f"{step}: types of the schema are dropped, and no other")
        S.check("nschema" not in (server.db.schemas or {}), f"{step}: the schema is dropped")


@harness("C27", params=grid(dialect=DIALECTS, what=["length", "number", "decimal"]))
def sizes(S, dialect, what):
    "A field changes its size, or the number that is its default value."

    module = make_module(NAMES[0])
    options = {"namespaces": {module: "nschema"}}
    server = Server(S, dialect)
    for step in ("before", "after"):
        if what == "length":
            shape = (Annotated[str, SymMaxLength(S.int(f"length {step}", 1, 2000))], None)
        elif what == "decimal":
            shape = (Annotated[decimal.Decimal, SymPrecision(S.int(f"digits {step}", 10, 38), S.int(f"fraction {step}", 0, 10))], None)
        else:
            shape = (int32, S.int(f"number {step}", -9999, 9999))
        entity(module, "NTable", [("nid", PrimaryKey[int]), attribute("nvalue", *shape)])
        # a shorter column has no room for what is there
        if not settle(S, server, [module], options, refusable=True, label=f"{step}: "):
            return
        described(S, server, [module], options, label=f"{step}: ")


ARRAYS = {
    "postgresql": [ArrayMode.ARRAY, ArrayMode.JSON],
    "mysql": [ArrayMode.JSON],
    "mssql": [ArrayMode.JSON],
    "oracle": [ArrayMode.JSON],
}


@harness("C27", params=[{"dialect": d, "mode": m.name} for d, modes in ARRAYS.items() for m in modes])
def lists(S, dialect, mode):
    "A class with a list."

    module = make_module(NAMES[0])
    options = {"namespaces": {module: "nschema"}, "array_mode": ArrayMode[mode]}
    server = Server(S, dialect)
    label = define(enum.Enum("Label", {"A": "a", "B": "b"}), module)
    kinds = {"int": list[int], "str": list[KINDS["short"][0]], "bool": list[bool], "uuid": list[uuid.UUID], "date": list[datetime.date]}
    if dialect == "postgresql":
        kinds["enum"] = list[label]
    type = kinds[S.choose("kind", list(kinds))]
    if S.choose("optional", [False, True]):
        type = Optional[type]
    entity(module, "NTable", [("nid", PrimaryKey[int]), ("nvalue", type)])
    if settle(S, server, [module], options, same=True):
        described(S, server, [module], options)


MEMBERS = [("nfirst", int), ("nsecond", Optional[KINDS["short"][0]]), ("nthird", float)]


@harness("C27", params=[{"dialect": "postgresql", "mode": "TYPE"}] + grid(dialect=DIALECTS, mode=["JSON"]))
def structures(S, dialect, mode):
    "A class with a value that has members."

    module = make_module(NAMES[0])
    options = {"namespaces": {module: "nschema"}, "struct_mode": StructMode[mode]}
    server = Server(S, dialect)
    # the type of a member of the type of a column cannot be changed
    for step in ("before", "after"):
        clear(module)
        own = [MEMBERS[0]] + [m for m in MEMBERS[1:] if S.choose(f"{m[0]} {step}", [True, False])]
        struct = entity(module, "NStruct", own, doc="A structure.", params=[("nfirst", S.choose(f"text {step}", ["One.", "Two."]))])
        entity(module, "NTable", [("nid", PrimaryKey[int]), ("nvalue", struct)])
        if not settle(S, server, [module], options, label=f"{step}: "):
            return
        described(S, server, [module], options, label=f"{step}: ")


@harness("C27", params=grid(dialect=DIALECTS))
def keys(S, dialect):
    "A class with a key of some type, and fields whose values are unique."

    module = make_module(NAMES[0])
    options = {"namespaces": {module: "nschema"}}
    server = Server(S, dialect)
    key = S.choose("key", [PrimaryKey[int], PrimaryKey[Identity[int]], PrimaryKey[KINDS["short"][0]], PrimaryKey[uuid.UUID], PrimaryKey[int16]])
    entity(
        module,
        "NTable",
        [
            # the key is not always first
            ("nvalue", Unique[S.choose("unique", [int, KINDS["short"][0]])]),
            ("nid", key),
            ("nother", Optional[S.choose("other", [int, datetime.datetime])]),
        ],
    )
    if settle(S, server, [module], options, same=True):
        described(S, server, [module], options)


@harness("C27", params=grid(dialect=DIALECTS, what=["reference", "across", "values"]))
def default_namespace(S, dialect, what):
    "Classes in a module that is not mapped to a schema of its own, next to tables of others with the same names."

    first, second = make_module(NAMES[0]), make_module(NAMES[1])
    clear(first)
    clear(second)
    options = {"namespaces": {first: None, second: "nschema"}}
    # the module that refers to the other may be the one without a schema
    names = [first, second]
    if S.choose("reverse modules", [False, True]):
        names.reverse()
    server = Server(S, dialect, current=S.choose("current", ["ncurrent", "dbo"]))
    kept = strangers(server, default=False)
    for step in ("before", "after"):
        clear(first)
        clear(second)
        more = S.choose(f"{step} more", [True, False])
        target = entity(first, "NTarget", [("nkey", PrimaryKey[int])])
        own = [("nid", PrimaryKey[Identity[int]])]
        if what == "values":
            label = define(enum.Enum("Label", {m: m.lower() for m in (("A", "B", "C") if more else ("A", "B"))}), first)
            own += [("nlabel", label), ("nother", Optional[label])]
            if dialect == "postgresql":
                own.append(("nlist", list[label]))
                members = [("nfirst", int), ("nsecond", label)]
                own.append(("nstruct", entity(first, "NStruct", members)))
        else:
            own += [("nref", target), ("nunique", Unique[int])] if more else [("nvalue", int)]
        entity(second if what == "across" else first, "NSource", own)
        if what == "across":
            entity(second, "NOther", [("nid", PrimaryKey[int])])
        if not settle(S, server, names, options, same=True, refusable=what == "values", label=f"{step}: "):
            return
        S.check(server.db.tables.keys() >= kept, f"{step}: tables of others are left alone")
        described(S, server, names, options, kept, label=f"{step}: ")
