"A script that creates a schema, executed by a reference database."

import sys
import types
from dataclasses import dataclass
from typing import Optional

from pysqlsync.formation.object_types import Catalog
from pysqlsync.model.data_types import (
    SqlDateType,
    SqlDecimalType,
    SqlDoubleType,
    SqlTimestampType,
    constant,
)

from symex.api import ASCII_TEXT, LOWER, TEXT, grid, harness

from .common import DIALECTS, Models, generator, has_schemas, has_types
from .refdb import Database
from .schemas import check_schema, execute, is_empty

# a backslash in a constant is part of C02
NO_BACKSLASH = ((1, 91), (93, 126))


def round_trip(S, dialect, catalog, label="", comments=True):
    "Creates the objects of a model in an empty database, then removes them."

    gen = generator(dialect)
    db = Database(dialect)
    script = gen.get_mutate_stmt(catalog)
    if not execute(S, db, script, f"{label}create: "):
        return
    check_schema(S, db, catalog, comments=comments, label=f"{label}create: ")
    gen.state = catalog
    if not execute(S, db, gen.drop(), f"{label}drop: "):
        return
    S.check(is_empty(db), f"{label}drop: nothing is left: {list(db.tables)} {list(db.types)} {list(db.schemas)}")
    # the statements that objects offer themselves
    db = Database(dialect)
    if not execute(S, db, catalog.create_stmt(), f"{label}create objects: "):
        return
    if not execute(S, db, catalog.add_constraints_stmt(), f"{label}add constraints: "):
        return
    check_schema(S, db, catalog, comments=comments, label=f"{label}create objects: ")
    for ns in catalog.namespaces.values():
        if not execute(S, db, ns.drop_constraints_stmt(), f"{label}drop constraints: "):
            return
    if not execute(S, db, catalog.drop_stmt(), f"{label}drop objects: "):
        return
    S.check(is_empty(db), f"{label}drop objects: nothing is left")


@harness("C03", params=grid(dialect=DIALECTS), thorough=grid(dialect=DIALECTS, size=[2]))
def columns(S, dialect, size=1):
    "Columns have their type, nullability, default value, identity and description."

    m = Models(dialect)
    limit = S.int("limit", 1, 4000)
    kind = S.choose("kind", ["text", "int", "decimal", "bool", "timestamp", "double"])
    default = None
    if kind == "text":
        data_type = m.text(limit)
        if S.choose("has default", [False, True]):
            default = constant_text(dialect, S.str("default", 0, size, NO_BACKSLASH))
    elif kind == "int":
        data_type = m.int(S.choose("width", [2, 4, 8]))
        if S.choose("has default", [False, True]):
            default = constant(S.int("number", 0, 9999))
    elif kind == "decimal":
        data_type = SqlDecimalType(S.int("precision", 1, 38), S.int("scale", 0, 10))
    elif kind == "bool":
        data_type = m.boolean()
        default = S.choose("default", [None, "TRUE", "FALSE"])
    elif kind == "timestamp":
        data_type = SqlTimestampType()
        default = S.choose("default", [None, "'1989-10-24 23:59:59'", "CURRENT_TIMESTAMP"])
    else:
        data_type = SqlDoubleType()
    nullable = S.bool("nullable")
    identity = S.choose("identity", [False, True])
    described = S.choose("described", [False, True]) if kind == "text" and default is None else False
    description = S.str("description", 0, size, ASCII_TEXT) if described else None
    remark = S.str("remark", 0, size, ASCII_TEXT) if described and S.choose("remarked", [False, True]) else None
    catalog = m.catalog(
        m.namespace(
            "nschema",
            tables=[
                m.table(
                    "nschema",
                    "ntable",
                    [
                        m.column("nid", m.int(8), identity=identity, description="the 'key'" if kind == "int" and nullable else None),
                        m.column("nvalue", data_type, nullable, default=default, description=description),
                        m.column("nother", m.int(4), S.bool("other nullable")),
                    ],
                    "nid",
                    description=remark,
                )
            ],
        )
    )
    round_trip(S, dialect, catalog)


def constant_text(dialect, text):
    from pysqlsync.model.data_types import quote

    return quote(text)


@harness("C03", params=grid(dialect=DIALECTS))
def constraints(S, dialect):
    "Keys and constraints are those of the model, whatever refers to what."

    m = Models(dialect)
    order = S.choose("order", [("na", "nb", "nc"), ("nc", "na", "nb")])
    composite = S.choose("composite", [False, True])
    # which table refers to which
    chosen = []
    for a in ("na", "nb", "nc"):
        b = S.choose(f"{a} refers to", [None, "na", "nb", "nc"])
        if b is not None:
            chosen.append((a, b))
    by_unique = not composite and S.choose("by unique", [False, True])
    more = S.choose("more", [False, True])
    S.known("foreign-unique", by_unique and bool(chosen))
    tables = {}
    for n in ("na", "nb", "nc"):
        columns = [m.column("nid", m.int(8)), m.column("nx", m.int(8)), m.column("ny", m.int(8), True), m.column("nz", m.text(10))]
        cons = []
        if by_unique:
            cons.append(m.unique(f"uq_{n}_x", ["nx"]))
        if n == "na" and more:
            cons.append(m.unique(f"uq_{n}_yz", ["nz", "ny"]))
        if n == "nc" and more:
            cons.append(m.check(f"ch_{n}", "\"nz\" IN ('a', 'b') AND (\"nx\" > 0)"))
        for a, b in chosen:
            if a == n:
                if composite:
                    cons.append(m.foreign(f"fk_{a}_{b}", ["ny", "nx"], "nschema", b, ["nid", "nx"]))
                else:
                    cons.append(m.foreign(f"fk_{a}_{b}", ["ny"], "nschema", b, ["nx" if by_unique else "nid"]))
        tables[n] = m.table("nschema", n, columns, ["nid", "nx"] if composite else "nid", cons)
    catalog = m.catalog(m.namespace("nschema", tables=[tables[n] for n in order]))
    round_trip(S, dialect, catalog)


@harness("C03", params=grid(dialect=[d for d in DIALECTS if has_schemas(d)]))
def schemas(S, dialect):
    "Objects of several schemas may refer to those of another."

    m = Models(dialect)
    order = S.choose("order", [("nfirst", "nsecond", "nthird"), ("nthird", "nfirst", "nsecond"), ("nsecond", "nthird", "nfirst")])
    spaces = {}
    for n in ("nfirst", "nsecond", "nthird"):
        # a schema refers to those that follow it in a (hidden) order without cycles
        others = {"nfirst": [None, "nsecond", "nthird"], "nsecond": [None, "nthird"], "nthird": [None]}[n]
        ref = S.choose(f"{n} refers to", others)
        columns = [m.column("nid", m.int(8)), m.column("nref", m.int(8), True)]
        enums = []
        structs = []
        if has_types(dialect):
            enums = [m.enum(n, "nenum", ["a", "b"])]
            used = S.choose(f"{n} uses", others)
            columns.append(m.column("nkind", m.user_type(used or n, "nenum")))
            structs = [m.struct(n, "nstruct", [("nmember", m.user_type(used or n, "nenum"), None)]), m.struct(n, "nouter", [("ninner", m.user_type(n, "nstruct"), None)])]
            columns.append(m.column("ndata", m.user_type(used or n, "nouter"), True))
        cons = [m.foreign(f"fk_{n}", ["nref"], ref, "ntable", ["nid"])] if ref is not None else []
        spaces[n] = m.namespace(n, enums=enums, structs=structs, tables=[m.table(n, "ntable", columns, "nid", cons)])
    if S.choose("empty", [False, True]):
        spaces["nempty"] = m.namespace("nempty")
        order = ("nempty", *order)
    round_trip(S, dialect, m.catalog(*[spaces[n] for n in order]))


@harness("C03", params=[{}], thorough=[{"size": 2}])
def structs(S, size=1):
    "Enumerations and composite types have their labels, members and descriptions."

    dialect = "postgresql"
    m = Models(dialect)
    labels = [S.str(f"label{i}", 1, size, ASCII_TEXT) for i in range(S.choose("labels", [1, 2]))]
    for i, a in enumerate(labels):
        for b in labels[:i]:
            S.assume(S.not_(S.eq(a, b)))
    description = S.choose("described", [None, "struct"])
    if description is not None:
        description = S.str("description", 0, size, ASCII_TEXT)
    remark = S.choose("member described", [None, "struct"])
    if remark is not None:
        remark = S.str("remark", 0, size, ASCII_TEXT)
    members = [
        ("nfirst", m.text(S.int("limit", 1, 4000)), remark),
        ("nsecond", m.user_type("nschema", "nenum"), None),
    ]
    if S.choose("swap", [False, True]):
        members.reverse()
    table = m.table(
        "nschema", "ntable", [m.column("nid", m.int(8)), m.column("ndata", m.user_type("nschema", "nstruct"), S.bool("nullable"))], "nid"
    )
    ns = m.namespace("nschema", enums=[m.enum("nschema", "nenum", labels)], structs=[m.struct("nschema", "nstruct", members, description)], tables=[table])
    round_trip(S, dialect, m.catalog(ns))


@harness("C03", params=grid(dialect=DIALECTS), thorough=grid(dialect=DIALECTS, size=[2]))
def lookup(S, dialect, size=1):
    "A lookup table is created with its rows."

    m = Models(dialect)
    count = S.choose("count", [1, 2, 3])
    labels = [S.str(f"label{i}", 1, size, LOWER) for i in range(count)]
    for i, a in enumerate(labels):
        for b in labels[:i]:
            S.assume(S.not_(S.eq(a, b)))
    table = m.enum_table(
        "nschema",
        "nlookup",
        [m.column("nid", m.int(4), identity=True), m.column("nvalue", m.text(64))],
        "nid",
        labels,
        [m.unique("uq_nlookup", ["nvalue"])],
    )
    other = m.table(
        "nschema", "nuser", [m.column("nid", m.int(8)), m.column("nref", m.int(4))], "nid", [m.foreign("fk_nuser", ["nref"], "nschema", "nlookup", ["nid"])]
    )
    catalog = m.catalog(m.namespace("nschema", tables=S.choose("order", [[table, other], [other, table]])))
    gen = generator(dialect)
    db = Database(dialect)
    if not execute(S, db, gen.get_mutate_stmt(catalog)):
        return
    check_schema(S, db, catalog)
    rows = [t for id, t in db.tables.items() if id[1].endswith("nlookup")][0].rows
    S.check(len(rows) == count, "there is a row for each label")
    S.check(len({r["nid"] for r in rows}) == count, "rows have different keys")
    for label, row in zip(labels, rows):
        S.check(S.eq(row["nvalue"], label), "the row has the label")
    gen.state = catalog
    if execute(S, db, gen.drop()):
        S.check(is_empty(db), "nothing is left")


@harness("C03", params=grid(dialect=DIALECTS))
def siblings(S, dialect):
    "Tables with columns of the same name are independent of one another."

    m = Models(dialect)
    first = S.choose("first default", [None, "1"])
    second = S.choose("second default", [None, "1", "2"])
    same = S.choose("same schema", [True, False]) if has_schemas(dialect) else True
    name = S.choose("name", ["nvalue", "nextra"])
    S.known("mssql-default-name", dialect == "mssql" and same and first is not None and second is not None and name == "nvalue")
    tables = [
        m.table("nschema", "nfirst", [m.column("nid", m.int(8)), m.column("nvalue", m.int(4), S.bool("nullable"), default=first)], "nid"),
        m.table(
            "nschema" if same else "nother",
            "nsecond",
            [m.column("nid", m.int(8)), m.column(name, m.int(4), default=second)],
            "nid",
            [m.unique("uq_nsecond", [name])],
        ),
    ]
    spaces = [m.namespace("nschema", tables=tables)] if same else [m.namespace("nschema", tables=tables[:1]), m.namespace("nother", tables=tables[1:])]
    round_trip(S, dialect, m.catalog(*spaces))
