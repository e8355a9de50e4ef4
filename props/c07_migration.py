"Rows keep their values when an enumeration is replaced by a reference to a lookup table."

import copy

from pysqlsync.formation.object_types import FormationError
from pysqlsync.model.data_types import SqlEnumType

from symex.api import ASCII_TEXT, LOWER, TEXT, grid, harness

from .common import DIALECTS, Models, generator, has_schemas, tid
from .refdb import DEFAULT, Database
from .schemas import check_schema, execute, object_id

MIGRATING = ["postgresql", "mysql"]
# a backslash in a label is part of C02
LABELS = ((1, 91), (93, 126), (0xA0, 0xD7FF))


def distinct(S, labels):
    for i, a in enumerate(labels):
        for b in labels[:i]:
            S.assume(S.not_(S.eq(a, b)))


def source_type(m, dialect, kind, labels):
    if kind == "text":
        return m.text(100)
    if dialect == "mysql":
        return SqlEnumType(list(labels))
    return m.user_type("nschema", "nkind")


def lookup_table(m, name, labels=None):
    columns = [m.column("id", m.int(4), identity=True), m.column("value", m.text(255))]
    cons = [m.unique(f"uq_{name}", ["value"])]
    if labels is not None:
        return m.enum_table("nschema", name, columns, "id", labels, cons)
    return m.table("nschema", name, columns, "id", cons)


@harness(
    "C07",
    params=grid(dialect=MIGRATING, kind=["enum", "text"], lookup=["new", "filled", "existing"]),
    thorough=grid(dialect=MIGRATING, kind=["enum", "text"], lookup=["new", "filled", "existing"], size=[2], many=[3]),
)
def migration(S, dialect, kind, lookup, size=1, many=2):
    "One or two columns become references to a lookup table."

    m = Models(dialect)
    labels = [S.str(f"label{i}", 1, size, LABELS) for i in range(2 if kind == "enum" else 1)]
    distinct(S, labels)
    width, many = S.choose("shape", [(1, many), (2, many - 1)])
    columns = ["nstate", "nother"][:width]
    nullable = {c: bool(S.bool(f"{c} nullable")) for c in columns}
    variant = S.choose("variant", ["plain", "relaxed", "described"]) if width == 1 else "plain"
    relaxed = variant == "relaxed"
    described = variant == "described"

    # the same name as the enumeration that it replaces
    name = "nkind" if lookup != "existing" else "nlookup"
    held = [S.str("held", 1, size, LABELS)] if lookup == "existing" else []

    def model(before):
        cols = [m.column("nid", m.int(8))]
        cons = []
        for c in columns:
            description = "status" if described else None
            if before:
                cols.append(m.column(c, source_type(m, dialect, kind, labels), nullable[c], description=description))
            else:
                cols.append(m.column(c, m.int(4), nullable[c] or relaxed, description=description))
                cons.append(m.foreign(f"fk_{c}", [c], "nschema", name, ["id"]))
        tables = [m.table("nschema", "ntable", cols, "nid", cons)]
        if not before or lookup == "existing":
            tables.insert(0, lookup_table(m, name, labels if lookup == "filled" else None))
        enums = [m.enum("nschema", "nkind", labels)] if before and dialect == "postgresql" and kind == "enum" else []
        return m.catalog(m.namespace("nschema", enums=enums, tables=tables))

    source = model(True)
    target = model(False)
    db = Database(dialect)
    gen = generator(dialect)
    if not execute(S, db, gen.get_mutate_stmt(copy.deepcopy(source)), "source: "):
        return
    lookup_id = object_id(dialect, tid(dialect, "nschema", name))
    table = db.tables[object_id(dialect, tid(dialect, "nschema", "ntable"))]
    if held:
        db.tables[lookup_id].rows.append({"id": 7, "value": held[0]})
        db.key_count[lookup_id] = 7
    rows = []
    for i in range(many):
        row = {"nid": i + 1}
        for c in columns:
            if nullable[c] and S.choose(f"row{i} {c} is null", [False, True]):
                row[c] = None
            elif kind == "text":
                row[c] = S.str(f"row{i} {c}", 0, size, LABELS)
            else:
                row[c] = labels[S.choose(f"row{i} {c}", [0, 1])]
        rows.append(row)
    table.rows = [dict(r) for r in rows]
    gen.state = copy.deepcopy(source)
    if not execute(S, db, gen.get_mutate_stmt(copy.deepcopy(target))):
        return
    check_schema(S, db, target, ordered=False)
    table = db.tables[table.id]
    found = db.tables[lookup_id].rows
    S.check(len(table.rows) == len(rows), "no row is lost or added")
    for row in table.rows:
        old = [r for r in rows if r["nid"] == row["nid"]][0]
        for c in columns:
            if old[c] is None:
                S.check(row[c] is None, "NULL stays NULL")
                continue
            values = [r["value"] for r in found if r["id"] == row[c]]
            S.check(len(values) == 1, "a value becomes the key of a single row in the lookup table")
            if values:
                S.check(S.eq(values[0], old[c]), "the label for the key is the original value")
    for i, a in enumerate(found):
        for b in found[:i]:
            S.check(S.not_(S.eq(a["value"], b["value"])), "no label is duplicated in the lookup table")
    for text in held:
        S.check(S.any([S.all([r["id"] == 7, S.eq(r["value"], text)]) for r in found if isinstance(r["id"], int)]), "rows of the lookup table are kept")
    if kind == "enum" and (dialect == "mysql" or lookup != "existing"):
        for text in labels:
            S.check(S.any([S.eq(r["value"], text) for r in found]), "each label of the enumeration is registered")
    used = [r[c] for r in rows for c in columns if r[c] is not None]
    for r in found:
        expected = [*used, *held, *(labels if kind == "enum" or lookup == "filled" else [])]
        S.check(S.any([S.eq(r["value"], v) for v in expected]), "no label is made up")


@harness("C07", params=grid(dialect=[d for d in DIALECTS if d not in MIGRATING and d not in ("redshift", "snowflake", "delta")], kind=["text"]))
def refused(S, dialect, kind):
    "Where data cannot be migrated, the change is refused."

    m = Models(dialect)
    nullable = S.bool("nullable")

    def model(before):
        cols = [m.column("nid", m.int(8))]
        cons = []
        if before:
            cols.append(m.column("nstate", m.text(S.int("limit", 1, 100)), nullable))
        else:
            cols.append(m.column("nstate", m.int(4), nullable))
            cons.append(m.foreign("fk_nstate", ["nstate"], "nschema", "nkind", ["id"]))
        return m.catalog(m.namespace("nschema", tables=[lookup_table(m, "nkind"), m.table("nschema", "ntable", cols, "nid", cons)]))

    gen = generator(dialect)
    gen.state = model(True)
    try:
        gen.get_mutate_stmt(model(False))
    except FormationError:
        S.check(True, "the change is refused")
        return
    S.fail("a change that loses data is refused")


@harness("C07", params=grid(dialect=DIALECTS))
def unrelated(S, dialect):
    "A change of columns that refer to no lookup table leaves rows as they are."

    m = Models(dialect)
    text = S.str("text", 0, 1, LABELS)
    kept = S.choose("change", ["nullable", "limit", "default", "added", "removed", "unique"])
    nullable = bool(S.bool("nullable"))

    def model(before):
        limit = 10 if before or kept != "limit" else 20
        null = nullable or (not before and kept == "nullable")
        cols = [m.column("nid", m.int(8)), m.column("nvalue", m.text(limit), null, default="'x'" if kept == "default" and not before else None)]
        cons = [m.unique("uq_nvalue", ["nvalue"])] if kept == "unique" and not before else []
        if kept == "removed" and before or kept == "added" and not before:
            cols.append(m.column("nextra", m.int(8), True))
        return m.catalog(m.namespace("nschema", tables=[m.table("nschema", "ntable", cols, "nid", cons)]))

    gen = generator(dialect)
    db = Database(dialect)
    if not execute(S, db, gen.get_mutate_stmt(model(True)), "source: "):
        return
    table = db.tables[object_id(dialect, tid(dialect, "nschema", "ntable"))]
    value = None if nullable and S.choose("is null", [False, True]) else text
    table.rows = [{"nid": 1, "nvalue": value, **({"nextra": 3} if kept == "removed" else {})}]
    gen.state = model(True)
    if not execute(S, db, gen.get_mutate_stmt(model(False))):
        return
    rows = db.tables[table.id].rows
    S.check(len(rows) == 1 and rows[0]["nid"] == 1, "the row is kept")
    S.check(rows[0]["nvalue"] is None if value is None else S.eq(rows[0]["nvalue"], value), "the value is kept")
