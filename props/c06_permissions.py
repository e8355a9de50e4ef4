"Objects are dropped only if the synchronization options permit so."

import copy

from pysqlsync.formation.mutation import MutatorOptions
from pysqlsync.formation.object_types import FormationError

from symex.api import ASCII_TEXT, grid, harness

from .common import DIALECTS, Models, generator, has_schemas, has_types
from .refdb import Database, statements_of
from .schemas import execute

TYPED = [d for d in DIALECTS if has_types(d)]


def permissions(S, dialect):
    names = ["table"]
    if has_schemas(dialect):
        names.append("namespace")
    if has_types(dialect):
        names += ["enum", "struct"]
    return {f"allow_drop_{n}": S.bool(f"allow {n}") for n in names}


def script(dialect, source, target, allowed):
    gen = generator(dialect, synchronization=MutatorOptions(**allowed))
    gen.state = copy.deepcopy(source)
    return gen.get_mutate_stmt(copy.deepcopy(target))


def mentions(script, dialect):
    "Objects that statements drop or alter, as pairs of a kind of statement and the name of an object."

    found = []
    for tokens in statements_of(script, dialect) if script is not None else []:
        words = []
        ids = []
        for t in tokens:
            if t.kind == "word" and not ids:
                words.append(t.value)
            elif t.kind == "id":
                ids.append(t.value)
            elif ids and not (t.kind == "op" and t.value == "."):
                break
        found.append((" ".join(words[:2]), tuple(ids)))
    return found


def oid(dialect, schema, name):
    return (schema, name) if has_schemas(dialect) else (f"{schema}__{name}",)


@harness("C06", params=grid(dialect=DIALECTS))
def objects(S, dialect):
    "Objects of each kind are removed from the model."

    m = Models(dialect)
    allowed = permissions(S, dialect)
    linked = S.choose("linked", [False, True])
    typed = has_types(dialect)
    gone = {
        k: S.choose(f"{k} removed", [True, False])
        for k in ["table", *(["namespace"] if has_schemas(dialect) else []), *(["enum", "struct"] if typed else [])]
    }

    def model(present):
        cols = [m.column("nid", m.int(8))]
        nested = [m.table("nextra", "ninner", [m.column("nid", m.int(8))], "nid", [m.foreign("fk_ninner", ["nid"], "nschema", "nkept", ["nid"])])]
        gone_cons = [m.foreign("fk_ngone", ["nid"], "nschema", "nkept", ["nid"]), m.unique("uq_ngone", ["nid", "nvalue"])]
        gone_cols = [m.column("nid", m.int(8)), m.column("nvalue", m.int(8))]
        if typed and linked and present("enum"):
            gone_cols.append(m.column("nkind", m.user_type("nschema", "nenum")))
        tables = [m.table("nschema", "nkept", cols, "nid")]
        if present("table"):
            tables.append(m.table("nschema", "ngone", gone_cols, "nid", gone_cons))
        spaces = [
            m.namespace(
                "nschema",
                enums=[m.enum("nschema", "nenum", ["a", "b"])] if typed and present("enum") else [],
                structs=[m.struct("nschema", "nstruct", [("nmember", m.int(8), None)])] if typed and present("struct") else [],
                tables=tables,
            )
        ]
        if has_schemas(dialect) and present("namespace"):
            enums = [m.enum("nextra", "nenum", ["a"])] if typed else []
            structs = [m.struct("nextra", "nstruct", [("nmember", m.int(8), None)])] if typed else []
            spaces.append(m.namespace("nextra", enums=enums, structs=structs, tables=nested))
        return m.catalog(*spaces)

    source = model(lambda kind: True)
    target = model(lambda kind: not gone[kind])
    text = script(dialect, source, target, allowed)
    found = mentions(text, dialect)
    table = oid(dialect, "nschema", "ngone")
    inner = oid(dialect, "nextra", "ninner")
    # what has to be kept
    kept = [table] if not (gone["table"] and allowed["allow_drop_table"]) else []
    if has_schemas(dialect) and not (gone["namespace"] and allowed["allow_drop_namespace"]):
        kept += [inner, ("nextra",), ("nextra", "nenum"), ("nextra", "nstruct")]
    if typed:
        for kind in ("enum", "struct"):
            if not (gone[kind] and allowed[f"allow_drop_{kind}"]):
                kept.append(("nschema", f"n{kind}"))
    kept.append(oid(dialect, "nschema", "nkept"))
    kept.append(("nschema",))
    for action, id in found:
        # a column of a kept table may go along with the enumeration that is its type
        S.check(id not in kept or (action == "ALTER TABLE" and linked and not gone["table"]), f"an object that is to be kept is left alone: {action} {id}")
    dropped = [id for action, id in found if action.startswith("DROP")]
    if gone["table"] and allowed["allow_drop_table"]:
        S.check(table in dropped, "a table is dropped if permitted")
    if gone.get("namespace") and allowed["allow_drop_namespace"]:
        S.check(inner in dropped and ("nextra",) in dropped, "a namespace is dropped if permitted, along with its objects")
    for kind in ("enum", "struct"):
        if gone.get(kind) and allowed[f"allow_drop_{kind}"]:
            S.check(("nschema", f"n{kind}") in dropped, "a type is dropped if permitted")


@harness("C06", params=grid(dialect=TYPED))
def replaced(S, dialect):
    "An enumeration that a lookup table of the same name replaces is dropped only if permitted."

    m = Models(dialect)
    allowed = permissions(S, dialect)
    used = S.choose("used", [False, True])
    cols = [m.column("nid", m.int(8))]

    def user(data_type, cons=()):
        return [m.table("nschema", "nuser", [m.column("nid", m.int(8)), m.column("nkind", data_type)], "nid", cons)] if used else []

    source = m.catalog(m.namespace("nschema", enums=[m.enum("nschema", "nkind", ["a", "b"])], tables=user(m.user_type("nschema", "nkind"))))
    lookup = m.table("nschema", "nkind", [m.column("id", m.int(4), identity=True), m.column("value", m.text(10))], "id", [m.unique("uq_nkind", ["value"])])
    cons = [m.foreign("fk_nuser", ["nkind"], "nschema", "nkind", ["id"])]
    target = m.catalog(m.namespace("nschema", tables=[lookup, *user(m.int(4), cons)]))
    db = Database(dialect)
    if not execute(S, db, generator(dialect).get_mutate_stmt(copy.deepcopy(source))):
        return
    if not execute(S, db, script(dialect, source, target, allowed)):
        return
    enums = [id for id, t in db.types.items() if t.labels is not None]
    S.check(len(enums) == (0 if allowed["allow_drop_enum"] else 1), f"the enumeration is there exactly if dropping it is not permitted: {enums}")
    S.check(allowed["allow_drop_table"] or not [e for e in db.log if e[0] == "drop table"], "no table is dropped")


@harness("C06", params=grid(dialect=TYPED), thorough=grid(dialect=TYPED, size=[2]))
def labels(S, dialect, size=1):
    "A label is never removed from an enumeration."

    m = Models(dialect)
    allowed = permissions(S, dialect)
    before = [S.str(f"before{i}", 1, size, ASCII_TEXT) for i in range(S.choose("before", [1, 2]))]
    after = [S.str(f"after{i}", 1, size, ASCII_TEXT) for i in range(S.choose("after", [0, 1, 2]))]
    for values in (before, after):
        for i, a in enumerate(values):
            for b in values[:i]:
                S.assume(S.not_(S.eq(a, b)))

    def model(values):
        return m.catalog(m.namespace("nschema", enums=[m.enum("nschema", "nenum", values)]))

    removed = S.not_(S.all([S.any([S.eq(a, b) for b in after]) for a in before]))
    try:
        script(dialect, model(before), model(after), allowed)
    except FormationError:
        S.check(removed, "a change is refused only if a label is removed")
        return
    S.check(S.not_(removed), "removing a label is refused")
