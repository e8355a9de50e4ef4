"Compares the contents of a reference database with a model of the schema."

from pysqlsync.formation.object_types import (
    CheckConstraint,
    EnumTable,
    ForeignConstraint,
    UniqueConstraint,
)

from .refdb import DEFAULT, DatabaseError, Database, expression_of
from .sql import LexError

# which comments a dialect keeps: those of tables, columns, composite types and their members
TABLE_COMMENTS = ("postgresql", "redshift", "mysql", "snowflake", "delta")
COLUMN_COMMENTS = ("postgresql", "redshift", "mysql", "snowflake", "delta")
FIRST_LINE = ("mysql",)
# dialects in which a column is created without its default value
NO_DEFAULT = ("delta",)


def object_id(dialect, name):
    if dialect in ("mysql", "oracle"):
        return (DEFAULT, name.local_id)
    return (name.scope_id or DEFAULT, name.local_id)


def comment_of(S, dialect, text):
    "A comment as the dialect keeps it; an empty comment is no comment."

    if text is None:
        return None
    if dialect in FIRST_LINE:
        text = text.split("\n")[0]
    return text


def same_comment(S, found, expected):
    if found is None:
        return expected is None or S.eq(expected, "")
    if expected is None:
        return S.eq(found, "")
    return S.eq(found, expected)


def same_expression(S, found, expected):
    if found is None or expected is None:
        return found is None and expected is None
    if len(found) != len(expected):
        return False
    return S.all([f[0] == e[0] and S.eq(f[1], e[1]) for f, e in zip(found, expected)])


def names(ids):
    return tuple(i.local_id for i in ids)


def check_schema(S, db, catalog, ordered=True, comments=True, label=""):
    """
    Checks that a database has the objects of a model and no other.

    :param ordered: Whether the columns, members and labels have to be in the order in which the model lists them.
    """

    d = db.dialect
    schemas = {ns.name.local_id for ns in catalog.namespaces.values() if ns.name.local_id}
    S.check({s for s in db.schemas if s != DEFAULT} == schemas, f"{label}schemas are those of the model: {sorted(db.schemas)}")
    enums = {object_id(d, e.name): e for ns in catalog.namespaces.values() for e in ns.enums.values()}
    structs = {object_id(d, s.name): s for ns in catalog.namespaces.values() for s in ns.structs.values()}
    tables = {object_id(d, t.name): t for ns in catalog.namespaces.values() for t in ns.tables.values()}
    S.check(set(db.types) == set(enums) | set(structs), f"{label}types are those of the model: {sorted(db.types)}")
    S.check(set(db.tables) == set(tables), f"{label}tables are those of the model: {sorted(db.tables)}")
    for id, e in enums.items():
        t = db.types[id]
        if t.labels is None or len(t.labels) != len(e.values):
            S.fail(f"{label}enumeration has the labels of the model")
            return
        if ordered:
            S.check(S.all([S.eq(a, b) for a, b in zip(t.labels, e.values)]), f"{label}enumeration has the labels of the model in order")
        else:
            S.check(S.all([S.any([S.eq(a, b) for a in t.labels]) for b in e.values]), f"{label}enumeration has the labels of the model")
    for id, s in structs.items():
        t = db.types[id]
        if t.members is None:
            S.fail(f"{label}composite type is a composite type")
            return
        found = list(t.members)
        expected = [m.name.local_id for m in s.members.values()]
        S.check(found == expected if ordered else sorted(found) == sorted(expected), f"{label}composite type has the members of the model")
        for m in s.members.values():
            f = t.members[m.name.local_id]
            S.check(same_expression(S, f.type, expression_of(str(m.data_type), d)), f"{label}member has the type in the model")
            if comments:
                S.check(same_comment(S, f.comment, m.description), f"{label}member has the description in the model")
        if comments:
            S.check(same_comment(S, t.comment, s.description), f"{label}composite type has the description in the model")
    for id, m in tables.items():
        check_table(S, d, db.tables[id], m, ordered, comments, label)


def default_of(dialect, column):
    if column.default is None:
        return None
    return expression_of(column.default, dialect)


def check_table(S, dialect, found, model, ordered=True, comments=True, label=""):
    expected = [c.name.local_id for c in model.columns.values()]
    columns = list(found.columns)
    S.check(columns == expected if ordered else sorted(columns) == sorted(expected), f"{label}table has the columns of the model: {columns}")
    for c in model.columns.values():
        f = found.columns[c.name.local_id]
        S.check(same_expression(S, f.type, expression_of(str(c.data_type), dialect)), f"{label}column has the type in the model")
        if c.identity or c.name in model.primary_key:
            S.check(f.nullable is False, f"{label}key or identity column does not accept NULL")
        else:
            S.check(S.eq(f.nullable, c.nullable), f"{label}column accepts NULL exactly if it does in the model")
        S.check(S.eq(f.identity, c.identity), f"{label}column is an identity column exactly if it is in the model")
        if dialect not in NO_DEFAULT:
            S.check(
                same_expression(S, f.default, default_of(dialect, c)), f"{label}column has the default value in the model"
            )
        if comments and dialect in COLUMN_COMMENTS:
            S.check(same_comment(S, f.comment, comment_of(S, dialect, c.description)), f"{label}column has the description in the model")
    if comments and dialect in TABLE_COMMENTS:
        S.check(same_comment(S, found.comment, comment_of(S, dialect, model.description)), f"{label}table has the description in the model")
    S.check(found.key() == names(model.primary_key), f"{label}table has the primary key of the model: {found.key()}")
    constraints = {n: c for n, c in found.constraints.items() if c.kind != "primary"}
    wanted = {c.name.local_id: c for c in model.table_constraints}
    S.check(set(constraints) == set(wanted), f"{label}table has the constraints of the model: {sorted(constraints)}")
    for n, w in wanted.items():
        c = constraints[n]
        if isinstance(w, UniqueConstraint):
            S.check(c.kind == "unique" and c.columns == names(w.unique_columns), f"{label}unique constraint is the one in the model")
        elif isinstance(w, ForeignConstraint):
            S.check(
                c.kind == "foreign"
                and c.columns == names(w.foreign_columns)
                and c.ref == object_id(dialect, w.reference.table)
                and c.ref_columns == names(w.reference.columns),
                f"{label}foreign key is the one in the model",
            )
        elif isinstance(w, CheckConstraint):
            S.check(c.kind == "check" and bool(same_expression(S, c.condition, expression_of(w.condition, dialect))), f"{label}check constraint is the one in the model")
        else:
            S.fail(f"{label}constraint is known")


def is_empty(db):
    return not db.tables and not db.types and not [s for s in db.schemas if s != DEFAULT]


def execute(S, db, script, label=""):
    "Executes a script; reports a statement that the database refuses. Returns whether all of it has been executed."

    try:
        db.execute(script)
    except (DatabaseError, LexError) as ex:
        S.fail(f"{label}script is executable: {ex}")
        return False
    return True
