"Names are embedded in SQL as one delimited identifier that reads back exactly."

import asyncio

from pysqlsync.formation.object_types import FormationError
from pysqlsync.model.id_types import LocalId, PrefixedId, QualifiedId

from symex.api import TEXT, grid, harness

from .common import DIALECTS, Models, generator, has_schemas, has_types, mutate, tid
from .lex import LexError, read_delimited
from .dml import DMLError, substitute
from .sql import MARK, compare


@harness("C01", params=[{"n": 3}], thorough=[{"n": 5}])
def local_id_round_trip(S, n):
    name = S.str("name", 1, n)
    for make in (LocalId, lambda s: QualifiedId(None, s), lambda s: PrefixedId(None, s)):
        sql = str(make(name)) + " rest"
        try:
            text, end = read_delimited(sql, 0, '"')
        except LexError as ex:
            S.fail(f"identifier is not a single quoted token: {ex}")
            return
        S.check(end == len(sql) - 5, "identifier does not end where the token ends")
        S.check(text == name, "identifier does not read back as the name")
        S.check(make(name).local_id == name, "name is altered")


@harness("C01", params=[{"n": 2}], thorough=[{"n": 3}])
def qualified_id_injective(S, n):
    "Objects with different qualified names are never referred to by the same text."
    a = QualifiedId(S.str("schema1", 1, n), S.str("name1", 1, n))
    b = QualifiedId(S.str("schema2", 1, n), S.str("name2", 1, n))
    S.assume(str(a) == str(b))
    S.check(a.namespace == b.namespace, "different schemas, same reference")
    S.check(a.id == b.id, "different names, same reference")


POSITIONS = ["schema", "table", "key", "column", "other", "unique", "foreign", "target", "target_key", "enum", "struct", "member", "added"]


class Names:
    def __init__(self, S, position, name):
        for p in POSITIONS:
            setattr(self, p, name if p == position else S.name("n" + p))
        self.local = S.name


def build(M, N, variant):
    """
    Builds a model.

    :param variant: 0 for an initial model, 1 for one that differs from it in every property of its objects.
    """
    typed = has_types(M.dialect)
    columns = [
        M.column(N.key, M.int(), identity=True),
        M.column(N.column, M.text(20 + 5 * variant), nullable=variant == 0, default="'x'" if variant == 0 else "'y'", description="d" if variant == 0 else "e"),
        M.column(N.local("nlocal_ref"), M.int()),
    ]
    constraints = [M.foreign(N.foreign, [N.local("nlocal_ref")], N.schema, N.target, [N.target_key])]
    if variant == 0:
        columns.append(M.column(N.other, M.text(10), nullable=True))
        constraints.append(M.unique(N.unique, [N.column]))
    else:
        columns.append(M.column(N.added, M.text(10), nullable=True, description="a"))
        constraints.append(M.unique(N.local("nlocal_uqadded"), [N.column]))
    enums = []
    structs = []
    if typed:
        enums.append(M.enum(N.schema, N.enum, ["a", "b"] + (["c"] if variant else [])))
        members = [(N.local("nlocal_mx"), M.int(), None)]
        members.append((N.member, M.text(5), "d") if variant == 0 else (N.local("nlocal_my"), M.text(6), "e"))
        if variant:
            members[0] = (N.local("nlocal_mx"), M.text(7), None)
        structs.append(M.struct(N.schema, N.struct, members, "x" if variant else None))
        columns.append(M.column(N.local("nlocal_ecol"), M.user_type(N.schema, N.enum)))
        columns.append(M.column(N.local("nlocal_scol"), M.user_type(N.schema, N.struct)))
    table = M.table(N.schema, N.table, columns, N.key, constraints, description="t" if variant else "u")
    target = M.table(
        N.schema,
        N.target,
        [M.column(N.target_key, M.int()), M.column(N.local("nlocal_value"), M.text(10))],
        N.target_key,
        [M.unique(N.local("nlocal_uqvalue"), [N.local("nlocal_value")])],
    )
    tables = [target, table]
    return M.catalog(M.namespace(N.schema, enums=enums, structs=structs, tables=tables))


def ddl_statements(dialect, N):
    M = Models(dialect)

    def attempt(f):
        try:
            return f()
        except (FormationError, NotImplementedError):
            return None

    def mutation(a, b, **permissions):
        return attempt(lambda: mutate(dialect, a, b, **permissions))

    out = []
    cat = build(M, N, 0)
    ns = list(cat.namespaces.values())[0]
    out.append(("create", cat.create_stmt()))
    out.append(("add constraints", cat.add_constraints_stmt()))
    out.append(("script", str(cat)))
    out.append(("drop constraints", ns.drop_constraints_stmt()))
    out.append(("drop", cat.drop_stmt()))
    out.append(("create namespace", ns.create_stmt()))
    out.append(("create schema", ns.create_schema_stmt()))
    out.append(("drop schema", ns.drop_schema_stmt()))
    for t in ns.tables.values():
        out.append(("table", str(t)))
        out.append(("drop table if exists", t.drop_if_exists_stmt()))
    empty = M.catalog()
    out.append(("mutate from empty", mutation(empty, build(M, N, 0))))
    out.append(("mutate to empty", mutation(build(M, N, 0), empty)))
    out.append(("mutate forward", mutation(build(M, N, 0), build(M, N, 1))))
    # the change in the opposite direction removes an enumeration value, which is refused
    a, b = build(M, N, 1), build(M, N, 0)
    for cat in (a, b):
        for n in cat.namespaces.values():
            for e in n.enums.values():
                e.values = ["a"]
    out.append(("mutate backward", mutation(a, b)))
    bare = M.catalog(M.namespace(N.schema))
    out.append(("mutate from bare", mutation(bare, build(M, N, 0))))
    out.append(("mutate to bare", mutation(build(M, N, 0), bare)))
    return out


@harness(
    "C01",
    params=grid(dialect=DIALECTS, position=["schema", "table", "key", "column", "other", "unique", "foreign", "target", "target_key", "added"], n=[2])
    + grid(dialect=["postgresql"], position=["enum", "struct", "member"], n=[2]),
    thorough=grid(dialect=DIALECTS, position=["schema", "table", "key", "column", "other", "unique", "foreign", "target", "target_key", "added"], n=[4])
    + grid(dialect=["postgresql"], position=["enum", "struct", "member"], n=[4]),
)
def ddl(S, dialect, position, n):
    name = S.str("name", 1, n)
    N = Names(S, position, name)
    for p in POSITIONS:
        if p != position:
            S.assume(S.not_(S.eq(name, getattr(N, p))))
    T = Names(S, position, MARK)
    template = ddl_statements(dialect, T)
    actual = ddl_statements(dialect, N)
    for (label, t), (_, a) in zip(template, actual):
        compare(S, t, a, name, dialect, label)


def dml_statements(dialect, N):
    M = Models(dialect)
    out = []
    cat = build(M, N, 0)
    for ns in cat.namespaces.values():
        for t in ns.tables.values():
            for label, f in [
                ("insert", M.gen.get_table_insert_stmt),
                ("merge", M.gen.get_table_merge_stmt),
                ("upsert", M.gen.get_table_upsert_stmt),
                ("delete", M.gen.get_table_delete_stmt),
            ]:
                try:
                    text = f(t)
                except NotImplementedError:
                    out.append((label, None))
                    continue
                # as the database receives it
                out.append((label, substitute(text) if dialect == "mysql" else text))
    return out


@harness(
    "C01",
    params=grid(dialect=DIALECTS, position=["schema", "table", "key", "column", "other"], n=[2]),
    thorough=grid(dialect=DIALECTS, position=["schema", "table", "key", "column", "other"], n=[5]),
)
def dml(S, dialect, position, n):
    name = S.str("name", 1, n)
    N = Names(S, position, name)
    for p in POSITIONS:
        if p != position:
            S.assume(S.not_(S.eq(name, getattr(N, p))))
    template = dml_statements(dialect, Names(S, position, MARK))
    try:
        actual = dml_statements(dialect, N)
    except DMLError as ex:
        S.fail(f"statement is refused: {ex}")
        return
    for (label, t), (_, a) in zip(template, actual):
        compare(S, t, a, name, dialect, label)


def migration(dialect, N):
    "Replaces an enumeration by a reference to a lookup table."
    M = Models(dialect)
    if dialect == "postgresql":
        source_type = M.user_type(N.schema, N.enum)
    elif dialect == "mysql":
        from pysqlsync.model.data_types import SqlEnumType

        source_type = SqlEnumType(["a", "b"])
    else:
        source_type = M.text(10)
    source = M.table(N.schema, N.table, [M.column(N.key, M.int()), M.column(N.column, source_type)], N.key)
    target = M.table(
        N.schema,
        N.table,
        [M.column(N.key, M.int()), M.column(N.column, M.int())],
        N.key,
        [M.foreign(N.foreign, [N.column], N.schema, N.target if dialect != "postgresql" else N.enum, [N.local("nlocal_id")])],
    )
    lookup = M.table(
        N.schema,
        N.target if dialect != "postgresql" else N.enum,
        [M.column(N.local("nlocal_id"), M.int(), identity=True), M.column(N.local("nlocal_value"), M.text(10))],
        N.local("nlocal_id"),
        [M.unique(N.unique, [N.local("nlocal_value")])],
    )
    enums = [M.enum(N.schema, N.enum, ["a", "b"])] if dialect == "postgresql" else []
    return mutate(
        dialect,
        M.catalog(M.namespace(N.schema, enums=enums, tables=[source])),
        M.catalog(M.namespace(N.schema, tables=[lookup, target])),
    )


@harness(
    "C01",
    params=grid(dialect=["postgresql", "mysql"], position=["schema", "table", "key", "column", "foreign", "unique", "enum", "target"], n=[2]),
    thorough=grid(dialect=["postgresql", "mysql"], position=["schema", "table", "key", "column", "foreign", "unique", "enum", "target"], n=[4]),
)
def enum_migration(S, dialect, position, n):
    name = S.str("name", 1, n)
    for p in POSITIONS:
        S.assume(S.not_(S.eq(name, "n" + p)))
    for p in ("nlocal_id", "nlocal_value"):
        S.assume(S.not_(S.eq(name, p)))
    template = migration(dialect, Names(S, position, MARK))
    compare(S, template, migration(dialect, Names(S, position, name)), name, dialect, "migration")


class Recorder:
    "Stands in for a connection, and collects the statements that would be executed."

    def __init__(self, gen, answer=0):
        self.statements = []
        self.connection = self
        self.generator = gen
        self.answer = answer


@harness(
    "C01",
    params=grid(dialect=["postgresql", "mssql", "oracle"], n=[2]),
    thorough=grid(dialect=["postgresql", "mssql", "oracle"], n=[4]),
)
def context_schema(S, dialect, n):
    "Statements that a connection creates for a schema or table name."
    from pysqlsync.base import BaseContext

    class Context(BaseContext):
        def __init__(self, connection):
            super().__init__(connection)
            self.executed = []

        async def _execute(self, statement):
            self.executed.append(statement)

        async def _execute_all(self, statement, source):
            raise NotImplementedError()

        async def _query_all(self, signature, statement):
            raise NotImplementedError()

    def run(name):
        gen = generator(dialect)
        ctx = Context(Recorder(gen))
        asyncio.run(ctx.create_schema(LocalId(name)))
        asyncio.run(ctx.drop_schema(LocalId(name)))
        asyncio.run(ctx.drop_table_if_exists(tid(dialect, "sch", name)))
        return ctx.executed

    name = S.str("name", 1, n)
    template = run(MARK)
    actual = run(name)
    S.check(len(template) == len(actual), "number of statements depends on the name")
    for t, a in zip(template, actual):
        compare(S, t, a, name, dialect, "context")
