"Discovered tables, keys and constraints are exactly those in the database."

import asyncio

from pysqlsync.formation.constraints import ForeignFactory, UniqueFactory
from pysqlsync.formation.object_types import ForeignConstraint, UniqueConstraint
from pysqlsync.model.id_types import LocalId, QualifiedId

from symex.api import LOWER, TEXT, grid, harness

from .common import engine, fake_context, has_schemas, int_type, text_type, tid
from .minisql import Evaluator, deliver
from .refcatalog import TYPES, Col, Tab, catalog, default_definition

DIALECTS = ["postgresql", "mysql", "mssql", "oracle"]
INT = {d: str(int_type(d)) for d in DIALECTS + ["trino"]}
TEXT_TYPE = {d: str(text_type(d, 80)) for d in DIALECTS + ["trino"]}
CURRENT = "ncurrent"


def table(dialect, name, columns, key, uniques=(), foreigns=(), comment=None, key_name=None, schema="nschema", other=False):
    "A table as the database sees it."

    if has_schemas(dialect):
        return Tab("nforeign" if other else schema, name, columns, key, uniques, foreigns, comment, key_name)
    flat = f"{schema}__{name}" if schema else name
    foreigns = [(n, cols, None, f"{schema}__{rt}" if schema else rt, rc) for n, cols, rs, rt, rc in foreigns]
    if dialect == "mysql":
        return Tab(None, flat, columns, key, uniques, foreigns, comment, key_name, database="nforeign" if other else None)
    return Tab("NFOREIGN" if other else None, flat, columns, key, uniques, foreigns, comment, key_name)


def explorer(S, dialect, tabs, enums=(), structs=()):
    ctx = fake_context(dialect, answer=catalog(S, dialect, tabs, enums, structs, current=CURRENT))
    return engine(dialect).create_explorer(ctx)


def same_column(S, dialect, found, expected):
    conditions = [
        S.eq(found.name.local_id, expected.name),
        S.eq(bool(found.nullable), expected.nullable),
        S.eq(bool(found.identity), expected.identity),
        TYPES[dialect](str(found.data_type)).same(S, TYPES[dialect](expected.type_sql)),
    ]
    if (found.default is None) != (expected.expression is None):
        return False
    if expected.expression is not None:
        conditions.append(S.eq(found.default, expected.expression))
    return S.all(conditions)


def same_names(S, found, expected):
    found = list(found)
    if len(found) != len(expected):
        return False
    return S.all([S.eq(f.local_id, e) for f, e in zip(found, expected)])


def same_description(S, found, expected):
    # an empty comment is no comment
    if found is None:
        return expected is None or S.eq(expected, "")
    return expected is not None and S.eq(found, expected)


def compare(S, dialect, found, tab, comments=True):
    "Whether a table discovered is the one in the database."

    columns = list(found.columns.values())
    S.check(len(columns) == len(tab.columns), "table has all its columns and no other")
    for f, c in zip(columns, tab.columns):
        S.check(same_column(S, dialect, f, c), "column has the position, name, type and properties of the column in the database")
        if comments:
            S.check(same_description(S, f.description, c.comment), "column has the description in the database")
    if comments:
        S.check(same_description(S, found.description, tab.comment), "table has the description in the database")
    S.check(same_names(S, found.primary_key, tab.key), "primary key has the columns of the key in order")
    constraints = list((found.constraints or {}).values()) if hasattr(found.constraints, "values") else list(found.constraints or [])
    S.check(len(constraints) == len(tab.uniques) + len(tab.foreigns), "table has all constraints and no other")
    unique = [c for c in constraints if isinstance(c, UniqueConstraint)]
    foreign = [c for c in constraints if isinstance(c, ForeignConstraint)]
    for name, cols in tab.uniques:
        S.check(
            S.any([S.all([S.eq(c.name.local_id, name), same_names(S, c.unique_columns, cols)]) for c in unique]),
            "unique constraint has its name and its columns in order",
        )
    for name, cols, rs, rt, rc in tab.foreigns:
        S.check(
            S.any([S.all([S.eq(c.name.local_id, name), same_foreign(S, dialect, c, cols, rs, rt, rc)]) for c in foreign]),
            "foreign key has its name, its table, and its columns paired as in the database",
        )


def same_foreign(S, dialect, c, cols, rs, rt, rc):
    if len(c.foreign_columns) != len(cols) or len(c.reference.columns) != len(cols):
        return False
    conditions = [S.eq(c.reference.table.local_id, rt)]
    if has_schemas(dialect):
        conditions.append(S.eq(c.reference.table.scope_id, rs))
    # pairs may come in any order
    found = list(zip(c.foreign_columns, c.reference.columns))
    for col, ref in zip(cols, rc):
        conditions.append(S.any([S.all([S.eq(f.local_id, col), S.eq(r.local_id, ref)]) for f, r in found]))
    return S.all(conditions)


def discover(S, dialect, tabs, name="ntable", schema="nschema"):
    return asyncio.run(explorer(S, dialect, tabs).get_table(tid(dialect, schema, name)))


def noise(dialect):
    "Tables with the same names elsewhere, whose columns and constraints are to be left out."

    num = INT[dialect]
    other = [
        table(dialect, "ntarget", [Col("nkey1", num), Col("nkey2", num)], ["nkey1"], other=True, key_name="pk_ntarget"),
        table(
            dialect,
            "ntable",
            [Col("nid", num), Col("ncol1", num), Col("nelse", num, nullable=True)],
            ["nid"],
            uniques=[("uq_ntable", ["nelse"])],
            foreigns=[("fk_ntable", ["ncol1"], "nforeign", "ntarget", ["nkey1"])],
            other=True,
            key_name="pk_ntable",
        ),
    ]
    beside = [
        table(
            dialect,
            "nbeside",
            [Col("nid", num), Col("ncol1", num)],
            ["nid"],
            uniques=[("uq_nbeside", ["ncol1"])],
        )
    ]
    return other + beside


def comment(S, name, dialect):
    if dialect == "mssql" or not S.bool(f"{name}?"):
        return None
    return S.str(name, 0, 2, TEXT)


TIMESTAMP = {"postgresql": "timestamp", "mysql": "datetime", "mssql": "datetime2", "oracle": "timestamp"}
# what the catalog says of the current time, and what the expression is
FUNCTION = {
    "postgresql": ("now()", "now()"),
    "mysql": ("CURRENT_TIMESTAMP", "CURRENT_TIMESTAMP"),
    "mssql": ("(getdate())", "getdate()"),
    "oracle": ("SYSTIMESTAMP ", "SYSTIMESTAMP"),
}
# such a text is in a constant of another kind, with escape sequences
NO_BACKSLASH = ((1, 91), (93, 0xD7FF), (0xE000, 0xEFFFF))


def column_with_default(S, dialect, name, type_sql, kind, comment=None):
    nullable = S.bool(f"{name} nullable")
    if not S.bool(f"{name} default?"):
        return Col(name, type_sql, nullable, comment=comment)
    if kind == "function":
        default, expression = FUNCTION[dialect]
        return Col(name, type_sql, nullable, default=default, expression=expression, generated=True)
    if kind == "number":
        digits = S.str(f"{name} digits", 1, 2, ((48, 57),))
        tokens = [("num", digits)]
        expression = digits
        if S.bool(f"{name} negative"):
            tokens = [("op", "-")] + tokens
            expression = "-" + digits
        label = "INTEGER"
    else:
        value = S.str(f"{name} text", 0, 2, NO_BACKSLASH if dialect == "postgresql" else TEXT)
        tokens = [("str", value)]
        expression = quoted(value)
        label = "VARCHAR"
    return Col(name, type_sql, nullable, default=default_definition(S, dialect, [("word", label)], tokens), comment=comment, expression=expression)


def quoted(value):
    return "'" + value.replace("'", "''") + "'"


@harness("C16", params=grid(dialect=DIALECTS, kind=["key", "number", "text", "function"]))
def columns(S, dialect, kind):
    "Columns with their properties."

    num, text = INT[dialect], TEXT_TYPE[dialect]
    if kind == "key":
        names = [S.str("name0", 1, 2, LOWER), S.str("name1", 1, 2, LOWER)]
        S.assume(S.not_(names[0] == names[1]))
        cols = [
            Col(names[0], num, identity=S.bool("identity0")),
            Col(names[1], text, nullable=S.bool("nullable1")),
        ]
        key = [names[0]]
    else:
        cols = [
            Col("nid", num),
            column_with_default(S, dialect, "ncol1", {"number": num, "text": text, "function": TIMESTAMP[dialect]}[kind], kind),
            Col("ncol2", text, S.bool("nullable2"), comment=comment(S, "comment2", dialect) if kind != "text" else None),
        ]
        key = ["nid"]
    tab = table(dialect, "ntable", cols, key, comment=comment(S, "comment", dialect) if kind == "key" else None)
    tabs = [tab] + noise(dialect)
    compare(S, dialect, discover(S, dialect, tabs), tab)


def distinct(S, names):
    for i, a in enumerate(names):
        for b in names[:i]:
            S.assume(S.not_(a == b))


ORDERS = [["nid"], ["nid", "ncol1"], ["ncol1", "nid"], ["ncol2", "nid", "ncol1"]]


@harness("C16", params=grid(dialect=DIALECTS))
def primary_key(S, dialect):
    num = INT[dialect]
    key = S.choose("key", ORDERS)
    cols = [Col("nid", num), Col("ncol1", num), Col("ncol2", num)]
    tab = table(dialect, "ntable", cols, key, uniques=[("uq_other", ["ncol2"])], key_name="pk_ntable")
    compare(S, dialect, discover(S, dialect, noise(dialect) + [tab]), tab)


@harness("C16", params=grid(dialect=DIALECTS))
def unique_constraints(S, dialect):
    num = INT[dialect]
    cols = [Col("nid", num), Col("ncol1", num), Col("ncol2", num), Col("ncol3", num)]
    names = [S.str("first", 1, 2, LOWER), S.str("second", 1, 2, LOWER)]
    distinct(S, names)
    first = S.choose("columns1", [["ncol1"], ["ncol2", "ncol1"], ["ncol1", "ncol2"], ["ncol3", "ncol1", "ncol2"]])
    uniques = [(names[0], first)]
    if S.bool("two"):
        uniques.append((names[1], S.choose("columns2", [["ncol2"], ["ncol3", "ncol2"], ["ncol3", "ncol1"]])))
    tab = table(dialect, "ntable", cols, ["nid"], uniques=uniques)
    tabs = noise(dialect) + [tab]
    if dialect == "mysql":
        # names of constraints are those of a table
        tabs.insert(S.choose("place", [0, len(tabs)]), table(dialect, "nsimilar", cols, ["nid"], uniques=[(names[0], ["ncol3"])]))
    compare(S, dialect, discover(S, dialect, tabs), tab)


@harness("C16", params=grid(dialect=DIALECTS, count=[1, 2]))
def foreign_keys(S, dialect, count):
    num = INT[dialect]
    cols = [Col("nid", num), Col("ncol1", num), Col("ncol2", num), Col("ncol3", num)]
    names = [S.str("first", 1, 2, LOWER), S.str("second", 1, 2, LOWER)][:count]
    distinct(S, names)
    # a composite key; a foreign key may mention its columns in any order
    key = S.choose("key", [["nkey1", "nkey2"], ["nkey2", "nkey1"]])
    target = table(dialect, "ntarget", [Col("nkey1", num), Col("nkey2", num)], key, key_name="pk_ntarget")
    single = table(dialect, "nsingle", [Col("nskey", num)], ["nskey"], key_name="pk_nsingle")
    composite = S.choose("columns", [["ncol1", "ncol2"], ["ncol2", "ncol1"]])
    pairing = S.choose("referenced", [["nkey1", "nkey2"], ["nkey2", "nkey1"]])
    S.known("mssql-foreign-order", dialect == "mssql" and key != pairing)
    if dialect == "oracle":
        # the referenced columns are listed in the order of the key
        S.assume(key == pairing)
    foreigns = [(names[0], composite, "nschema", "ntarget", pairing)]
    if count == 2:
        simple = S.choose("simple", ["ncol1", "ncol3"])
        foreigns.append((names[1], [simple], "nschema", "nsingle", ["nskey"]))
        if S.bool("swap"):
            foreigns.reverse()
    tab = table(dialect, "ntable", cols, ["nid"], foreigns=foreigns)
    tabs = noise(dialect) + [target, single, tab]
    if dialect == "postgresql":
        # names of constraints are those of a table
        tabs.insert(S.choose("place", [0, len(tabs)]), table(dialect, "nsimilar", cols, ["nid"], foreigns=[(names[0], ["ncol3"], "nschema", "nsingle", ["nskey"])]))
    compare(S, dialect, discover(S, dialect, tabs), tab)


def interleaved(sizes):
    "All orders in which items of several lists may come, without changing the order in a list."

    if not any(sizes):
        return [[]]
    result = []
    for i, n in enumerate(sizes):
        if n:
            rest = list(sizes)
            rest[i] -= 1
            result += [[i, *r] for r in interleaved(rest)]
    return result


@harness("C16", params=grid(kind=["unique", "foreign"], sizes=[[3, 2], [2, 3], [1, 2]]), thorough=grid(kind=["unique", "foreign"], sizes=[[3, 3], [2, 2, 1]]))
def interleaving(S, kind, sizes):
    "Rows of several constraints in any order."

    order = S.choose("order", interleaved(sizes))
    names = [S.str(f"name{i}", 1, 2, TEXT) for i in range(len(sizes))]
    distinct(S, names)
    expected = [[(S.str(f"column{i}{k}", 1, 1, LOWER), S.str(f"target{i}{k}", 1, 1, LOWER)) for k in range(n)] for i, n in enumerate(sizes)]
    factory = UniqueFactory() if kind == "unique" else ForeignFactory()
    tables = [QualifiedId("nschema", "ntarget"), QualifiedId("nother", "ntarget"), QualifiedId("nschema", "nmore")]
    position = [0] * len(sizes)
    for i in order:
        column, target = expected[i][position[i]]
        position[i] += 1
        if kind == "unique":
            factory.add(names[i], LocalId(column))
        else:
            # a table is looked up for each row
            table = QualifiedId(tables[i].scope_id, tables[i].local_id)
            factory.add(names[i], LocalId(column), table, LocalId(target))
    found = factory.fetch()
    S.check(len(found) == len(sizes), "there is one constraint for each name")
    for i, name in enumerate(names):
        for c in found:
            if not S.eq(c.name.local_id, name):
                continue
            columns = c.unique_columns if kind == "unique" else c.foreign_columns
            S.check(same_names(S, columns, [a for a, _ in expected[i]]), "a constraint has its columns in order")
            if kind == "foreign":
                S.check(c.reference.table == tables[i], "a foreign key refers to its table")
                S.check(same_names(S, c.reference.columns, [b for _, b in expected[i]]), "columns are paired with those they refer to")
            break
        else:
            S.fail("each constraint has its name")


def same_tables(S, dialect, found, tabs):
    found = list(found.tables.values())
    S.check(len(found) == len(tabs), "namespace has all its tables and no other")
    for t in tabs:
        S.check(
            S.any([S.eq(f.name.local_id, t.name) for f in found]),
            "namespace has the tables that are in the database schema",
        )


# Oracle marks system tables with a dollar sign; backslash is covered by the property on string constants
NAMES = ((0x20, 0x23), (0x25, 0x5B), (0x5D, 0x7E))


@harness(
    "C16",
    params=grid(dialect=DIALECTS + ["trino"], current=[False, True]),
    thorough=grid(dialect=DIALECTS + ["trino"], current=[False, True], longest=[3]),
)
def namespaces(S, dialect, current, longest=1):
    "The tables of a namespace."

    num = INT[dialect]
    cols = [Col("nid", num)]
    schema = S.str("schema", 1, longest, NAMES)
    if has_schemas(dialect):
        other = S.str("other", 1, longest, NAMES)
        S.assume(S.not_(schema == other))
        names = [S.str("table0", 1, longest, NAMES), S.str("table1", 1, longest, NAMES)]
        places = [schema, schema if S.bool("same") else other]
        S.assume(S.any([S.not_(names[0] == names[1]), S.not_(places[0] == places[1])]))
        tabs = [Tab(p, n, cols, ["nid"]) for p, n in zip(places, names)]
        expected = [t for t in tabs if t.schema == schema]
    else:
        S.assume("_" not in schema)
        prefix = "nlonger" if current else schema
        own = prefix + S.choose("own", ["__ntable", "__n__t", f"__{prefix}__t", "__n_t"])
        names = ["nplain", own, S.str("table", 3, 3 + longest, NAMES)]
        S.assume(S.not_(names[2] == names[1]))
        tabs = [Tab(None, n, cols, ["nid"]) for n in names]
        if current:
            expected = [t for t in tabs if "__" not in t.name]
        else:
            expected = [t for t in tabs if t.name.startswith(schema + "__")]
    ctx = fake_context(dialect, answer=catalog(S, dialect, tabs, current=schema if has_schemas(dialect) else "ndatabase"))
    x = engine(dialect).create_explorer(ctx)
    if current:
        found = asyncio.run(x.get_namespace_current())
    else:
        found = asyncio.run(x.get_namespace(LocalId(schema)))
    same_tables(S, dialect, found, expected)
    if expected and has_schemas(dialect) and not current:
        S.check(S.eq(found.name.local_id, schema), "namespace has its name")


@harness("C16", params=[{}], thorough=[{"longest": 3}])
def enumerations(S, longest=1):
    "Enumerations of a schema, with their labels in order (PostgreSQL)."

    names = [S.str("name0", 1, longest, LOWER), S.str("name1", 1, longest, LOWER)]
    S.assume(S.not_(names[0] == names[1]))
    labels = [[S.str(f"label{i}{j}", 0, longest, LOWER) for j in range(2)] for i in range(2)]
    for a, b in labels:
        S.assume(S.not_(a == b))
    place = S.choose("place", ["nschema", "nother"])
    enums = [("nschema", names[0], labels[0]), (place, names[1], labels[1])]
    x = explorer(S, "postgresql", [], enums)
    found = list(asyncio.run(x.get_namespace(LocalId("nschema"))).enums.values())
    expected = [e for e in enums if e[0] == "nschema"]
    S.check(len(found) == len(expected), "namespace has all its enumerations and no other")
    for _, name, values in expected:
        S.check(
            S.any(
                [
                    S.all([S.eq(f.name.local_id, name), len(f.values) == len(values)] + [S.eq(a, b) for a, b in zip(f.values, values)])
                    for f in found
                ]
            ),
            "enumeration has its name and its labels in order",
        )


MEMBER_TYPES = ["bigint", "varchar(12)", "numeric(8,3)", "timestamp(3) with time zone", "integer ARRAY", "varchar(7) ARRAY", '"nschema"."nmood"', '"nschema"."nmood" ARRAY']


@harness(
    "C16",
    params=grid(kind=MEMBER_TYPES, other=["varchar(7) ARRAY"]),
    thorough=grid(kind=MEMBER_TYPES, other=MEMBER_TYPES),
)
def structs(S, kind, other):
    "Composite types of a schema, with their members in order (PostgreSQL)."

    name = S.str("name", 1, 2, LOWER)
    members = []
    for i, type_sql in enumerate([kind, other]):
        comment = S.str(f"comment{i}", 1, 1, TEXT) if i == 0 and S.bool(f"comment{i}?") else None
        members.append(Col(S.str(f"member{i}", 1, 2, LOWER), type_sql, nullable=True, comment=comment))
    S.assume(S.not_(members[0].name == members[1].name))
    comment = S.str("comment", 1, 1, TEXT) if S.bool("comment?") else None
    types = [("nschema", name, members, comment), ("nother", name, members[:1], "nnoise")]
    x = explorer(S, "postgresql", [], [("nschema", "nmood", ["a"])], types)
    found = list(asyncio.run(x.get_namespace(LocalId("nschema"))).structs.values())
    S.check(len(found) == 1, "namespace has its composite type")
    s = found[0]
    S.check(S.eq(s.name.local_id, name), "composite type has its name")
    S.check(same_description(S, s.description, comment), "composite type has its description")
    S.check(len(s.members) == 2, "composite type has all its members and no other")
    for f, m in zip(list(s.members.values()), members):
        S.check(S.eq(f.name.local_id, m.name), "member has its name")
        S.check(same_description(S, f.description, m.comment), "member has its description")
        S.check(TYPES["postgresql"](str(f.data_type)).same(S, TYPES["postgresql"](m.type_sql)), "member has its type")


@harness("C16", params=grid(kind=["bigint", "text", "varchar", "decimal", "timestamp"]))
def limited_columns(S, kind):
    "Databases that report no more than the name and type of columns (Trino)."

    if kind == "varchar":
        type_sql = f"varchar({S.int('length', 1, 2**31 - 1)})"
    elif kind == "decimal":
        type_sql = f"decimal({S.int('precision', 10, 38)},{S.int('scale', 0, 10)})"
    elif kind == "timestamp":
        type_sql = f"timestamp({S.int('precision', 0, 6)})" + (" with time zone" if S.bool("zone") else "")
    else:
        type_sql = kind
    names = [S.str("name0", 1, 2, LOWER), S.str("name1", 1, 2, LOWER)]
    S.assume(S.not_(names[0] == names[1]))
    cols = [Col(names[0], "bigint"), Col(names[1], type_sql, nullable=S.bool("nullable"))]
    tables = {
        "information_schema.tables": [{"table_catalog": "c", "table_schema": s, "table_name": "ntable", "table_type": "BASE TABLE"} for s in ("nschema", "nforeign")],
        "information_schema.columns": [
            {
                "table_catalog": "c",
                "table_schema": s,
                "table_name": "ntable",
                "column_name": c.name if s == "nschema" else "nelse",
                "ordinal_position": i,
                "column_default": None,
                "is_nullable": "YES" if c.nullable else "NO",
                "data_type": c.type_sql,
            }
            for s in ("nforeign", "nschema")
            for i, c in enumerate(cols, start=1)
        ],
    }
    evaluator = Evaluator(S, tables, {}, "trino")

    def answer(signature, statement):
        names, rows = evaluator(statement)
        return deliver(signature, names, rows)

    x = engine("trino").create_explorer(fake_context("trino", answer=answer))
    found = asyncio.run(x.get_table(tid("trino", "nschema", "ntable")))
    columns = list(found.columns.values())
    S.check(len(columns) == 2, "table has all its columns and no other")
    for f, c in zip(columns, cols):
        S.check(same_column(S, "trino", f, c), "column has the position, name, type and nullability of the column in the database")


@harness("C16", params=grid(dialect=["postgresql", "mysql", "mssql", "trino"], what=["table", "column", "names"]))
def lookups(S, dialect, what):
    "Whether there is a table, or a column in a table."

    num = INT[dialect]
    schemas = has_schemas(dialect)
    names = [S.str("name", 1, 2, LOWER), S.str("other name", 1, 2, LOWER)]
    cols = [Col("nid", num), Col(S.str("column", 1, 2, LOWER), num)]
    more = [Col("nid", num), Col(S.str("other column", 1, 2, LOWER), num)]
    tabs = [
        table(dialect, names[0], cols, ["nid"], key_name="pk_first"),
        table(dialect, names[1], more, ["nid"], key_name="pk_second", schema=CURRENT if schemas else None),
        table(dialect, "nelse", more, ["nid"], key_name="pk_third", other=True),
    ]
    if what == "names":
        found = asyncio.run(explorer(S, dialect, tabs).get_table_names())
        for t in tabs:
            schema = t.schema if schemas else t.database or CURRENT
            S.check(S.any([S.all([S.eq(f.scope_id, schema), S.eq(f.local_id, t.name)]) for f in found]), "all tables are listed")
        return
    # without a schema, a name refers to the current schema
    scope = S.choose("scope", ["nschema", None])
    i = 0 if scope else 1
    if what == "table":
        asked = S.choose("asked", ["name", "other"])
        asked = names[i] if asked == "name" else S.str("asked name", 1, 2, LOWER)
        found = asyncio.run(explorer(S, dialect, tabs).has_table(tid(dialect, scope, asked)))
        S.check(S.eq(bool(found), S.eq(asked, names[i])), "a table is found if and only if it is in the schema")
    else:
        asked = S.str("asked name", 1, 3, LOWER)
        found = asyncio.run(explorer(S, dialect, tabs).has_column(tid(dialect, scope, names[i]), LocalId(asked)))
        expected = S.any([S.eq(asked, c.name) for c in (cols, more)[i]])
        S.check(S.eq(bool(found), expected), "a column is found if and only if it is in the table")
