"Models that are equal need no statement; each difference leads to a statement or an error."

import copy

from pysqlsync.formation.object_types import FormationError
from pysqlsync.model.data_types import quote

from symex.api import ASCII_TEXT, LOWER, TEXT, grid, harness

from . import c13_types
from .common import DIALECTS, Models, generator, has_schemas, has_types

# dialects that keep descriptions of tables and columns
COMMENTED = ("postgresql", "redshift", "mysql", "snowflake", "delta")
TYPED = [d for d in DIALECTS if has_types(d)]


def script(dialect, source, target):
    "The synchronization script; an error counts as a statement."

    gen = generator(dialect)
    gen.state = copy.deepcopy(source)
    try:
        return gen.get_mutate_stmt(copy.deepcopy(target))
    except FormationError:
        return "-- refused"


def compare(S, dialect, source, target, same):
    """
    Checks that there is a script exactly if two models differ.

    :param same: Whether everything that the dialect can store is the same in the two models.
    """

    S.check(script(dialect, source, source) is None, "a model that is equal needs no statement")
    changes = script(dialect, source, target)
    S.check(S.implies(changes is None, same), "a difference leads to a statement or an error")
    S.check(S.implies(same, changes is None), "there is no statement without a difference")


def same_text(S, a, b):
    "Whether two optional texts are the same; an empty comment is no comment."

    if a is None and b is None:
        return True
    if a is None:
        return S.eq(b, "")
    if b is None:
        return S.eq(a, "")
    return S.eq(a, b)


@harness("C05", params=grid(dialect=DIALECTS), thorough=grid(dialect=DIALECTS, size=[2]))
def column(S, dialect, size=1):
    "Two columns that differ in any combination of properties."

    m = Models(dialect)

    def single(which):
        limit = S.int(f"{which} limit", 1, 4000)
        nullable = S.bool(f"{which} nullable")
        identity = S.bool(f"{which} identity")
        S.assume(S.not_(S.all([identity, nullable])))
        default = S.str(f"{which} default", 0, size, ASCII_TEXT) if S.choose(f"{which} has default", [False, True]) else None
        if default is not None:
            S.assume(S.not_(identity))
        return limit, nullable, identity, default

    def model(limit, nullable, identity, default):
        col = m.column("nvalue", m.text(limit), nullable, default=quote(default) if default is not None else None, identity=identity)
        return m.catalog(m.namespace("nschema", tables=[m.table("nschema", "ntable", [m.column("nid", m.int(8)), col], "nid")]))

    a = single("source")
    b = single("target")
    if (a[3] is None) != (b[3] is None):
        defaults = False
    else:
        defaults = a[3] is None or S.eq(a[3], b[3])
    same = S.all([S.eq(a[0], b[0]), S.eq(a[1], b[1]), S.eq(a[2], b[2]), defaults])
    compare(S, dialect, model(*a), model(*b), same)


@harness("C05", params=grid(dialect=["postgresql", "mysql", "mssql", "oracle"]))
def types(S, dialect):
    "Two columns of any types."

    m = Models(dialect)

    def single(which):
        family = S.choose(f"{which} family", c13_types.FAMILIES[dialect] if which == "source" else list(dict.fromkeys(chosen + ["integer", "decimal", "text", "timestamp"])))
        chosen.append(family)
        return c13_types.make(Prefixed(S, which), dialect, family, 1)

    def model(data_type):
        col = m.column("nvalue", data_type)
        return m.catalog(m.namespace("nschema", tables=[m.table("nschema", "ntable", [m.column("nid", m.int(8)), col], "nid")]))

    chosen = []
    a = single("source")
    b = single("target")
    S.check(script(dialect, model(a), model(a)) is None, "a column that is equal needs no statement")
    changes = script(dialect, model(a), model(b))
    S.check(S.implies(changes is None, S.eq(str(a), str(b))), "a difference of types leads to a statement or an error")


class Prefixed:
    "Gives names of their own to the inputs of one of several parts of a harness."

    def __init__(self, env, prefix):
        self.env = env
        self.prefix = prefix

    def __getattr__(self, name):
        found = getattr(self.env, name)
        if name in ("str", "int", "bool", "choose"):
            return lambda label, *args, **kwargs: found(f"{self.prefix} {label}", *args, **kwargs)
        return found


@harness("C05", params=grid(dialect=COMMENTED, where=["column", "table"]), thorough=grid(dialect=COMMENTED, where=["column", "table"], size=[2]))
def comment(S, dialect, where, size=1):
    "Two descriptions of a column or table."

    m = Models(dialect)

    def single(which):
        return S.str(f"{which} description", 0, size, TEXT) if S.choose(f"{which} described", [False, True]) else None

    def model(text):
        col = m.column("nvalue", m.int(8), description=text if where == "column" else None)
        table = m.table("nschema", "ntable", [m.column("nid", m.int(8)), col], "nid", description=text if where == "table" else None)
        return m.catalog(m.namespace("nschema", tables=[table]))

    a = single("source")
    b = single("target")
    S.known("comment", dialect in ("snowflake", "delta"))

    def kept(text):
        # MySQL keeps the first line of a description only
        return text.split("\n")[0] if text is not None and dialect == "mysql" else text

    same = same_text(S, kept(a), kept(b))
    S.check(script(dialect, model(a), model(a)) is None, "a model that is equal needs no statement")
    changes = script(dialect, model(a), model(b))
    S.check(S.implies(changes is None, same), "a different description leads to a statement or an error")


@harness("C05", params=grid(dialect=DIALECTS))
def constraints(S, dialect):
    "Two constraints of any kind, with the same or another name."

    m = Models(dialect)

    def single(which):
        kind = S.choose(f"{which} kind", [None, "unique", "foreign", "check"])
        if kind is None:
            return None
        name = S.choose(f"{which} name", ["co_one", "co_two"])
        if kind == "unique":
            return m.unique(name, S.choose(f"{which} columns", [["na"], ["nb"], ["na", "nb"], ["nb", "na"]]))
        if kind == "check":
            return m.check(name, f'"na" > {S.choose(f"{which} limit", [1, 2])}')
        columns = S.choose(f"{which} columns", [["na"], ["nb"], ["na", "nb"], ["nb", "na"]])
        refs = ["nid"] if len(columns) == 1 else S.choose(f"{which} references", [["nid", "nextra"], ["nextra", "nid"]])
        table = S.choose(f"{which} table", ["nother", "nlast"])
        return m.foreign(name, columns, "nschema", table, refs)

    def model(con):
        others = [
            m.table("nschema", n, [m.column("nid", m.int(8)), m.column("nextra", m.int(8))], "nid", [m.unique(f"uq_{n}", ["nid", "nextra"])])
            for n in ("nother", "nlast")
        ]
        cols = [m.column("nid", m.int(8)), m.column("na", m.int(8)), m.column("nb", m.int(8))]
        return m.catalog(m.namespace("nschema", tables=[*others, m.table("nschema", "ntable", cols, "nid", [con] if con is not None else [])]))

    a = single("source")
    b = single("target")
    same = a is b is None or (a is not None and b is not None and str(a) == str(b))
    compare(S, dialect, model(a), model(b), same)


@harness("C05", params=grid(dialect=DIALECTS))
def key(S, dialect):
    "Two primary keys."

    m = Models(dialect)

    def single(which):
        return S.choose(f"{which} key", [["na"], ["nb"], ["na", "nb"], ["nb", "na"]])

    def model(columns):
        return m.catalog(m.namespace("nschema", tables=[m.table("nschema", "ntable", [m.column("na", m.int(8)), m.column("nb", m.int(8))], columns)]))

    a = single("source")
    b = single("target")
    S.known("primary-key", a != b)
    compare(S, dialect, model(a), model(b), a == b)


@harness("C05", params=grid(dialect=DIALECTS), thorough=grid(dialect=DIALECTS, size=[2]))
def names(S, dialect, size=1):
    "A schema, table, column or constraint with another name."

    m = Models(dialect)
    level = S.choose("level", ["schema", "table", "column", "constraint"] if has_schemas(dialect) else ["table", "column", "constraint"])

    def model(name):
        def named(kind):
            return name if kind == level else f"n{kind}"

        cols = [m.column("nid", m.int(8)), m.column(named("column"), m.int(8))]
        cons = [m.unique(named("constraint"), ["nid"])]
        return m.catalog(m.namespace(named("schema"), tables=[m.table(named("schema"), named("table"), cols, "nid", cons)]))

    a = S.str("source", 1, size, LOWER)
    b = S.str("target", 1, size, LOWER)
    compare(S, dialect, model(a), model(b), S.eq(a, b))


@harness("C05", params=grid(dialect=TYPED), thorough=grid(dialect=TYPED, size=[2]))
def labels(S, dialect, size=1):
    "Two enumerations."

    m = Models(dialect)

    def single(which):
        values = [S.str(f"{which}{i}", 1, size, ASCII_TEXT) for i in range(S.choose(which, [1, 2]))]
        for i, x in enumerate(values):
            for y in values[:i]:
                S.assume(S.not_(S.eq(x, y)))
        return values

    def model(values):
        return m.catalog(m.namespace("nschema", enums=[m.enum("nschema", "nenum", values)]))

    a = single("source")
    b = single("target")
    same = len(a) == len(b) and S.all([S.any([S.eq(x, y) for y in b]) for x in a])
    compare(S, dialect, model(a), model(b), same)


@harness("C05", params=grid(dialect=TYPED), thorough=grid(dialect=TYPED, size=[2]))
def structs(S, dialect, size=1):
    "Two composite types."

    m = Models(dialect)

    def single(which):
        member = S.choose(f"{which} member", ["na", "nb"])
        limit = S.int(f"{which} limit", 1, 100)
        remark = S.str(f"{which} remark", 0, size, ASCII_TEXT) if S.choose(f"{which} remarked", [False, True]) else None
        description = S.str(f"{which} description", 0, size, ASCII_TEXT) if S.choose(f"{which} described", [False, True]) else None
        return member, limit, remark, description

    def model(member, limit, remark, description):
        return m.catalog(m.namespace("nschema", structs=[m.struct("nschema", "nstruct", [(member, m.text(limit), remark)], description)]))

    a = single("source")
    b = single("target")
    same = S.all([a[0] == b[0], S.eq(a[1], b[1]), same_text(S, a[2], b[2]), same_text(S, a[3], b[3])])
    S.check(script(dialect, model(*a), model(*a)) is None, "a model that is equal needs no statement")
    changes = script(dialect, model(*a), model(*b))
    S.check(S.implies(changes is None, same), "a difference leads to a statement or an error")


@harness("C05", params=grid(dialect=DIALECTS))
def objects(S, dialect):
    "Objects of any kind are present or absent."

    m = Models(dialect)
    kinds = ["table", "column", "constraint"]
    if has_schemas(dialect):
        kinds.append("schema")
    if has_types(dialect):
        kinds += ["enum", "struct"]

    def single(which):
        return {k: S.choose(f"{which} {k}", [False, True]) for k in kinds}

    def model(present):
        spaces = []
        cols = [m.column("nid", m.int(8))]
        if present["column"]:
            cols.append(m.column("nvalue", m.int(8)))
        cons = [m.unique("uq_ntable", ["nid"])] if present["constraint"] else []
        tables = [m.table("nschema", "ntable", cols, "nid", cons)]
        if present["table"]:
            tables.append(m.table("nschema", "nother", [m.column("nid", m.int(8))], "nid"))
        enums = [m.enum("nschema", "nenum", ["a"])] if present.get("enum") else []
        structs = [m.struct("nschema", "nstruct", [("nmember", m.int(8), None)])] if present.get("struct") else []
        spaces.append(m.namespace("nschema", enums=enums, structs=structs, tables=tables))
        if present.get("schema"):
            spaces.append(m.namespace("nextra"))
        return m.catalog(*spaces)

    a = single("source")
    b = single("target")
    compare(S, dialect, model(a), model(b), a == b)
