"A script that synchronises a schema, executed by a reference database."

import copy

from pysqlsync.formation.object_types import FormationError
from pysqlsync.model.data_types import SqlDecimalType, quote

from symex.api import ASCII_TEXT, LOWER, grid, harness

from .common import DIALECTS, Models, generator, has_schemas, has_types
from .refdb import Database
from .schemas import check_schema, execute

# a backslash in a constant is part of C02
NO_BACKSLASH = ((1, 91), (93, 126))
# dialects whose tables and columns keep a comment when they are synchronised
COMMENTED = ("postgresql", "redshift", "mysql")


def synchronize(S, dialect, source, target, refusable=False, comments=True):
    """
    Changes a database with the objects of one model to have those of the other.

    :param refusable: Whether the change may be refused.
    :returns: The reference database, or `None` if the change is refused.
    """

    comments = comments and dialect in COMMENTED
    db = Database(dialect)
    gen = generator(dialect)
    if not execute(S, db, gen.get_mutate_stmt(copy.deepcopy(source)), "source: "):
        return None
    gen.state = copy.deepcopy(source)
    try:
        script = gen.get_mutate_stmt(copy.deepcopy(target))
    except FormationError as ex:
        S.check(refusable, f"a change that the database supports is not refused: {ex}")
        return None
    if not execute(S, db, script):
        return None
    check_schema(S, db, target, ordered=False, comments=comments)
    gen.state = copy.deepcopy(target)
    S.check(gen.get_mutate_stmt(copy.deepcopy(target)) is None, "there is nothing left to do")
    return db


@harness("C04", params=grid(dialect=DIALECTS, aspect=["type", "default", "description", "remark", "properties"]))
def column(S, dialect, aspect, size=1):
    "Properties of a column are changed."

    m = Models(dialect)

    def text(name, alphabet):
        return S.str(name, 0, size, alphabet)

    def single(which):
        data_type = m.int(4)
        default = None
        description = None
        nullable = S.bool(f"{which} nullable")
        identity = False
        if aspect == "type":
            kind = S.choose(f"{which} kind", ["int", "text", "decimal"] if which == "source" else ["same"])
            if which == "source":
                chosen.append(kind)
            kind = chosen[0]
            if kind == "int":
                data_type = m.int(S.choose(f"{which} width", [4, 8]))
                default = S.choose(f"{which} default", [None, "7", "8"])
            elif kind == "text":
                data_type = m.text(S.int(f"{which} limit", 1, 4000))
                default = S.choose(f"{which} default", [None, "'a'", "'b'"])
            else:
                data_type = SqlDecimalType(S.int(f"{which} precision", 10, 38), S.int(f"{which} scale", 0, 10))
        elif aspect == "default":
            data_type = m.text(100)
            if S.choose(f"{which} default", [False, True]):
                default = quote(text(f"{which} default", NO_BACKSLASH))
        elif aspect == "description":
            if S.choose(f"{which} described", [False, True]):
                description = text(f"{which} description", ASCII_TEXT)
        elif aspect == "properties":
            identity = S.choose(f"{which} identity", [False, True])
            if identity:
                nullable = False
                data_type = m.int(S.choose(f"{which} width", [4, 8]))
            elif S.choose(f"{which} default", [False, True]):
                default = "7"
        remark = None
        if aspect == "remark" and S.choose(f"{which} remarked", [False, True]):
            remark = text(f"{which} remark", ASCII_TEXT)
        return m.catalog(
            m.namespace(
                "nschema",
                tables=[
                    m.table(
                        "nschema",
                        "ntable",
                        [
                            m.column("nid", m.int(8)),
                            m.column("nvalue", data_type, nullable, default=default, identity=identity, description=description),
                        ],
                        "nid",
                        description=remark,
                    )
                ],
            )
        )

    chosen = []
    source = single("source")
    target = single("target")
    refusable = aspect == "properties" and dialect in ("mssql", "oracle")
    synchronize(S, dialect, source, target, refusable)


@harness("C04", params=grid(dialect=DIALECTS))
def several(S, dialect):
    "Properties of several columns are changed at the same time."

    m = Models(dialect)
    apart = S.choose("apart", [False, True])

    def single(which):
        def varying(name):
            kind = S.choose(f"{which} {name}", ["plain", "wide", "nullable", "default"])
            return m.column(name, m.int(8 if kind == "wide" else 4), kind == "nullable", default="7" if kind == "default" else None)

        first = [m.column("nid", m.int(8)), varying("nx")]
        second = [m.column("nid", m.int(8))]
        (second if apart else first).append(varying("ny"))
        return m.catalog(
            m.namespace("nschema", tables=[m.table("nschema", "nother", second, "nid"), m.table("nschema", "ntable", first, "nid")])
        )

    synchronize(S, dialect, single("source"), single("target"))


@harness("C04", params=grid(dialect=DIALECTS))
def columns(S, dialect):
    "Columns are added and removed along with the constraints on them."

    m = Models(dialect)

    def single(which):
        has = {n: S.choose(f"{which} {n}", [False, True]) for n in ("nx", "ny")}
        cols = [m.column("nid", m.int(8))]
        cons = []
        if has["nx"]:
            cols.append(m.column("nx", m.int(8), S.bool(f"{which} nullable")))
            kind = S.choose(f"{which} constraint", [None, "unique", "foreign", "check"])
            if kind == "unique":
                cons.append(m.unique("uq_x", ["nx"]))
            elif kind == "foreign":
                cons.append(m.foreign("fk_x", ["nx"], "nschema", "nother", ["nid"]))
            elif kind == "check":
                cons.append(m.check("ck_x", '"nx" > 0'))
        if has["ny"]:
            cols.append(m.column("ny", m.text(10), default="'a'"))
            if has["nx"] and S.choose(f"{which} both", [False, True]):
                cons.append(m.unique("uq_xy", ["nx", "ny"]))
        return m.catalog(
            m.namespace(
                "nschema",
                tables=[m.table("nschema", "nother", [m.column("nid", m.int(8))], "nid"), m.table("nschema", "ntable", cols, "nid", cons)],
            )
        )

    synchronize(S, dialect, single("source"), single("target"))


@harness("C04", params=grid(dialect=DIALECTS), thorough=grid(dialect=DIALECTS, names=[("na", "nb", "nc")]))
def tables(S, dialect, names=("na", "nb")):
    "Tables that refer to one another are added and removed."

    m = Models(dialect)
    order = S.choose("order", [names, names[::-1]])

    def single(which):
        present = [n for n in order if S.choose(f"{which} {n}", [False, True])]
        return linked_tables(S, m, which, present)

    synchronize(S, dialect, single("source"), single("target"))


def linked_tables(S, m, which, present, ref=None):
    out = []
    for n in present:
        ref = S.choose(f"{which} {n} refers to", [None, *present])
        cols = [m.column("nid", m.int(8)), m.column("nref", m.int(8), True)]
        cons = [m.foreign(f"fk_{n}_{ref}", ["nref"], "nschema", ref, ["nid"])] if ref is not None else []
        out.append(m.table("nschema", n, cols, "nid", cons))
    return m.catalog(m.namespace("nschema", tables=out))


@harness("C04", params=grid(dialect=DIALECTS))
def removed(S, dialect):
    "Tables that refer to one another are removed (and, the other way around, added)."

    m = Models(dialect)
    many = linked_tables(S, m, "before", ["na", "nb", "nc"])
    few = linked_tables(S, m, "after", ["nb"][: S.int("remaining", 0, 1)])
    if S.choose("added", [False, True]):
        many, few = few, many
    synchronize(S, dialect, many, few)


@harness("C04", params=grid(dialect=DIALECTS))
def constraints(S, dialect):
    "Constraints are added, removed and changed."

    m = Models(dialect)

    def single(which, names):
        cons = []
        for n in names:
            kind = S.choose(f"{which} {n}", [None, "unique x", "unique y x", "foreign na", "foreign nb", "check"])
            if kind is None:
                continue
            kind, *args = kind.split()
            if kind == "unique":
                cons.append(m.unique(n, [f"n{a}" for a in args]))
            elif kind == "foreign":
                cons.append(m.foreign(n, ["nx"], "nschema", args[0], ["nid"]))
            else:
                cons.append(m.check(n, f'"nx" > {S.int(f"{which} limit", 1, 2)}'))
        cols = [m.column("nid", m.int(8)), m.column("nx", m.int(8)), m.column("ny", m.int(8))]
        return cons, m.catalog(
            m.namespace(
                "nschema",
                tables=[
                    m.table("nschema", "na", [m.column("nid", m.int(8))], "nid"),
                    m.table("nschema", "nb", [m.column("nid", m.int(8))], "nid"),
                    m.table("nschema", "ntable", cols, "nid", cons),
                ],
            )
        )

    before, source = single("source", ("co_one", "co_two"))
    after, target = single("target", ("co_one",))
    if S.choose("reverse", [False, True]):
        before, source, after, target = after, target, before, source
    same = {c.name.local_id: c for c in before}
    changed = [c for c in after if c.name.local_id in same and str(same[c.name.local_id]) != str(c)]
    synchronize(S, dialect, source, target, refusable=bool(changed))


@harness("C04", params=grid(dialect=DIALECTS))
def key(S, dialect):
    "The primary key is changed."

    m = Models(dialect)

    def single(which):
        columns = S.choose(f"{which} key", [["nid"], ["nother"], ["nid", "nother"], ["nother", "nid"]])
        chosen.append(columns)
        return m.catalog(m.namespace("nschema", tables=[m.table("nschema", "ntable", [m.column("nid", m.int(8)), m.column("nother", m.int(8))], columns)]))

    chosen = []
    source = single("source")
    target = single("target")
    S.known("primary-key", chosen[0] != chosen[1])
    synchronize(S, dialect, source, target, refusable=chosen[0] != chosen[1])


TYPED = [d for d in DIALECTS if has_types(d)]


def distinct(S, labels):
    for i, a in enumerate(labels):
        for b in labels[:i]:
            S.assume(S.not_(S.eq(a, b)))


@harness("C04", params=grid(dialect=TYPED), thorough=grid(dialect=TYPED, size=[2]))
def labels(S, dialect, size=1):
    "Labels are added to an enumeration; removing one is refused."

    m = Models(dialect)
    before = [S.str(f"before{i}", 1, size, ASCII_TEXT) for i in range(S.choose("before", [1, 2]))]
    after = [S.str(f"after{i}", 1, size, ASCII_TEXT) for i in range(S.choose("after", [1, 2, 3]))]
    distinct(S, before)
    distinct(S, after)
    removed = S.not_(S.all([S.any([S.eq(a, b) for a in after]) for b in before]))

    def single(values):
        return m.catalog(
            m.namespace(
                "nschema",
                enums=[m.enum("nschema", "nenum", values)],
                tables=[m.table("nschema", "ntable", [m.column("nid", m.int(8)), m.column("nkind", m.user_type("nschema", "nenum"))], "nid")],
            )
        )

    db = synchronize(S, dialect, single(before), single(after), refusable=True)
    S.check(S.eq(removed, db is None), "a change of labels is refused exactly if a label is removed")


@harness("C04", params=grid(dialect=TYPED, aspect=["members", "member", "description"]), thorough=grid(dialect=TYPED, aspect=["member", "description"], size=[2]))
def structs(S, dialect, aspect, size=1):
    "Members of a composite type are added, removed, changed and described."

    m = Models(dialect)

    def single(which):
        members = []
        for n in ("na", "nb", "nc", "nd"):
            kinds = ["absent", "int"] if n == "nc" and aspect == "members" else ["int"]
            if n == "na":
                kinds = ["absent", "int", "text"] if aspect == "members" else ["absent", "int"]
            elif n == "nb" and aspect == "members":
                kinds = ["absent", "int", "text"]
            kind = S.choose(f"{which} {n}", kinds)
            if kind == "absent":
                continue
            described = aspect == "member" and n == "na" and S.choose(f"{which} {n} described", [False, True])
            members.append((n, m.int(8) if kind == "int" else m.text(10), S.str(f"{which} {n} description", 0, size, ASCII_TEXT) if described else None))
        types.append({n: t for n, t, _ in members})
        columns = [m.column("nid", m.int(8))]
        if used:
            columns.append(m.column("ndata", m.user_type("nschema", "nstruct"), True))
        description = S.str(f"{which} description", 0, size, ASCII_TEXT) if aspect == "description" and S.choose(f"{which} described", [False, True]) else None
        return m.catalog(
            m.namespace("nschema", structs=[m.struct("nschema", "nstruct", members, description)], tables=[m.table("nschema", "ntable", columns, "nid")])
        )

    used = S.choose("used", [False, True])
    types = []
    source = single("source")
    target = single("target")
    S.known("attribute-type", used and any(n in types[1] and types[1][n] != t for n, t in types[0].items()))
    synchronize(S, dialect, source, target)


@harness("C04", params=grid(dialect=TYPED))
def types(S, dialect):
    "Types and columns of these types are added and removed."

    m = Models(dialect)

    def single(which):
        has_enum = S.choose(f"{which} enum", [False, True])
        has_inner = S.choose(f"{which} inner", [False, True])
        has_outer = S.choose(f"{which} outer", [False, True])
        columns = [m.column("nid", m.int(8))]
        structs = []
        if has_enum and S.choose(f"{which} kind", [False, True]):
            columns.append(m.column("nkind", m.user_type("nschema", "nenum")))
        if has_inner:
            members = [("nplain", m.int(8), None)]
            if has_enum and S.choose(f"{which} inner kind", [False, True]):
                members.append(("nkind", m.user_type("nschema", "nenum"), None))
            structs.append(m.struct("nschema", "ninner", members))
        if has_outer:
            members = [("nplain", m.int(8), None)]
            if has_inner and S.choose(f"{which} outer inner", [False, True]):
                members.append(("ninner", m.user_type("nschema", "ninner"), None))
            structs.append(m.struct("nschema", "nouter", members))
            if S.choose(f"{which} data", [False, True]):
                columns.append(m.column("ndata", m.user_type("nschema", "nouter")))
        return m.catalog(
            m.namespace(
                "nschema",
                enums=[m.enum("nschema", "nenum", ["a", "b"])] if has_enum else [],
                structs=structs,
                tables=[m.table("nschema", "ntable", columns, "nid")] if S.choose(f"{which} table", [True, False]) else [],
            )
        )

    synchronize(S, dialect, single("source"), single("target"))


@harness("C04", params=grid(dialect=[d for d in DIALECTS if has_schemas(d)]))
def schemas(S, dialect):
    "Schemas whose objects refer to one another are added and removed."

    m = Models(dialect)
    order = S.choose("order", [("nfirst", "nsecond", "nthird"), ("nthird", "nsecond", "nfirst")])

    def single(which):
        # tables may refer to the tables of the schemas that follow in one order or the other
        direction = S.choose(f"{which} direction", [1, -1])
        present = [n for n in ("nfirst", "nsecond", "nthird") if S.choose(f"{which} {n}", [False, True])][::direction]
        spaces = {}
        for i, n in enumerate(present):
            others = present[i + 1 :]
            ref = S.choose(f"{which} {n} refers to", [None, *others]) if others else None
            columns = [m.column("nid", m.int(8)), m.column("nref", m.int(8), True)]
            cons = [m.foreign(f"fk_{n}_{ref}", ["nref"], ref, "ntable", ["nid"])] if ref is not None else []
            enums = []
            if has_types(dialect):
                enums = [m.enum(n, "nenum", ["a", "b"])]
                if ref is not None:
                    columns.append(m.column(f"nkind_{ref}", m.user_type(ref, "nenum"), True))
            tables = [m.table(n, "ntable", columns, "nid", cons)]
            if ref is not None and n == "nfirst":
                tables.append(
                    m.table(n, "nmore", [m.column("nid", m.int(8))], "nid", [m.foreign(f"fk_more_{ref}", ["nid"], ref, "ntable", ["nid"])])
                )
            spaces[n] = m.namespace(n, enums=enums, tables=tables)
        return m.catalog(*[spaces[n] for n in order if n in spaces])

    synchronize(S, dialect, single("source"), single("target"))
