"Merging two models, and ordering the schemas of a model."

import copy

from pysqlsync.formation.object_types import (
    Catalog,
    CheckConstraint,
    ConstraintReference,
    DiscriminatedConstraint,
    FormationError,
    ForeignConstraint,
    UniqueConstraint,
)
from pysqlsync.model.data_types import SqlArrayType, quote
from pysqlsync.model.id_types import LocalId

from symex.api import ASCII_TEXT, LOWER, grid, harness

from .common import DIALECTS, Models, has_schemas, tid
from .refdb import Database
from .schemas import check_schema, execute


def describe(obj):
    "The properties of an object, in the order in which they are declared."

    if obj is None:
        return [None]
    kind = type(obj).__name__
    if hasattr(obj, "members"):
        parts = [kind, str(obj.name), obj.description]
        for m in obj.members.values():
            parts += [m.name.local_id, str(m.data_type), m.description]
        return parts
    if hasattr(obj, "columns"):
        parts = [kind, str(obj.name), obj.description, tuple(k.local_id for k in obj.primary_key)]
        for c in obj.columns.values():
            parts += [c.name.local_id, str(c.data_type), c.nullable, c.default, c.identity, c.description]
        for c in obj.constraints.values():
            parts += [type(c).__name__, c.name.local_id]
            if isinstance(c, ForeignConstraint):
                parts += [str(c.foreign_columns), str(c.reference)]
            elif isinstance(c, UniqueConstraint):
                parts += [str(c.unique_columns)]
            elif isinstance(c, CheckConstraint):
                parts += [c.condition]
        return parts
    return [kind, str(obj.name), *obj.values]


def same(S, a, b):
    if len(a) != len(b):
        return False
    return S.all([(x is None) == (y is None) and (x is None or S.eq(x, y)) for x, y in zip(a, b)])


def contents(catalog):
    "All objects of a model."

    found = []
    for ns in catalog.namespaces.values():
        for kind in ("enums", "structs", "tables"):
            for key, obj in getattr(ns, kind).items():
                found.append((ns.name.local_id, kind, key, obj))
    return found


def snapshot(catalog):
    return [(ns, kind, key, describe(obj)) for ns, kind, key, obj in contents(catalog)]


def same_contents(S, a, b):
    "Whether two models have the same objects, in the same order."

    if len(a) != len(b):
        return False
    return S.all([x[1] == y[1] and S.eq(x[0], y[0]) and S.eq(x[2], y[2]) and same(S, x[3], y[3]) for x, y in zip(a, b)])


def spoil(S, catalog):
    "Changes all objects of a model."

    for ns in catalog.namespaces.values():
        for e in ns.enums.values():
            e.values.append("spoilt")
        for s in ns.structs.values():
            s.description = "spoilt"
            for m in s.members.values():
                m.description = "spoilt"
        for t in ns.tables.values():
            t.description = "spoilt"
            for c in t.columns.values():
                c.description = "spoilt"
            for c in list(t.constraints.values()):
                t.constraints.remove(c.name.local_id)
        ns.enums.add(copy.deepcopy(EXTRA.enum("nschema", "spoilt", ["a", "b"])))


EXTRA = Models("postgresql")


def make(S, m, which, kind, schema, name, size, varied):
    "An object with symbolic properties, those in a list."

    def text(prop, default, alphabet=ASCII_TEXT):
        return S.str(f"{which} {prop}", 0, size, alphabet) if prop in varied else default

    def flag(prop, default):
        return S.bool(f"{which} {prop}") if prop in varied else default

    def number(prop, default):
        return S.int(f"{which} {prop}", 1, 4000) if prop in varied else default

    def option(prop, options):
        return S.choose(f"{which} {prop}", options) if prop in varied else options[0]

    if kind == "enum":
        labels = [text("label", "x"), "y"][: option("labels", [2, 1])]
        return m.enum(schema, name, labels)
    if kind == "struct":
        members = [("nfirst", m.text(number("limit", 8)), text("remark", None)), (option("member", ["nsecond", "nthird"]), m.int(4), None)]
        return m.struct(schema, name, members, text("description", None))
    columns = [
        m.column("nid", m.int(option("width", [8, 4])), identity=flag("identity", False)),
        m.column(
            option("column", ["nvalue", "nother"]), m.text(number("limit", 8)), flag("nullable", True), quote(text("default", "a")), description=text("remark", None)
        ),
    ]
    last = columns[1].name.local_id
    cons = []
    constraint = option("constraint", ["none", "unique", "foreign", "foreign other", "check"])
    if constraint == "unique":
        cons = [m.unique("nconstraint", [last])]
    elif constraint.startswith("foreign"):
        cons = [m.foreign("nconstraint", [last], schema, "nother" if constraint == "foreign other" else "nthis", ["nid"])]
    elif constraint == "check":
        cons = [m.check("nconstraint", text("condition", "1 = 1"))]
    return m.table(schema, name, columns, option("key", ["nid", last, ["nid", last]]), cons, text("description", None))


ASPECTS = {
    "enum": [["label", "labels"]],
    "struct": [["limit", "remark"], ["description", "member"]],
    "table": [["width", "identity", "column", "limit"], ["nullable", "default", "remark"], ["constraint", "key"], ["condition", "constraint", "description"]],
}
SETS = {"enum": "enums", "struct": "structs", "table": "tables"}


def merge(S, ours, theirs, conflict):
    "Merges a model into another, and checks the result."

    before = snapshot(theirs)
    left = snapshot(ours)
    try:
        ours.merge(theirs)
    except FormationError:
        S.check(conflict, "objects that are the same are not refused")
        S.check(same_contents(S, snapshot(theirs), before), "a model that is refused is unchanged")
        return
    S.check(S.not_(conflict), "different definitions of the same object are refused")
    S.check(same_contents(S, snapshot(theirs), before), "the model that is merged is unchanged")
    result = snapshot(ours)

    def count(objects, wanted):
        return sum(1 for o in objects if o[1] == wanted[1] and o[0] == wanted[0] and o[2] == wanted[2] and bool(same(S, o[3], wanted[3])))

    for o in left + before:
        S.check(count(result, o) == 1, "each object is there exactly once")
    for o in result:
        S.check(count(left, o) + count(before, o) > 0, "no object is made up")
    # merging again makes no difference
    ours.merge(theirs)
    S.check(same_contents(S, snapshot(ours), result), "merging again changes nothing")
    # independence
    backup = copy.deepcopy(theirs)
    spoil(S, theirs)
    S.check(same_contents(S, snapshot(ours), result), "a change of the model that has been merged does not affect the result")
    ours = Catalog(list(ours.namespaces.values()))
    other = Catalog([])
    other.merge(backup)
    spoil(S, other)
    S.check(same_contents(S, snapshot(backup), before), "a change of the result does not affect the model that has been merged")


@harness(
    "C26",
    params=[{"kind": kind, "aspect": i, "dialect": d} for kind in ASPECTS for i in range(len(ASPECTS[kind])) for d in (["postgresql", "mysql"] if kind == "table" else ["postgresql"])],
    thorough=[{"kind": kind, "aspect": i, "dialect": d, "size": 2} for kind in ASPECTS for i in range(len(ASPECTS[kind])) for d in (DIALECTS if kind == "table" else ["postgresql"])],
)
def definitions(S, kind, aspect, dialect, size=1):
    "Two objects with symbolic names and properties."

    m = Models(dialect)
    varied = ASPECTS[kind][aspect]
    first = S.str("first", 1, 1, LOWER)
    second = S.str("second", 1, 1, LOWER)
    a = make(S, m, "first", kind, "nschema", first, size, varied)
    b = make(S, m, "second", kind, "nschema", second, size, varied)
    ours = m.catalog(m.namespace("nschema", **{SETS[kind]: [a]}))
    theirs = m.catalog(m.namespace("nschema", **{SETS[kind]: [b]}))
    conflict = S.all([S.eq(first, second), S.not_(same(S, describe(a), describe(b)))])
    merge(S, ours, theirs, conflict)


@harness("C26", params=grid(kind=["enum", "struct", "table"]))
def several(S, kind):
    "Objects with symbolic names in schemas with symbolic names."

    m = Models("postgresql")
    flat = S.choose("schemas", [2, 1, 0])

    def side(which):
        spaces = []
        schemas = []
        for i in range(S.choose(f"{which} schemas", [0, 1, 2]) if flat == 2 else 1):
            ns = S.str(f"{which} schema{i}", 1, 1, LOWER) if flat == 2 else ("nschema" if flat else "")
            for other in schemas:
                S.assume(S.not_(S.eq(ns, other)))
            schemas.append(ns)
            objects = []
            names = []
            for j in range(S.choose(f"{which} objects{i}", [0, 1, 2]) if flat != 2 else S.choose(f"{which} objects{i}", [0, 1])):
                name = S.str(f"{which} name{i}{j}", 1, 1, LOWER)
                for other in names:
                    S.assume(S.not_(S.eq(name, other)))
                names.append(name)
                objects.append(make(S, m, f"{which} {i}{j}", kind, ns or None, name, 1, []))
            extra = {}
            # an object of another kind that has the same name in another model is no conflict here
            if kind != "enum" and S.choose(f"{which} enum{i}", [False, True]):
                extra["enums"] = [m.enum(ns or None, "nenum", ["a", "b"])]
            spaces.append(m.namespace(ns, **{SETS[kind]: objects}, **extra))
        return m.catalog(*spaces)

    ours = side("left")
    theirs = side("right")
    spaces = [ns.name.local_id for ns in ours.namespaces.values()] + [ns.name.local_id for ns in theirs.namespaces.values()]
    merge(S, ours, theirs, False)
    found = [ns.name.local_id for ns in ours.namespaces.values()]
    for ns in spaces:
        S.check(sum(1 for f in found if f == ns) == 1, "each schema is there exactly once")
    S.check(all(any(f == ns for ns in spaces) for f in found), "no schema is made up")


def reference(S, m, which, ns, options, dialect):
    "A namespace with an object that refers to another namespace."

    target = S.choose(f"{which} refers to", options)
    columns = [m.column("nid", m.int(8)), m.column("nref", m.int(8), True)]
    cons = []
    enums = []
    structs = []
    typed = dialect == "postgresql"
    if typed:
        enums = [m.enum(ns, "nenum", ["a", "b"])]
    if target is not None:
        kinds = ["foreign", "discriminated", "second"]
        if typed:
            kinds += ["column", "member", "composite", "array", "member array"]
        kind = S.choose(f"{which} refers by", kinds)
        if kind == "foreign":
            cons.append(m.foreign(f"fk_{ns}", ["nref"], target, "ntable", ["nid"]))
        elif kind == "second":
            # after a reference within the same schema
            cons.append(m.foreign(f"fa_{ns}", ["nid"], ns, "ntable", ["nid"]))
            cons.append(m.foreign(f"fk_{ns}", ["nref"], target, "ntable", ["nid"]))
        elif kind == "discriminated":
            cons.append(
                DiscriminatedConstraint(
                    LocalId(f"dk_{ns}"),
                    (LocalId("nref"),),
                    [ConstraintReference(tid(dialect, s, "ntable"), (LocalId("nid"),)) for s in (ns, target)],
                )
            )
        elif kind == "column":
            columns.append(m.column("nkind", m.user_type(target, "nenum")))
        elif kind == "array":
            columns.append(m.column("nkind", SqlArrayType(m.user_type(target, "nenum"))))
        elif kind == "composite":
            columns.append(m.column("nkind", m.user_type(target, "nstruct")))
        elif kind == "member":
            structs.append(m.struct(ns, "nouter", [("nmember", m.user_type(target, "nenum"), None)]))
        elif kind == "member array":
            structs.append(m.struct(ns, "nouter", [("nmember", SqlArrayType(m.user_type(target, "nenum")), None)]))
    if typed:
        structs.insert(0, m.struct(ns, "nstruct", [("nmember", m.int(8), None)]))
    return m.namespace(ns, enums=enums, structs=structs, tables=[m.table(ns, "ntable", columns, "nid", cons)]), target


@harness(
    "C26",
    params=grid(dialect=["postgresql", "mssql"], count=[3]),
    thorough=grid(dialect=["postgresql", "mssql"], count=[3]) + grid(dialect=["mssql"], count=[4]),
)
def order(S, dialect, count):
    "Schemas come after those that they refer to."

    m = Models(dialect)
    names = ["na", "nb", "nc", "nd"][:count]
    # one of the schemas may be the default one, which has no name
    default = S.choose("default", [None, 1, 2])
    if default is not None:
        names[default] = ""
    # references without a cycle: to the following schemas only; the order of the schemas is arbitrary
    spaces = {}
    targets = {}
    for i, n in enumerate(names):
        spaces[n], targets[n] = reference(S, m, n, n, [None, "nmissing", *names[i + 1 :]] if i == 0 else [None, *names[i + 1 :]], dialect)
    orders = {3: [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)], 4: [(0, 1, 2, 3), (0, 2, 1, 3), (3, 1, 2, 0), (1, 3, 0, 2), (2, 0, 3, 1)]}
    chosen = [names[i] for i in S.choose("order", orders[count])]
    catalog = m.catalog(*[spaces[n] for n in chosen])
    before = snapshot(catalog)
    catalog.sort()
    found = [ns.name.local_id for ns in catalog.namespaces.values()]
    S.check(sorted(found) == sorted(names), "all schemas are kept")
    for n, target in targets.items():
        if target in names:
            S.check(found.index(target) < found.index(n), "a schema comes after the one it refers to")
    after = snapshot(catalog)
    S.check(
        len(after) == len(before) and all(any(a[:3] == b[:3] and a[3] == b[3] for b in before) for a in after), "objects of the schemas are unchanged"
    )
