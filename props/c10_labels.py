"Labels are translated to the keys that lookup tables assign to them."

import enum
import itertools
import sys
import types
from dataclasses import dataclass
from typing import Annotated, Optional, Union

from strong_typing.auxiliary import MaxLength

from pysqlsync.base import QueryException
from pysqlsync.formation.py_to_sql import EnumMode
from pysqlsync.model.key_types import Identity, PrimaryKey

from symex.api import TEXT, grid, harness

from .c09_records import Batches
from .common import Models
from .dml import DMLError, Generated, Store, parse
from .loading import context, run, table_name
from .minisql import Evaluator

DIALECTS = ["postgresql", "mysql", "mssql", "oracle", "redshift"]

KEY, FIRST, SECOND, REF, VALUE = "nkey", "nfirst", "nsecond", "nref", "nvalue"


class Lookup(Store):
    "A table that assigns keys to labels."

    def __init__(self, S, name, key, value, rows, fresh):
        Store.__init__(self, name, [key, value], [key], [[value]], [key], rows)
        self.id = key
        self.value = value
        self.fresh = fresh  # keys for new rows
        self.initial = [dict(r) for r in rows]

    def run(self, S, statement, dialect, record):
        Store.run(self, S, statement, dialect, record)
        for row in self.rows:
            if isinstance(row[self.id], Generated):
                row[self.id] = self.fresh.pop(0)
            if row[self.value] is None:
                raise DMLError("a label is required")

    def key_of(self, S, label):
        for row in self.rows:
            if row[self.value] == label:
                return row[self.id]
        return None

    def has_key(self, S, dialect, key):
        for row in self.rows:
            if same(S, dialect, key, row[self.id]):
                return True
        return False


def same(S, dialect, found, expected):
    if found is None or expected is None:
        return found is None and expected is None
    if dialect == "redshift" and isinstance(expected, int) and isinstance(found, str):
        # loaded as text
        expected = str(expected)
    return S.eq(found, expected)


class Orders(Evaluator):
    "Rows are returned in one of several orders."

    shuffle = True

    def arrange(self, rows, directions):
        if len(rows) > 1 and not directions and self.queries == 1 and self.shuffle:
            return self.S.choose("order", [rows, list(reversed(rows))])
        return rows


class Database:
    "A table with several columns that refer to lookup tables."

    def __init__(self, S, dialect, name, columns, lookups, references):
        self.S = S
        self.dialect = dialect
        self.log = None
        self.done = 0
        self.main = Store(name, columns, [KEY])
        self.lookups = lookups
        self.references = references  # columns to lookup tables
        tables = {}
        for lookup in lookups:
            tables[".".join(lookup.name).lower()] = lookup.rows
        self.evaluator = Orders(S, tables, {}, dialect)

    def answer(self, statement):
        self.apply()
        for lookup in self.lookups:
            self.evaluator.tables[".".join(lookup.name).lower()] = lookup.rows
        return self.evaluator(statement)[1]

    def apply(self):
        while self.done < len(self.log):
            load = self.log[self.done]
            self.done += 1
            if isinstance(load, str):
                raise DMLError("unexpected statement")
            statement = None
            name = load.table
            if load.statement is not None:
                statement = parse(load.statement, self.dialect)
                name = statement.table
            target = next((t for t in [self.main] + self.lookups if t.name == name), None)
            if target is None:
                raise DMLError("another table")
            for record in load.records:
                if statement is not None:
                    target.run(self.S, statement, self.dialect, list(record))
                else:
                    columns = load.columns if load.columns is not None else target.columns
                    if len(record) != len(columns) or any(c not in target.columns for c in columns):
                        raise DMLError("a record has as many values as there are columns")
                    target.add(dict(zip(columns, record)))
                    if target is not self.main:
                        raise DMLError("duplicates in a lookup table are not ignored")
            if target is self.main:
                # foreign keys
                for row in self.main.rows:
                    for column, lookup in self.references.items():
                        keys = row[column]
                        for key in keys if isinstance(keys, list) else [keys]:
                            if key is not None and not lookup.has_key(self.S, self.dialect, key):
                                raise DMLError("a foreign key refers to an existing row")

    def check(self, expected, labels):
        """
        Checks what is stored.

        :param expected: Records with labels.
        :param labels: All labels used in each lookup table.
        """

        S, dialect = self.S, self.dialect
        S.check(len(self.main.rows) == len(expected), "each record leads to one row")
        for row, record in zip(self.main.rows, expected):
            for column, value in record.items():
                lookup = self.references.get(column)
                found = row[column]
                if lookup is None or value is None:
                    S.check(same(S, dialect, found, value), "values other than labels are kept")
                elif isinstance(value, (list, tuple)):
                    S.check(isinstance(found, list) and len(found) == len(value), "each label in a list is translated")
                    for f, v in zip(found, value):
                        S.check(same(S, dialect, f, lookup.key_of(S, v)), "each label in a list is replaced with its key")
                else:
                    S.check(same(S, dialect, found, lookup.key_of(S, value)), "a label is replaced with its key")
        for lookup in self.lookups:
            known = [r[lookup.value] for r in lookup.rows]
            for i, r in enumerate(lookup.initial):
                S.check(S.eq(lookup.rows[i][lookup.id], r[lookup.id]), "existing labels keep their key")
                S.check(S.eq(lookup.rows[i][lookup.value], r[lookup.value]), "existing labels are kept")
            for i in range(len(known)):
                for j in range(i):
                    S.check(S.not_(S.eq(known[i], known[j])), "a label is registered once")
            for value in known[len(lookup.initial):]:
                S.check(S.any([S.eq(value, v) for v in labels[lookup.name]]), "labels registered are those in the data")
            for v in labels[lookup.name]:
                S.check(S.any([S.eq(value, v) for value in known]), "all labels are registered")


def keys(S, dialect, name, count):
    "Different keys."

    if dialect == "redshift":
        # loaded as text
        return [7, 3, 11, 2, 13, 5, 17, 19][:count] if name == FIRST else [4, 12, 6, 18, 8, 20, 10, 14][:count]
    base = S.int(f"{name}+", 1, 1000)
    return [base + d for d in [3, 0, 5, 1, 6, 2, 7, 4][:count]]


def build(S, dialect, ctx, order, first_labels, second_labels):
    m = Models(dialect, ctx.connection.generator)

    def lookup(name):
        # identity columns are always the first in tables generated from a class, but not so with tables discovered
        return m.table(
            "nschema", name,
            [m.column("nid", m.int(4), identity=True), m.column("nlabel", m.text(64))],
            "nid", [m.unique(f"nuq_{name}", ["nlabel"])],
        )

    first, second = lookup("nlookup_a"), lookup("nlookup_b")
    other = m.table("nschema", "nother", [m.column("nid", m.int(4)), m.column("nlabel", m.text(64)), m.column("nx", m.int())], "nid")
    columns = {
        KEY: m.column(KEY, m.int()),
        FIRST: m.column(FIRST, m.int(4), nullable=True),
        SECOND: m.column(SECOND, m.int(4), nullable=True),
        REF: m.column(REF, m.int(4), nullable=True),
        VALUE: m.column(VALUE, m.int(), nullable=True),
    }
    table = m.table(
        "nschema", "ntable", [columns[c] for c in order], KEY,
        [
            m.foreign("nfk_a", [FIRST], "nschema", "nlookup_a", ["nid"]),
            m.foreign("nfk_b", [SECOND], "nschema", "nlookup_b", ["nid"]),
            m.foreign("nfk_c", [REF], "nschema", "nother", ["nid"]),
        ],
    )
    ctx.connection.generator.state = m.catalog(m.namespace("nschema", tables=[first, second, other, table]))
    return table, first, second


def stored(S, dialect, table, prefix, labels):
    ks = keys(S, dialect, prefix, 8)
    rows = [{"nid": k, "nlabel": v} for k, v in zip(ks, labels)]
    return Lookup(S, table_name(dialect, table), "nid", "nlabel", rows, ks[len(labels):])


def symbolic_label(S, name, size):
    return S.str(name, 1, size, TEXT)


ORDERS = [
    (KEY, FIRST, SECOND, REF, VALUE),
    (VALUE, SECOND, REF, FIRST, KEY),
    (FIRST, KEY, VALUE, SECOND, REF),
]


def load(S, ctx, db, op, table, records, field_types, field_names):
    fn = ctx.insert_rows if op == "insert" else ctx.upsert_rows
    try:
        run(fn(table, records, field_types=field_types, field_names=field_names))
        db.apply()
    except DMLError as ex:
        S.fail(f"data is refused: {ex}")
        return False
    except QueryException as ex:
        S.fail(f"data is refused: {ex.__cause__}")
        return False
    return True


@harness(
    "C10",
    params=grid(dialect=DIALECTS, op=["insert"], count=[2], existing=[1], size=[1]) + grid(dialect=DIALECTS, op=["upsert"], count=[2], existing=[1], size=[2]),
    thorough=grid(dialect=DIALECTS, op=["insert", "upsert"], count=[3], existing=[0, 2], size=[1, 2, 3]),
)
def labels(S, dialect, op, count, existing, size):
    "Labels that are any text, in several batches, and any of which may be registered already."

    order = S.choose("columns", ORDERS)
    db = None
    ctx, log = context(dialect, lambda s: db.answer(s))
    old = [symbolic_label(S, f"old{i}", 1) for i in range(existing)]
    for i in range(existing):
        for j in range(i):
            S.assume(S.not_(S.eq(old[i], old[j])))
    table, first, second = build(S, dialect, ctx, order, None, None)
    a = stored(S, dialect, first, FIRST, old)
    b = stored(S, dialect, second, SECOND, [S.name("zzz")])
    db = Database(S, dialect, table_name(dialect, table), [c.name.local_id for c in table.get_columns()], [a, b], {FIRST: a, SECOND: b})
    db.log = log

    data = []
    for i in range(count):
        label = None if S.bool(f"label{i}?") else symbolic_label(S, f"label{i}", 1)
        data.append({KEY: i + 1, FIRST: label, SECOND: S.name("zzz") if i == 0 else S.name("yyy"), REF: 40 + i, VALUE: 70 + i})
    fields = S.choose("fields", ["all", "junk", "named", "omitted"])
    names = list(order)
    field_types = {KEY: int, FIRST: str, SECOND: str, REF: int, VALUE: int}
    expected = [dict(d) for d in data]
    if fields == "named":
        names = [FIRST, VALUE, REF, KEY, SECOND]
    elif fields == "junk":
        # a field before others that is not for the database
        names = [None] + names
    elif fields == "omitted":
        for e in expected:
            e[VALUE] = None
    records = [tuple(d[n] if n is not None else "junk" for n in names) for d in data]
    with Batches(size):
        if not load(
            S, ctx, db, op, table, records,
            tuple(types.NoneType if fields == "omitted" and n == VALUE else field_types[n] if n is not None else str for n in names),
            tuple(n or "" for n in names) if fields in ("named", "junk") else None,
        ):
            return
    db.check(expected, {a.name: [d[FIRST] for d in data if d[FIRST] is not None], b.name: [d[SECOND] for d in data]})


@harness(
    "C10",
    params=grid(dialect=["postgresql", "mysql", "mssql"], kind=["list", "set"], size=[1]),
    thorough=grid(dialect=DIALECTS[:4], kind=["list", "set"], size=[1, 2]),
)
def collections(S, dialect, kind, size):
    "Lists or sets of labels."

    db = None
    ctx, log = context(dialect, lambda s: db.answer(s))
    table, first, second = build(S, dialect, ctx, ORDERS[0], None, None)
    a = stored(S, dialect, first, FIRST, [symbolic_label(S, "old", 1)])
    b = stored(S, dialect, second, SECOND, [])
    db = Database(S, dialect, table_name(dialect, table), [c.name.local_id for c in table.get_columns()], [a, b], {FIRST: a, SECOND: b})
    db.log = log
    data = []
    for i, counts in enumerate(([0, 1, 2], [0, 1])):
        n = S.choose(f"count{i}", [None] + counts)
        value = None
        if n is not None:
            value = [symbolic_label(S, f"label{i}.{k}", 1) for k in range(n)]
            if kind == "set":
                if len(value) == 2:
                    S.assume(S.not_(S.eq(value[0], value[1])))
        data.append({KEY: i + 1, FIRST: value, SECOND: None, REF: None, VALUE: 9})
    field_type = S.choose("type", [list, list[str], Optional[list[str]]] if kind == "list" else [set, set[str], Optional[set[str]]])
    records = []
    for d in data:
        value = d[FIRST]
        records.append((d[KEY], set(value) if kind == "set" and value is not None else value, None, None, 9))
    with Batches(size):
        if not load(S, ctx, db, "upsert", table, records, (int, field_type, str, int, int), None):
            return
    if kind == "set":
        for d, r in zip(data, records):
            # in the order of the elements
            d[FIRST] = list(r[1]) if r[1] is not None else None
    db.check(data, {a.name: [v for d in data if d[FIRST] is not None for v in d[FIRST]], b.name: []})


class NColor(enum.Enum):
    red = "red"
    green = "green"
    blue = "sky blue"


class NSize(enum.Enum):
    small = "S"
    large = "red"


@dataclass
class NItem:
    nkey: PrimaryKey[int]
    nfirst: Optional[NColor]
    nvalue: Optional[int]
    nsecond: NSize


@dataclass
class NExtensible:
    nvalue: Optional[int]
    nfirst: Union[NColor, str, None]
    nkey: PrimaryKey[int]
    nsecond: NSize


@dataclass
class NGenerated:
    nkey: PrimaryKey[Identity[int]]
    nfirst: Optional[NColor]
    nvalue: Optional[int]
    nsecond: NSize


def enum_lookups(S, dialect, ctx, table):
    "Lookup tables of the columns of a table generated from a class."

    found = {}
    known = S.choose("known", ["none", "all", "last"])
    for column, cls in ((FIRST, NColor), (SECOND, NSize)):
        relation = ctx.connection.generator.state.get_referenced_table(table.name, table.columns[column].name)
        names = [c.name.local_id for c in relation.get_columns()]
        key = next(n for n in names if relation.columns[n].identity)
        value = next(n for n in names if n != key)
        old = [m.value for m in cls]
        old = [] if known == "none" else old[-1:] if known == "last" else old
        ks = keys(S, dialect, column, 8)
        rows = [{key: k, value: v} for k, v in zip(ks, old)]
        found[column] = Lookup(S, table_name(dialect, relation), key, value, rows, ks[len(old):])
    return found


ROW_TYPES = {
    "str": (str, str),
    "enum": (NColor, NSize),
    "optional": (Optional[str], Optional[NSize]),
    "annotated": (Annotated[str, MaxLength(64)], Annotated[NSize, "noted"]),
}


# Redshift has no such enumeration mode
@harness("C10", params=grid(dialect=DIALECTS[:4], op=["insert", "upsert"], source=["objects", "rows"]))
def enumerations(S, dialect, op, source):
    "Objects of classes, and rows of values, with enumeration members."

    db = None
    ctx, log = context(dialect, lambda s: db.answer(s), namespaces={sys.modules[__name__]: "nschema"}, enum_mode=EnumMode.RELATION)
    cls = S.choose("class", [NItem, NExtensible] + ([NGenerated] if source == "objects" and op == "insert" else []))
    ctx.connection.generator.create(tables=[cls])
    table = ctx.get_table(cls)
    lookups = enum_lookups(S, dialect, ctx, table)
    columns = [c.name.local_id for c in table.get_columns()]
    db = Database(S, dialect, table_name(dialect, table), columns, list(lookups.values()), lookups)
    db.log = log
    db.evaluator.shuffle = False
    omit = cls is NGenerated and op == "insert"
    if omit:
        # keys are generated by the database
        db.main = Store(table_name(dialect, table), columns, [KEY], identity=[KEY])
    count = S.choose("count", [1, 2])
    kind = S.choose("types", list(ROW_TYPES)) if source == "rows" else "objects"
    plain = kind in ("str",)
    data, expected = [], []
    for i in range(count):
        options = [None, NColor.blue, NColor.red]
        if cls is NExtensible and source == "objects":
            options.append("violet")
        one = S.choose(f"first{i}", options) if i == 0 else S.choose(f"first{i}", options[:2])
        two = S.choose(f"second{i}", [NSize.large, NSize.small]) if i == 0 else NSize.large
        number = None if i == 1 else 5 if dialect == "redshift" else S.int(f"value{i}", 0, 99)
        record = {KEY: i + 1, FIRST: one, SECOND: two, VALUE: number}
        expected.append({c: v.value if isinstance(v, enum.Enum) else v for c, v in record.items() if not (omit and c == KEY)})
        data.append(record)
    with Batches(S.choose("size", [1, 2]) if source == "objects" and count > 1 else 1):
        try:
            if source == "objects":
                run((ctx.insert_data if op == "insert" else ctx.upsert_data)(cls, [cls(**d) for d in data]))
            else:
                first, second = ROW_TYPES[kind]
                # text types go with text, enumeration types with members
                for d, e in zip(data, expected):
                    if first is not NColor:
                        d[FIRST] = e[FIRST]
                    if second is str:
                        d[SECOND] = e[SECOND]
                types_ = {KEY: int, FIRST: first, SECOND: second, VALUE: int}
                run(
                    (ctx.insert_rows if op == "insert" else ctx.upsert_rows)(
                        table, [tuple(d[c] for c in columns) for d in data], field_types=tuple(types_[c] for c in columns)
                    )
                )
            db.apply()
        except DMLError as ex:
            S.fail(f"data is refused: {ex}")
            return
        except QueryException as ex:
            S.fail(f"data is refused: {ex.__cause__}")
            return
    db.check(
        expected,
        {lookups[c].name: [e[c] for e in expected if e[c] is not None] for c in (FIRST, SECOND)},
    )
