"A column type survives being written to the database and discovered again."

import asyncio

from pysqlsync.model.data_types import (
    SqlArrayType,
    SqlBooleanType,
    SqlDateType,
    SqlDecimalType,
    SqlDoubleType,
    SqlEnumType,
    SqlFixedBinaryType,
    SqlFixedCharacterType,
    SqlFloatType,
    SqlIntegerType,
    SqlIntervalType,
    SqlJsonType,
    SqlRealType,
    SqlTimestampType,
    SqlTimeType,
    SqlUserDefinedType,
    SqlUuidType,
    SqlVariableBinaryType,
    SqlVariableCharacterType,
)
from pysqlsync.model.id_types import GlobalId, QualifiedId

from symex.api import LOWER, PRINTABLE, UPPER_LOWER, grid, harness

from .common import engine, fake_context, text_type, tid
from .refcatalog import TYPES, Col, Tab, TypeRefused, catalog

DIALECTS = ["postgresql", "mysql", "mssql", "oracle"]


def boolean_type(dialect):
    if dialect == "mssql":
        from pysqlsync.dialect.mssql.data_types import MSSQLBooleanType

        return MSSQLBooleanType()
    if dialect == "mysql":
        return SqlIntegerType(1)
    return SqlBooleanType()


def integer_type(S, dialect):
    if dialect == "oracle":
        from pysqlsync.dialect.oracle.data_types import OracleIntegerType

        return OracleIntegerType()
    return SqlIntegerType(S.choose("width", [2, 4, 8] if dialect == "postgresql" else [1, 2, 4, 8]))


def timestamp_type(S, dialect):
    if dialect == "mssql":
        from pysqlsync.dialect.mssql.data_types import MSSQLDateTimeType

        t = MSSQLDateTimeType()
        if S.bool("explicit"):
            t.precision = S.int("precision", 0, 7)
        return t
    if dialect == "mysql":
        from pysqlsync.dialect.mysql.data_types import MySQLDateTimeType

        t = MySQLDateTimeType()
    elif dialect == "oracle":
        from pysqlsync.dialect.oracle.data_types import OracleTimestampType

        t = OracleTimestampType()
    else:
        t = SqlTimestampType()
    if S.bool("explicit"):
        t.precision = S.int("precision", 0, 9 if dialect == "oracle" else 6)
    if dialect != "mysql":
        t.with_time_zone = bool(S.bool("zone"))
    return t


def time_type(S, dialect):
    if dialect == "oracle":
        from pysqlsync.dialect.oracle.data_types import OracleTimeType

        return OracleTimeType()
    t = SqlTimeType()
    if S.bool("explicit"):
        t.precision = S.int("precision", 0, 7 if dialect == "mssql" else 6)
    if dialect == "postgresql":
        t.with_time_zone = bool(S.bool("zone"))
    return t


def decimal_type(S, dialect):
    if not S.bool("explicit"):
        return SqlDecimalType()
    p = S.int("precision", 1, {"postgresql": 1000, "mysql": 65}.get(dialect, 38))
    s = S.int("scale", 0, 30)
    S.assume(s <= p)
    return SqlDecimalType(p, s)


MAX_LENGTH = {"postgresql": 10485760, "mysql": 4294967295, "mssql": 2147483647, "oracle": 32767}


def make(S, dialect, family, longest=3):
    if family == "boolean":
        return boolean_type(dialect)
    if family == "integer":
        return integer_type(S, dialect)
    if family == "real":
        return SqlRealType()
    if family == "double":
        return SqlDoubleType()
    if family == "float":
        return SqlFloatType(S.int("precision", 1, 53))
    if family == "decimal":
        return decimal_type(S, dialect)
    if family == "text":
        return text_type(dialect, None if S.bool("unlimited") else S.int("limit", 1, MAX_LENGTH[dialect]))
    if family == "char":
        return SqlFixedCharacterType(S.int("limit", 1, 255))
    if family == "timestamp":
        return timestamp_type(S, dialect)
    if family == "date":
        return SqlDateType()
    if family == "time":
        return time_type(S, dialect)
    if family == "interval":
        return SqlIntervalType()
    if family == "uuid":
        if dialect == "postgresql":
            return SqlUuidType()
        if dialect == "oracle":
            from pysqlsync.dialect.oracle.data_types import OracleVariableBinaryType

            return OracleVariableBinaryType(S.int("storage", 1, 32767))
        return SqlFixedBinaryType(S.int("storage", 1, 255))
    if family == "binary":
        if dialect == "oracle":
            from pysqlsync.dialect.oracle.data_types import OracleVariableBinaryType as cls
        elif dialect == "mysql":
            from pysqlsync.dialect.mysql.data_types import MySQLVariableBinaryType as cls
        else:
            return SqlVariableBinaryType(S.int("storage", 1, 8000))
        return cls(None if S.bool("unlimited") else S.int("storage", 1, MAX_LENGTH[dialect]))
    if family == "json":
        if dialect == "postgresql":
            from pysqlsync.dialect.postgresql.data_types import PostgreSQLJsonType

            return PostgreSQLJsonType()
        return SqlJsonType()
    if family == "inet":
        return SqlUserDefinedType(GlobalId("inet"))
    if family == "user":
        return SqlUserDefinedType(QualifiedId("sample", S.choose("name", ["Text", "status", "DATE", "enum", "Interval"])))
    if family == "enum":
        n = S.choose("n", [1, 2])
        labels = [S.str(f"label{i}", 0, longest, LABELS) for i in range(n)]
        if n > 1:
            S.assume(S.not_(labels[0] == labels[1]))
        return SqlEnumType(labels)
    raise NotImplementedError(family)


# a backslash is covered by the property on string constants
LABELS = ((0x20, 0x5B), (0x5D, 0xD7FF), (0xE000, 0xEFFFF))

COMMON = ["integer", "real", "double", "float", "decimal", "text", "char", "timestamp", "date", "time", "uuid", "boolean"]
FAMILIES = {
    "postgresql": COMMON + ["interval", "json", "inet", "user"],
    "mysql": COMMON + ["json", "enum", "binary"],
    "mssql": COMMON + ["binary"],
    "oracle": COMMON + ["binary"],
}
ELEMENTS = ["integer", "double", "decimal", "text", "timestamp", "date", "time", "uuid", "interval", "user"]


def discover(S, dialect, definition):
    table = Tab("nschema", "ntable", [Col("nkey", "integer"), Col("ncolumn", definition, nullable=True)], ["nkey"])
    ctx = fake_context(dialect, answer=catalog(S, dialect, [table], current="nschema"))
    explorer = engine(dialect).create_explorer(ctx)
    found = asyncio.run(explorer.get_table(tid(dialect, "nschema" if dialect in ("postgresql", "mssql") else None, "ntable")))
    return found.columns["ncolumn"].data_type


def at_least(S, t, stored):
    "Whether a column stores all values of the type that has been asked for."

    conditions = []
    if isinstance(t, (SqlVariableCharacterType, SqlFixedCharacterType)) and t.limit is not None:
        if stored.length is not None and not stored.length == -1:
            conditions.append(stored.length >= t.limit)
    if isinstance(t, (SqlFixedBinaryType, SqlVariableBinaryType)) and t.storage is not None:
        if stored.length is not None:
            conditions.append(stored.length >= t.storage)
    if isinstance(t, SqlDecimalType) and t.precision is not None:
        if stored.precision is not None:
            conditions.append(stored.precision - stored.scale >= t.precision - t.scale)
            conditions.append(stored.scale >= t.scale)
    if isinstance(t, (SqlTimestampType, SqlTimeType)) and t.precision is not None:
        if stored.time is not None:
            conditions.append(stored.time >= t.precision)
    return S.all(conditions)


def roundtrip(S, dialect, t):
    definition = str(t)
    try:
        stored = TYPES[dialect](definition)
    except TypeRefused as ex:
        S.fail(f"definition is refused by the database: {ex}")
        return
    S.check(at_least(S, t, stored), "column type is smaller than what is asked for")
    found = discover(S, dialect, definition)
    again = str(found)
    try:
        restored = TYPES[dialect](again)
    except TypeRefused as ex:
        S.fail(f"definition of the discovered type is refused by the database: {ex}")
        return
    S.check(stored.same(S, restored), "discovered type denotes another column type")


@harness(
    "C13",
    params=[{"dialect": d, "family": f} for d in DIALECTS for f in FAMILIES[d]],
    thorough=[{"dialect": d, "family": f, "longest": 5} for d in DIALECTS for f in FAMILIES[d]],
)
def column_types(S, dialect, family, longest=3):
    roundtrip(S, dialect, make(S, dialect, family, longest))


@harness("C13", params=grid(family=ELEMENTS))
def array_types(S, family):
    roundtrip(S, "postgresql", SqlArrayType(make(S, "postgresql", family)))
