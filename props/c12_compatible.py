"The common type of a union can hold every value of every member type."

import itertools

from pysqlsync.model.data_types import (
    CompatibilityError,
    SqlBooleanType,
    SqlDateType,
    SqlDecimalType,
    SqlDoubleType,
    SqlFixedBinaryType,
    SqlFixedCharacterType,
    SqlFloatType,
    SqlIntegerType,
    SqlIntervalType,
    SqlJsonType,
    SqlRealType,
    SqlTimestampType,
    SqlTimeType,
    SqlUuidType,
    SqlVariableBinaryType,
    SqlVariableCharacterType,
    compatible_type,
)

from symex.api import grid, harness

from .common import int_type, text_type

# more than any length that is compared
UNLIMITED = 1 << 40


def binary_type(dialect, storage):
    if dialect == "mysql":
        from pysqlsync.dialect.mysql.data_types import MySQLVariableBinaryType as T
    elif dialect == "oracle":
        from pysqlsync.dialect.oracle.data_types import OracleVariableBinaryType as T
    elif dialect == "redshift":
        from pysqlsync.dialect.redshift.data_types import RedshiftVariableBinaryType as T
    elif dialect == "delta":
        from pysqlsync.dialect.delta.data_types import DeltaVariableBinaryType as T
    else:
        T = SqlVariableBinaryType
    return T(storage)


def real_type(dialect):
    if dialect == "delta":
        from pysqlsync.dialect.delta.data_types import DeltaRealType as T
    else:
        T = SqlRealType
    return T()


def double_type(dialect):
    if dialect == "delta":
        from pysqlsync.dialect.delta.data_types import DeltaDoubleType as T
    else:
        T = SqlDoubleType
    return T()


FAMILIES = ["int", "real", "double", "char", "varchar", "binary", "varbinary", "other"]


def make(S, dialect, family, i, ranges=True):
    "A type of a family with symbolic attributes."

    def length():
        return None if S.bool(f"unlimited{i}") else S.int(f"limit{i}", 1, 1 << 32)

    if family == "int":
        t = int_type(dialect)
        if dialect != "oracle":
            t.width = S.choose(f"width{i}", [1, 2, 4, 8])
        t.signed = S.bool(f"signed{i}")
        if ranges and S.bool(f"range{i}"):
            t.minimum = S.int(f"minimum{i}")
            t.maximum = S.int(f"maximum{i}")
            S.assume(t.minimum <= t.maximum)
        return t
    if family == "real":
        return real_type(dialect)
    if family == "double":
        return double_type(dialect)
    if family == "char":
        return SqlFixedCharacterType(length())
    if family == "varchar":
        return text_type(dialect, length())
    if family == "binary":
        return SqlFixedBinaryType(length())
    if family == "varbinary":
        return binary_type(dialect, length())
    return S.choose(
        f"other{i}",
        [
            SqlBooleanType(),
            SqlDateType(),
            SqlTimestampType(3, False),
            SqlTimestampType(3, True),
            SqlTimestampType(6, False),
            SqlTimeType(),
            SqlUuidType(),
            SqlJsonType(),
            SqlIntervalType(),
            SqlDecimalType(10, 2),
            SqlDecimalType(12, 1),
            SqlFloatType(24),
            SqlFloatType(53),
        ],
    )


def int_range(t):
    if t.signed:
        lo, hi = -(1 << (8 * t.width - 1)), (1 << (8 * t.width - 1)) - 1
    else:
        lo, hi = 0, (1 << (8 * t.width)) - 1
    return lo, hi


def fits_int(S, value, t):
    lo, hi = int_range(t)
    cond = [lo <= value, value <= hi]
    if t.minimum is not None:
        cond.append(t.minimum <= value)
    if t.maximum is not None:
        cond.append(value <= t.maximum)
    return S.all(cond)


def length_limit(t, fixed):
    limit = t.storage if hasattr(t, "storage") else t.limit
    if limit is None:
        return 1 if fixed else UNLIMITED
    return limit


def kind(t):
    if isinstance(t, SqlIntegerType):
        return "int"
    if isinstance(t, SqlRealType):
        return "real"
    if isinstance(t, SqlDoubleType):
        return "double"
    if isinstance(t, (SqlFixedCharacterType, SqlVariableCharacterType)):
        return "text"
    if isinstance(t, (SqlFixedBinaryType, SqlVariableBinaryType)):
        return "bytes"
    return "other"


def holds(S, result, member, value, label):
    "Whether the result type stores every value of a member type."

    k = kind(member)
    if k == "real":
        S.check(kind(result) in ("real", "double"), f"{label}: result is not a floating-point type")
    elif k == "other":
        S.check(result == member, f"{label}: a type of no family is replaced")
    else:
        S.check(kind(result) == k, f"{label}: result is of another family")
    if k == "int":
        return [S.implies(fits_int(S, value, member), fits_int(S, value, result))]
    elif k in ("text", "bytes"):
        fixed = (SqlFixedCharacterType, SqlFixedBinaryType)
        if not isinstance(member, fixed):
            S.check(not isinstance(result, fixed), f"{label}: variable-length value in a fixed-length column")
        return [length_limit(result, isinstance(result, fixed)) >= length_limit(member, isinstance(member, fixed))]
    return []


def reducible(types):
    "Whether a common type is certain to exist."
    kinds = {kind(t) for t in types}
    if kinds <= {"real", "double"}:
        return True
    if len(kinds) > 1:
        return False
    return kinds <= {"text", "bytes"}


def irreducible(types):
    "Whether a common type cannot exist."
    kinds = {kind(t) for t in types}
    if kinds <= {"real", "double"} or kinds == {"other"}:
        return False
    return len(kinds) > 1


def reduce_types(types):
    try:
        return compatible_type(types)
    except CompatibilityError:
        return None


def check_union(S, types, value):
    result = reduce_types(types)
    fits = []
    for permutation in itertools.permutations(types):
        r = reduce_types(list(permutation))
        S.check((r is None) == (result is None), "reduction depends on the order of members")
        if r is None:
            S.check(not reducible(types), "members have a common type")
            continue
        S.check(not irreducible(types), "members of different families are reduced to a common type")
        for t in types:
            fits += holds(S, r, t, value, "union")
    S.check(S.all(fits), "a value of a member does not fit the result")


DIALECTS = ["postgresql", "mysql", "mssql", "oracle", "redshift", "delta"]


@harness(
    "C12",
    params=grid(dialect=DIALECTS, left=FAMILIES, right=FAMILIES),
    thorough=grid(dialect=DIALECTS, left=FAMILIES, right=FAMILIES),
)
def pairs(S, dialect, left, right):
    value = S.int("value")
    check_union(S, [make(S, dialect, left, 0), make(S, dialect, right, 1)], value)


TRIPLES = [t for t in itertools.combinations_with_replacement(FAMILIES, 3) if t.count("other") < 2]


@harness(
    "C12",
    params=[{"dialect": "postgresql", "families": list(t)} for t in TRIPLES if len(set(t)) < 3 or "char" in t],
    thorough=[{"dialect": d, "families": list(t)} for d in DIALECTS for t in TRIPLES],
)
def triples(S, dialect, families):
    value = S.int("value")
    check_union(S, [make(S, dialect, f, i, ranges=False) for i, f in enumerate(families)], value)


@harness("C12", params=grid(n=[1, 2, 3]), thorough=grid(n=[1, 2, 3, 4]))
def literals(S, n):
    "A union of strings of fixed length."
    lengths = [S.int(f"length{i}", 0, 100000) for i in range(n)]
    result = compatible_type([SqlFixedCharacterType(k) for k in lengths])
    for k in lengths:
        S.check(result.limit >= k, "string exceeds the limit of the column")
    S.check(S.any([S.eq(result.limit, k) for k in lengths]), "limit is not the length of any string")
