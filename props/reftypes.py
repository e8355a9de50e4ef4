"What values the columns of a type can hold, taken from the documentation of the engines."

from .refdb import expression_of

# more than any length that is compared
UNLIMITED = 1 << 40


class UnknownType(Exception):
    "The engine has no such type."


class Capacity:
    """
    The values that a type holds.

    :param kind: One of bool, int, float, decimal, text, binary, timestamp, date, time, uuid, inet, json, enum, user, array.
    """

    def __init__(self, kind, **limits):
        self.kind = kind
        self.__dict__.update(limits)


def integers(width, signed=True):
    if signed:
        return Capacity("int", minimum=-(1 << (8 * width - 1)), maximum=(1 << (8 * width - 1)) - 1)
    return Capacity("int", minimum=0, maximum=(1 << (8 * width)) - 1)


def numbers(precision, scale):
    "Fixed-point numbers."
    return Capacity("decimal", precision=precision, scale=scale)


def digits(precision):
    "Integers of up to a number of digits."
    return Capacity("int", minimum=-(10**precision) + 1, maximum=10**precision - 1)


# the type without parameters, by dialect
PLAIN = {
    "postgresql": {
        "BOOLEAN": Capacity("bool"),
        "SMALLINT": integers(2),
        "INTEGER": integers(4),
        "BIGINT": integers(8),
        "REAL": Capacity("float", bits=24),
        "DOUBLE PRECISION": Capacity("float", bits=53),
        "DECIMAL": Capacity("any decimal"),
        "TEXT": Capacity("text", limit=UNLIMITED),
        "TIMESTAMP": Capacity("timestamp", digits=6),
        "DATE": Capacity("date"),
        "TIME": Capacity("time", digits=6),
        "UUID": Capacity("uuid"),
        "INET": Capacity("inet"),
        "JSON": Capacity("json"),
        "JSONB": Capacity("json"),
    },
    "mysql": {
        "TINYINT": integers(1),
        "SMALLINT": integers(2),
        "INTEGER": integers(4),
        "BIGINT": integers(8),
        "REAL": Capacity("float", bits=53),
        "DOUBLE PRECISION": Capacity("float", bits=53),
        "DECIMAL": numbers(10, 0),
        "MEDIUMTEXT": Capacity("text", limit=16777215),
        "LONGTEXT": Capacity("text", limit=4294967295),
        "DATETIME": Capacity("timestamp", digits=0),
        "DATE": Capacity("date"),
        "TIME": Capacity("time", digits=0),
        "JSON": Capacity("json"),
    },
    "mssql": {
        "BIT": Capacity("bool"),
        "TINYINT": integers(1, False),
        "SMALLINT": integers(2),
        "INTEGER": integers(4),
        "BIGINT": integers(8),
        "REAL": Capacity("float", bits=24),
        "DOUBLE PRECISION": Capacity("float", bits=53),
        "DECIMAL": numbers(18, 0),
        "DATETIME2": Capacity("timestamp", digits=7),
        "DATE": Capacity("date"),
        "TIME": Capacity("time", digits=7),
    },
    "oracle": {
        "BOOLEAN": Capacity("bool"),
        "SMALLINT": digits(38),
        "INTEGER": digits(38),
        "NUMBER": digits(38),
        "REAL": Capacity("float", bits=63),
        "DOUBLE PRECISION": Capacity("float", bits=126),
        "DECIMAL": numbers(38, 0),
        "CLOB": Capacity("text", limit=UNLIMITED),
        "BLOB": Capacity("binary", limit=UNLIMITED),
        "TIMESTAMP": Capacity("timestamp", digits=6),
        "DATE": Capacity("date"),
        "INTERVAL DAY TO SECOND": Capacity("time", digits=6),
    },
    "redshift": {
        "BOOLEAN": Capacity("bool"),
        "SMALLINT": integers(2),
        "INTEGER": integers(4),
        "BIGINT": integers(8),
        "REAL": Capacity("float", bits=24),
        "DOUBLE PRECISION": Capacity("float", bits=53),
        "DECIMAL": numbers(18, 0),
        "TEXT": Capacity("text", limit=256),
        "TIMESTAMP": Capacity("timestamp", digits=6),
        "DATE": Capacity("date"),
        "TIME": Capacity("time", digits=6),
    },
    "snowflake": {
        "BOOLEAN": Capacity("bool"),
        "SMALLINT": digits(38),
        "INTEGER": digits(38),
        "BIGINT": digits(38),
        "REAL": Capacity("float", bits=53),
        "DOUBLE PRECISION": Capacity("float", bits=53),
        "DECIMAL": numbers(38, 0),
        "TEXT": Capacity("text", limit=16777216),
        "DATETIME": Capacity("timestamp", digits=9),
        "DATE": Capacity("date"),
        "TIME": Capacity("time", digits=9),
        "VARIANT": Capacity("json"),
    },
    "delta": {
        "BOOLEAN": Capacity("bool"),
        "SMALLINT": integers(2),
        "INTEGER": integers(4),
        "BIGINT": integers(8),
        "FLOAT": Capacity("float", bits=24),
        "DOUBLE": Capacity("float", bits=53),
        "DECIMAL": numbers(10, 0),
        "STRING": Capacity("text", limit=UNLIMITED),
        "BINARY": Capacity("binary", limit=UNLIMITED),
        "TIMESTAMP_NTZ": Capacity("timestamp", digits=6),
        "DATE": Capacity("date"),
    },
    "trino": {
        "BOOLEAN": Capacity("bool"),
        "SMALLINT": integers(2),
        "INTEGER": integers(4),
        "BIGINT": integers(8),
        "REAL": Capacity("float", bits=24),
        "DOUBLE PRECISION": Capacity("float", bits=53),
        "DECIMAL": numbers(38, 0),
        "TIMESTAMP": Capacity("timestamp", digits=3),
        "DATE": Capacity("date"),
        "TIME": Capacity("time", digits=3),
        "UUID": Capacity("uuid"),
        "JSON": Capacity("json"),
    },
}

MAX_DECIMAL = {"postgresql": 1000, "mysql": 65}


def refuse(condition, what):
    if condition:
        raise UnknownType(what)


def number(token):
    return int(token[1])


def capacity(text, dialect):
    "What a column with a type holds; the type may have symbolic numbers and labels."

    return capacity_of(expression_of(text, dialect), dialect)


def capacity_of(tokens, dialect):
    if len(tokens) > 1 and tokens[-1] == ("word", "ARRAY"):
        refuse(dialect not in ("postgresql",), "an array")
        return Capacity("array", item=capacity_of(tokens[:-1], dialect))
    if tokens[0][0] == "id":
        return Capacity("user", name=tuple(v for k, v in tokens if k == "id"))
    words = []
    for k, v in tokens:
        if k != "word":
            break
        words.append(v)
    rest = tokens[len(words) :]
    name = " ".join(words)
    if name == "ENUM":
        refuse(dialect != "mysql", name)
        return Capacity("enum", labels=[v for k, v in rest if k == "str"])
    if not rest:
        found = PLAIN[dialect].get(name)
        refuse(found is None, name)
        return found
    refuse(rest[0] != ("op", "(") or rest[-1] != ("op", ")"), name)
    args = [number(t) for t in rest[1:-1] if t[0] == "num"]
    if name in ("VARCHAR", "VARCHAR2"):
        refuse((name == "VARCHAR2") != (dialect == "oracle"), name)
        if dialect == "mssql" and rest[1] == ("word", "MAX"):
            return Capacity("text", limit=UNLIMITED)
        limit = {"postgresql": 10485760, "mysql": 65535, "mssql": 8000, "oracle": 4000, "redshift": 65535, "snowflake": 16777216}.get(dialect, UNLIMITED)
        refuse(args[0] > limit or args[0] < 1, f"{name} of this length")
        return Capacity("text", limit=args[0])
    if name == "CHAR":
        limit = {"postgresql": 10485760, "mysql": 255, "mssql": 8000, "oracle": 2000, "redshift": 4096}.get(dialect, UNLIMITED)
        refuse(args[0] > limit or args[0] < (0 if dialect == "mysql" else 1), f"{name} of this length")
        return Capacity("text", limit=args[0])
    if name == "DECIMAL":
        scale = args[1] if len(args) > 1 else 0
        refuse(args[0] > MAX_DECIMAL.get(dialect, 38) or scale > (30 if dialect == "mysql" else 1000), f"{name} of this precision")
        refuse(scale > args[0] or args[0] < 1, f"{name} of this scale")
        return numbers(args[0], scale)
    if name == "FLOAT":
        if dialect in ("snowflake",):
            return Capacity("float", bits=53)
        refuse(dialect in ("delta", "trino"), name)
        refuse(args[0] > (126 if dialect == "oracle" else 53) or args[0] < 1, f"{name} of this precision")
        if dialect == "oracle":
            return Capacity("float", bits=args[0])
        return Capacity("float", bits=24 if args[0] <= 24 else 53)
    if name in ("TIMESTAMP", "TIME", "DATETIME", "DATETIME2"):
        found = PLAIN[dialect].get(name)
        refuse(found is None, name)
        refuse(args[0] > {"oracle": 9, "mssql": 7, "snowflake": 9, "trino": 12}.get(dialect, 6), f"{name} of this precision")
        refuse(dialect == "delta", name)
        return Capacity(found.kind, digits=args[0])
    if name in ("BINARY", "VARBINARY", "RAW", "VARBYTE"):
        refuse(name not in {"oracle": ("RAW",), "redshift": ("VARBYTE",), "mysql": ("BINARY", "VARBINARY"), "mssql": ("BINARY", "VARBINARY"), "snowflake": ("BINARY", "VARBINARY")}.get(dialect, ()), name)
        return Capacity("binary", limit=args[0])
    raise UnknownType(name)
