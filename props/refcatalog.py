"""
What the catalog of a database reports for tables that were created with given definitions.

Follows the documentation of the system tables of each database.
"""

from .minisql import Evaluator, QueryError, deliver
from .sql import tokenize


class TypeRefused(Exception):
    "The database does not accept the type."


class Col:
    """
    A column.

    :param default: The default value as the catalog reports it.
    :param expression: The expression of the default value.
    :param generated: Whether the default value is not a constant.
    """

    def __init__(self, name, type_sql, nullable=False, default=None, identity=False, comment=None, expression=None, generated=False):
        self.name = name
        self.type_sql = type_sql
        self.nullable = nullable
        self.default = default
        self.expression = expression if expression is not None else default
        self.generated = generated
        self.identity = identity
        self.comment = comment


class Tab:
    def __init__(self, schema, name, columns, key, uniques=(), foreigns=(), comment=None, key_name=None, database=None):
        self.schema = schema
        self.database = database
        self.name = name
        self.columns = list(columns)
        self.key = list(key)
        self.uniques = list(uniques)  # (name, columns)
        self.foreigns = list(foreigns)  # (name, columns, referenced schema, referenced table, referenced columns)
        self.comment = comment
        self.key_name = key_name or f"pk_{name}"


class Stored:
    "A column type as a database stores it."

    def __init__(self, name, definition, length=None, precision=None, scale=None, time=None, namespace=None, array=False, values=None):
        self.name = name
        self.definition = definition
        self.length = length
        self.precision = precision
        self.scale = scale
        self.time = time
        self.namespace = namespace
        self.array = array
        self.values = values

    def same(self, S, other):
        if self.name != other.name or self.array != other.array or self.namespace != other.namespace:
            return False
        if (self.values is None) != (other.values is None):
            return False
        conditions = []
        if self.values is not None:
            if len(self.values) != len(other.values):
                return False
            conditions += [S.eq(a, b) for a, b in zip(self.values, other.values)]
        for a, b in (
            (self.length, other.length),
            (self.precision, other.precision),
            (self.scale, other.scale),
            (self.time, other.time),
        ):
            if (a is None) != (b is None):
                return False
            if a is not None:
                conditions.append(S.eq(a, b))
        return S.all(conditions)


def parse_type(text, dialect):
    "Splits a type definition into words, arguments and identifiers."

    words, args, names = [], [], []
    for t in tokenize(text, dialect):
        if t.kind == "word":
            words.append(str(t.value))
        elif t.kind == "num":
            args.append(int(t.value))
        elif t.kind == "id":
            names.append(t.value)
        elif t.kind == "str":
            args.append(t.value)
    return words, args, names


def postgresql_type(text, current=None):
    words, args, names = parse_type(text, "postgresql")
    array = bool(words) and words[-1] == "ARRAY"
    if array:
        words = words[:-1]
    if names:
        if len(names) == 1 and current is None:
            raise TypeRefused(text)
        namespace, name = names if len(names) == 2 else (current, names[0])
        # types in the current schema are written without a schema
        definition = f"{namespace}.{name}" if len(names) == 2 else f'"{name}"'
        return Stored("_" + name if array else name, definition + "[]" if array else definition, namespace=namespace, array=array)
    base = " ".join(words)
    zone = base.endswith("WITH TIME ZONE")
    t = None
    simple = {
        "BOOLEAN": ("bool", "boolean"),
        "SMALLINT": ("int2", "smallint"),
        "INTEGER": ("int4", "integer"),
        "BIGINT": ("int8", "bigint"),
        "REAL": ("float4", "real"),
        "DOUBLE PRECISION": ("float8", "double precision"),
        "TEXT": ("text", "text"),
        "DATE": ("date", "date"),
        "INTERVAL": ("interval", "interval"),
        "UUID": ("uuid", "uuid"),
        "JSON": ("json", "json"),
        "JSONB": ("jsonb", "jsonb"),
        "BYTEA": ("bytea", "bytea"),
        "INET": ("inet", "inet"),
    }
    if base in simple:
        if args:
            raise TypeRefused(text)
        t = Stored(*simple[base])
    elif base == "FLOAT":
        if not args or args[0] > 24:
            t = Stored("float8", "double precision")
        else:
            t = Stored("float4", "real")
    elif base in ("DECIMAL", "NUMERIC"):
        if not args:
            t = Stored("numeric", "numeric")
        else:
            if len(args) == 1:
                args.append(0)
            t = Stored("numeric", f"numeric({args[0]},{args[1]})", precision=args[0], scale=args[1])
    elif base in ("VARCHAR", "CHARACTER VARYING"):
        if args:
            t = Stored("varchar", f"character varying({args[0]})", length=args[0])
        else:
            t = Stored("varchar", "character varying")
    elif base in ("CHAR", "CHARACTER"):
        n = args[0] if args else 1
        t = Stored("bpchar", f"character({n})", length=n)
    elif words[0] in ("TIMESTAMP", "TIME"):
        name = words[0].lower()
        suffix = "with time zone" if zone else "without time zone"
        precision = f"({args[0]})" if args else ""
        t = Stored(name + ("tz" if zone else ""), f"{name}{precision} {suffix}", time=args[0] if args else None)
    if t is None:
        raise TypeRefused(text)
    t.namespace = "pg_catalog"
    if array:
        t.array = True
        t.name = "_" + t.name
        t.definition = t.definition + "[]"
    return t


INT_PRECISION = {"tinyint": 3, "smallint": 5, "int": 10, "bigint": 19}


def mysql_type(text):
    words, args, _ = parse_type(text, "mysql")
    base = " ".join(words)
    if base == "BOOLEAN":
        return Stored("tinyint", "tinyint(1)", precision=3, scale=0)
    if base in ("TINYINT", "SMALLINT", "INTEGER", "INT", "BIGINT"):
        name = "int" if base == "INTEGER" else base.lower()
        return Stored(name, name, precision=INT_PRECISION[name], scale=0)
    if base in ("REAL", "DOUBLE PRECISION", "DOUBLE"):
        return Stored("double", "double", precision=22)
    if base == "FLOAT":
        if args and args[0] > 24:
            return Stored("double", "double", precision=22)
        return Stored("float", "float", precision=12)
    if base in ("DECIMAL", "NUMERIC"):
        p = args[0] if args else 10
        s = args[1] if len(args) > 1 else 0
        return Stored("decimal", f"decimal({p},{s})", precision=p, scale=s)
    if base == "VARCHAR":
        if args[0] > 65535:
            raise TypeRefused(text)
        return Stored("varchar", f"varchar({args[0]})", length=args[0])
    if base == "CHAR":
        n = args[0] if args else 1
        if n > 255:
            raise TypeRefused(text)
        return Stored("char", f"char({n})", length=n)
    sizes = {"TINY": 255, "": 65535, "MEDIUM": 16777215, "LONG": 4294967295}
    for prefix, size in sizes.items():
        if base == prefix + "TEXT":
            return Stored(base.lower(), base.lower(), length=size)
        if base == prefix + "BLOB":
            return Stored(base.lower(), base.lower(), length=size)
    if base in ("BINARY", "VARBINARY"):
        n = args[0] if args else 1
        if n > (255 if base == "BINARY" else 65535):
            raise TypeRefused(text)
        return Stored(base.lower(), f"{base.lower()}({n})", length=n)
    if base in ("DATETIME", "TIMESTAMP", "TIME"):
        p = args[0] if args else 0
        if p > 6:
            raise TypeRefused(text)
        name = base.lower()
        return Stored(name, f"{name}({p})" if p > 0 else name, time=p)
    if base in ("DATE", "JSON"):
        return Stored(base.lower(), base.lower())
    if base == "ENUM":
        labels = ",".join("'" + v.replace("'", "''") + "'" for v in args)
        return Stored("enum", f"enum({labels})", values=args)
    raise TypeRefused(text)


def mssql_type(text):
    words, args, _ = parse_type(text, "mssql")
    maximum = words[-1] == "MAX"
    if maximum:
        words = words[:-1]
    base = " ".join(words)
    if base == "BIT":
        return Stored("bit", None)
    if base in ("TINYINT", "SMALLINT", "INTEGER", "INT", "BIGINT"):
        name = "int" if base == "INTEGER" else base.lower()
        return Stored(name, None, precision=INT_PRECISION[name], scale=0)
    if base == "REAL":
        return Stored("real", None, precision=24)
    if base == "DOUBLE PRECISION":
        return Stored("float", None, precision=53)
    if base == "FLOAT":
        if args and args[0] > 53:
            raise TypeRefused(text)
        if args and args[0] < 25:
            return Stored("real", None, precision=24)
        return Stored("float", None, precision=53)
    if base in ("DECIMAL", "NUMERIC"):
        p = args[0] if args else 18
        s = args[1] if len(args) > 1 else 0
        return Stored("decimal", None, precision=p, scale=s)
    if base in ("VARCHAR", "NVARCHAR", "VARBINARY"):
        if maximum:
            return Stored(base.lower(), None, length=-1)
        n = args[0] if args else 1
        if n > (4000 if base == "NVARCHAR" else 8000) or n < 1:
            raise TypeRefused(text)
        return Stored(base.lower(), None, length=n)
    if base in ("CHAR", "NCHAR", "BINARY"):
        n = args[0] if args else 1
        if n > 8000 or n < 1:
            raise TypeRefused(text)
        return Stored(base.lower(), None, length=n)
    if base in ("DATETIME2", "TIME", "DATETIMEOFFSET"):
        p = args[0] if args else 7
        if p > 7:
            raise TypeRefused(text)
        return Stored(base.lower(), None, time=p)
    if base == "DATE":
        return Stored("date", None, time=0)
    raise TypeRefused(text)


def oracle_type(text):
    words, args, _ = parse_type(text, "oracle")
    base = " ".join(words)
    if base in ("SMALLINT", "INTEGER", "INT"):
        return Stored("NUMBER", None, length=22, scale=0)
    if base == "NUMBER" and not args:
        return Stored("NUMBER", None, length=22)
    if base in ("DECIMAL", "NUMERIC", "NUMBER"):
        if not args:
            return Stored("NUMBER", None, length=22, scale=0)
        if args[0] > 38:
            raise TypeRefused(text)
        return Stored("NUMBER", None, length=22, precision=args[0], scale=args[1] if len(args) > 1 else 0)
    if base == "REAL":
        return Stored("FLOAT", None, length=22, precision=63)
    if base == "DOUBLE PRECISION":
        return Stored("FLOAT", None, length=22, precision=126)
    if base == "FLOAT":
        p = args[0] if args else 126
        if p > 126:
            raise TypeRefused(text)
        return Stored("FLOAT", None, length=22, precision=p)
    if base == "BOOLEAN":
        return Stored("BOOLEAN", None, length=1)
    if base == "VARCHAR2":
        if args[0] > 4000:
            raise TypeRefused(text)
        return Stored("VARCHAR2", None, length=args[0])
    if base in ("CLOB", "BLOB"):
        return Stored(base, None)
    if base == "RAW":
        if args[0] > 2000:
            raise TypeRefused(text)
        return Stored("RAW", None, length=args[0])
    if base in ("CHAR", "CHARACTER"):
        n = args[0] if args else 1
        if n > 2000:
            raise TypeRefused(text)
        return Stored("CHAR", None, length=n)
    if base == "DATE":
        return Stored("DATE", None, length=7)
    if words[0] == "TIMESTAMP":
        p = args[0] if args else 6
        if p > 9:
            raise TypeRefused(text)
        if base.endswith("WITH TIME ZONE"):
            return Stored(f"TIMESTAMP({p}) WITH TIME ZONE", None, length=13, scale=p)
        return Stored(f"TIMESTAMP({p})", None, length=11, scale=p)
    if base == "INTERVAL DAY TO SECOND":
        return Stored("INTERVAL DAY(2) TO SECOND(6)", None, length=11, precision=2, scale=6)
    raise TypeRefused(text)


TYPES = {
    "postgresql": postgresql_type,
    "mysql": mysql_type,
    "mssql": mssql_type,
    "oracle": oracle_type,
    # connectors report the types of the underlying database; the names of the standard are used
    "trino": postgresql_type,
}


# default values


def text_of(tokens):
    "The text of an expression or type."

    out = ""
    for kind, value in tokens:
        if kind == "id":
            s = '"' + value + '"'
        elif kind == "str":
            s = "'" + value.replace("'", "''") + "'"
        else:
            s = value
        # an operator is not apart from what is next to it
        out = out + (" " if out and kind not in ("op",) and out[-1:] not in ("(", "-", ",", ".") else "") + s
    return out


# how the definition of a default value names the type of a literal
POSTGRESQL_LABELS = {
    "TEXT": "text",
    "VARCHAR": "character varying",
    "CHAR": "bpchar",
    "TIMESTAMP": "timestamp without time zone",
    "DATE": "date",
    "TIME": "time without time zone",
    "UUID": "uuid",
    "JSON": "json",
    "JSONB": "jsonb",
    "INET": "inet",
}


def default_definition(S, dialect, type, tokens):
    """
    How the catalog of a database reports a default value.

    :param tokens: The expression in the statement that created the column.
    """

    if tokens is None:
        return None
    first, value = tokens[0]
    negative = first == "op" and value == "-"
    if negative:
        first, value = tokens[1]
    if first == "str":
        literal = "'" + value.replace("'", "''") + "'"
    base = type[0][1] if type[0][0] == "word" else None
    if dialect == "postgresql":
        if first == "str":
            if type[0][0] == "id":
                # names in lower case are not in quotes
                return literal + "::" + (type[0][1] + "." + type[2][1] if len(type) > 2 else '"' + type[0][1] + '"')
            return literal + "::" + POSTGRESQL_LABELS[base]
        if first == "word":
            return value.lower()
        if negative:
            return f"'-{value}'::" + ("numeric" if "." in value else "integer" if int(value) <= 1 << 31 else "bigint")
        if "." not in value and int(value) >= 1 << 31:
            return f"'{value}'::bigint"
        return value
    if dialect == "mysql":
        if first == "str":
            return value
        if first == "word":
            return {"TRUE": "1", "FALSE": "0"}[value]
        return ("-" if negative else "") + value
    if dialect == "mssql":
        if first == "str":
            return f"({literal})"
        if first == "word":
            # the stand-in keeps bits as truth values
            value = {"TRUE": "1", "FALSE": "0"}[value]
        return f"(({'-' if negative else ''}{value}))"
    # the text as it is in the statement
    if first == "str":
        if base == "TIMESTAMP" or base == "DATE":
            literal = f"{base} {literal}"
        elif base == "INTERVAL":
            literal = f"INTERVAL '0 {value}' DAY TO SECOND"
        value = literal
    return ("-" if negative else "") + value + S.choose("white space", ["", " "])


# system tables


def information_schema(dialect, tabs, database):
    tables, columns, constraints, usage, referential = [], [], [], [], []
    key_of = {}
    for t in tabs:
        schema = t.schema if dialect != "mysql" else t.database or database
        tables.append(
            {"table_catalog": "def", "table_schema": schema, "table_name": t.name, "table_type": "BASE TABLE", "table_comment": t.comment or ""}
        )
        for i, c in enumerate(t.columns, start=1):
            s = TYPES[dialect](c.type_sql)
            name = s.name
            if dialect == "trino":
                name = s.definition.split("(")[0]
                if " time zone" in s.definition:
                    name = s.definition
            columns.append(
                {
                    "table_schema": schema,
                    "table_name": t.name,
                    "column_name": c.name,
                    "ordinal_position": i,
                    "data_type": name,
                    "is_nullable": "YES" if c.nullable else "NO",
                    "column_default": c.default,
                    "character_maximum_length": s.length,
                    "numeric_precision": s.precision,
                    "numeric_scale": s.scale,
                    "datetime_precision": s.time,
                    "column_type": s.definition,
                    "extra": "auto_increment" if c.identity else "DEFAULT_GENERATED" if c.generated else "",
                    "column_comment": c.comment or "",
                }
            )
        groups = []
        if t.key:
            groups.append(("PRIMARY KEY", "PRIMARY" if dialect == "mysql" else t.key_name, t.key, None))
        groups += [("UNIQUE", n, cols, None) for n, cols in t.uniques]
        groups += [("FOREIGN KEY", n, cols, (rs, rt, rc)) for n, cols, rs, rt, rc in t.foreigns]
        for kind, name, cols, ref in groups:
            constraints.append(
                {
                    "constraint_catalog": "def",
                    "constraint_schema": schema,
                    "constraint_name": name,
                    "table_schema": schema,
                    "table_name": t.name,
                    "constraint_type": kind,
                }
            )
            if ref is None:
                key_of[(schema, t.name, frozenset(cols))] = name
            for i, col in enumerate(cols, start=1):
                usage.append(
                    {
                        "constraint_catalog": "def",
                        "constraint_schema": schema,
                        "constraint_name": name,
                        "table_schema": schema,
                        "table_name": t.name,
                        "column_name": col,
                        "ordinal_position": i,
                        "position_in_unique_constraint": None if ref is None else i,
                        "referenced_table_schema": None if ref is None else (schema if dialect == "mysql" else ref[0]),
                        "referenced_table_name": None if ref is None else ref[1],
                        "referenced_column_name": None if ref is None else ref[2][i - 1],
                    }
                )
    for t in tabs:
        schema = t.schema if dialect != "mysql" else t.database or database
        for name, cols, rs, rt, rc in t.foreigns:
            rs = schema if dialect == "mysql" else rs
            referential.append(
                {
                    "constraint_catalog": "def",
                    "constraint_schema": schema,
                    "constraint_name": name,
                    "unique_constraint_catalog": "def",
                    "unique_constraint_schema": rs,
                    "unique_constraint_name": key_of.get((rs, rt, frozenset(rc))),
                    "table_name": t.name,
                    "referenced_table_name": rt,
                }
            )
    return {
        "information_schema.tables": tables,
        "information_schema.columns": columns,
        "information_schema.table_constraints": constraints,
        "information_schema.key_column_usage": usage,
        "information_schema.referential_constraints": referential,
    }


def sys_tables(tabs):
    schemas = {}
    tables, columns, defaults = [], [], []
    oid = 100
    for t in tabs:
        sid = schemas.setdefault(t.schema, len(schemas) + 5)
        oid += 1
        tid = oid
        tables.append({"name": t.name, "schema_id": sid, "object_id": tid, "is_ms_shipped": 0})
        for c in t.columns:
            did = 0
            if c.default is not None:
                oid += 1
                did = oid
                defaults.append({"object_id": did, "definition": c.default, "name": f"df_{c.name}"})
            columns.append(
                {"name": c.name, "object_id": tid, "is_identity": 1 if c.identity else 0, "default_object_id": did}
            )
    return {
        "sys.schemas": [{"name": n, "schema_id": i} for n, i in schemas.items()],
        "sys.tables": tables,
        "sys.columns": columns,
        "sys.default_constraints": defaults,
    }, schemas


def oracle_tables(tabs, owner):
    tables, comments, columns, col_comments, constraints, con_columns = [], [], [], [], [], []
    key_of = {}
    for t in tabs:
        own = t.schema or owner
        tables.append(
            {
                "owner": own,
                "table_name": t.name,
                "tablespace_name": "USERS",
                "status": "VALID",
                "temporary": "N",
                "secondary": "N",
                "dropped": "NO",
                "read_only": "NO",
            }
        )
        comments.append({"owner": own, "table_name": t.name, "comments": t.comment})
        for i, c in enumerate(t.columns, start=1):
            s = oracle_type(c.type_sql)
            char = s.name in ("VARCHAR2", "CHAR")
            columns.append(
                {
                    "owner": own,
                    "table_name": t.name,
                    "column_name": c.name,
                    "column_id": i,
                    "data_type": s.name,
                    "data_type_owner": None,
                    # lengths are in bytes, columns of characters in characters
                    "data_length": s.length * 4 if char else s.length if s.length is not None else 4000,
                    "data_precision": s.precision,
                    "data_scale": s.scale,
                    "nullable": "Y" if c.nullable else "N",
                    "data_default": '"SYSTEM"."ISEQ$$_1".nextval' if c.identity else c.default,
                    "char_length": s.length if char else 0,
                    "identity_column": "YES" if c.identity else "NO",
                }
            )
            col_comments.append({"owner": own, "table_name": t.name, "column_name": c.name, "comments": c.comment})
        groups = []
        if t.key:
            groups.append(("P", t.key_name, t.key, None))
        groups += [("U", n, cols, None) for n, cols in t.uniques]
        groups += [("R", n, cols, (rt, rc)) for n, cols, rs, rt, rc in t.foreigns]
        for kind, name, cols, ref in groups:
            if ref is None:
                key_of[(t.name, tuple(cols))] = name
            for i, col in enumerate(cols, start=1):
                con_columns.append({"owner": own, "constraint_name": name, "table_name": t.name, "column_name": col, "position": i})
        for c in t.columns:
            if not c.nullable:
                constraints.append(
                    {"owner": own, "constraint_name": f"SYS_C_{t.name}_{c.name}", "constraint_type": "C", "table_name": t.name, "r_owner": None, "r_constraint_name": None}
                )
                con_columns.append({"owner": own, "constraint_name": f"SYS_C_{t.name}_{c.name}", "table_name": t.name, "column_name": c.name, "position": None})
    for t in tabs:
        own = t.schema or owner
        if t.key:
            constraints.append({"owner": own, "constraint_name": t.key_name, "constraint_type": "P", "table_name": t.name, "r_owner": None, "r_constraint_name": None})
        for n, cols in t.uniques:
            constraints.append({"owner": own, "constraint_name": n, "constraint_type": "U", "table_name": t.name, "r_owner": None, "r_constraint_name": None})
        for n, cols, rs, rt, rc in t.foreigns:
            constraints.append(
                {"owner": own, "constraint_name": n, "constraint_type": "R", "table_name": t.name, "r_owner": own, "r_constraint_name": key_of[(rt, tuple(rc))]}
            )
    return {
        "dba_tables": tables,
        "dba_tab_comments": comments,
        "dba_tab_columns": columns,
        "dba_col_comments": col_comments,
        "dba_constraints": constraints,
        "dba_cons_columns": con_columns,
    }


class PostgreSQLCatalog:
    "The system tables of PostgreSQL."

    def __init__(self, tabs, enums=(), structs=(), current=None):
        self.current = current
        self.oid = 16384
        self.namespaces = {"pg_catalog": 11}
        self.types = {}
        self.formats = {}
        self.pg_class, self.pg_attribute, self.pg_type = [], [], []
        self.pg_attrdef, self.pg_description, self.pg_constraint, self.pg_enum = [], [], [], []
        for schema, name, labels in enums:
            oid = self.type_oid(name, schema, None)
            for i, label in enumerate(labels):
                self.pg_enum.append({"enumtypid": oid, "enumlabel": label, "enumsortorder": i + 1})
        for schema, name, members, comment in structs:
            oid = self.next()
            self.pg_class.append({"oid": oid, "relname": name, "relnamespace": self.namespace(schema), "relkind": "c"})
            type_oid = self.type_oid(name, schema, None)
            if comment is not None:
                self.pg_description.append({"objoid": type_oid, "objsubid": 0, "description": comment})
            for i, m in enumerate(members, start=1):
                self.attribute(oid, i, m)
        relations = {}
        for t in tabs:
            oid = self.next()
            relations[(t.schema, t.name)] = oid, {}
            self.pg_class.append({"oid": oid, "relname": t.name, "relnamespace": self.namespace(t.schema), "relkind": "r"})
            self.pg_class.append({"oid": self.next(), "relname": t.key_name, "relnamespace": self.namespace(t.schema), "relkind": "i"})
            if t.comment is not None:
                self.pg_description.append({"objoid": oid, "objsubid": 0, "description": t.comment})
            for name, number in (("ctid", -1), ("xmin", -2)):
                self.pg_attribute.append(
                    {
                        "attrelid": oid,
                        "attname": name,
                        "attnum": number,
                        "atttypid": self.type_oid("tid", "pg_catalog", None),
                        "atttypmod": -1,
                        "attnotnull": True,
                        "attndims": 0,
                        "attidentity": "",
                        "attisdropped": False,
                    }
                )
            number = 0
            for c in t.columns:
                number += 1
                if number == 2:
                    # a column that has been dropped leaves a gap
                    self.pg_attribute.append(
                        {
                            "attrelid": oid,
                            "attname": "........pg.dropped.2........",
                            "attnum": number,
                            "atttypid": 0,
                            "atttypmod": -1,
                            "attnotnull": False,
                            "attndims": 0,
                            "attidentity": "",
                            "attisdropped": True,
                        }
                    )
                    number += 1
                relations[(t.schema, t.name)][1][c.name] = number
                self.attribute(oid, number, c)
        for t in tabs:
            oid, numbers = relations[(t.schema, t.name)]
            groups = []
            if t.key:
                groups.append((b"p", t.key_name, t.key, None))
            groups += [(b"u", n, cols, None) for n, cols in t.uniques]
            groups += [(b"f", n, cols, (rs, rt, rc)) for n, cols, rs, rt, rc in t.foreigns]
            for kind, name, cols, ref in groups:
                self.pg_constraint.append(
                    {
                        "oid": self.next(),
                        "contype": kind,
                        "conname": name,
                        "conrelid": oid,
                        "conkey": [numbers[c] for c in cols],
                        "confrelid": 0 if ref is None else relations[ref[:2]][0],
                        "confkey": None if ref is None else [relations[ref[:2]][1][c] for c in ref[2]],
                    }
                )
            self.pg_constraint.append(
                {"oid": self.next(), "contype": b"c", "conname": f"ch_{t.name}", "conrelid": oid, "conkey": [1], "confrelid": 0, "confkey": None}
            )

    def next(self):
        self.oid += 1
        return self.oid

    def namespace(self, name):
        if name not in self.namespaces:
            self.namespaces[name] = self.next()
        return self.namespaces[name]

    def type_oid(self, name, schema, element):
        key = (schema, name)
        if key not in self.types:
            oid = self.next()
            self.types[key] = oid
            self.pg_type.append({"oid": oid, "typname": name, "typnamespace": self.namespace(schema), "typelem": element or 0})
        return self.types[key]

    def attribute(self, relation, number, c):
        s = postgresql_type(c.type_sql, self.current)
        element = None
        if s.array:
            element = self.type_oid(s.name[1:], s.namespace, None)
        oid = self.type_oid(s.name, s.namespace, element)
        modifier = len(self.formats)
        self.formats[(oid, modifier)] = s.definition
        self.pg_attribute.append(
            {
                "attrelid": relation,
                "attname": c.name,
                "attnum": number,
                "atttypid": oid,
                "atttypmod": modifier,
                "attnotnull": not c.nullable,
                "attndims": 1 if s.array else 0,
                "attidentity": "d" if c.identity else "",
                "attisdropped": False,
            }
        )
        if c.default is not None:
            self.pg_attrdef.append({"adrelid": relation, "adnum": number, "adbin": c.default})
        if c.comment is not None:
            self.pg_description.append({"objoid": relation, "objsubid": number, "description": c.comment})

    def tables(self):
        # the same text under another object identifier
        return {
            "pg_catalog.pg_class": self.pg_class,
            "pg_catalog.pg_namespace": [{"oid": i, "nspname": n} for n, i in self.namespaces.items()],
            "pg_catalog.pg_attribute": self.pg_attribute,
            "pg_catalog.pg_type": self.pg_type,
            "pg_catalog.pg_attrdef": self.pg_attrdef,
            "pg_catalog.pg_description": self.pg_description,
            "pg_catalog.pg_constraint": self.pg_constraint,
            "pg_catalog.pg_enum": self.pg_enum,
        }


def catalog(S, dialect, tabs, enums=(), structs=(), current="ndatabase", reverse=None):
    """
    An answer function for `fake_context`.

    :param current: The current schema or database.
    :param reverse: Whether rows come in reverse order unless their order is determined; any order if omitted.
    """

    functions = {}
    if dialect == "postgresql":
        c = PostgreSQLCatalog(tabs, enums, structs, current)
        tables = c.tables()
        functions = {
            "pg_catalog.format_type": lambda oid, modifier: c.formats[(oid, modifier)],
            "pg_catalog.pg_get_expr": lambda expr, relation: expr,
        }
    elif dialect == "oracle":
        tables = oracle_tables(tabs, current)
        functions = {"sys_context": lambda a, b: current}
    else:
        tables = information_schema(dialect, tabs, current)
        if dialect == "mssql":
            more, schemas = sys_tables(tabs)
            tables.update(more)
            functions = {
                "schema_id": lambda name=current: schemas.get(name),
                "schema_name": lambda: current,
            }
        functions["database"] = lambda: current
    functions["current_schema"] = lambda: current
    evaluator = Evaluator(S, tables, functions, dialect)
    evaluator.reverse = reverse

    def answer(signature, statement):
        names, rows = evaluator(statement)
        return deliver(signature, names, rows)

    return answer
