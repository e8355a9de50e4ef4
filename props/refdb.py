"""
A reference database: executes the statements of a script that defines or changes a schema, and keeps the objects.

The rules are those of the database engines: what a statement may refer to, what depends on what, and in which order the actions of a
statement take effect. A statement that an engine refuses raises `DatabaseError`.
"""

import re

from .sql import LexError, Token, split_statements, tokenize

try:
    from symex.strings import has_symbols
except ImportError:  # a counterexample is replayed without the solver

    def has_symbols(text):
        return False


class DatabaseError(Exception):
    "The statement is refused."


# dialects whose type and object names share a scope, whose actions take effect in passes, etc.
PG = ("postgresql", "redshift")
# dialects that execute a single action in a statement that alters a table
SINGLE = ("mssql", "oracle")
DEFAULT = ""

_PLAIN = re.compile(r"""\s+|"(?:[^"]|"")*"|`(?:[^`]|``)*`|\d+(?:\.\d+)?|[\w$]+|.""", re.DOTALL)
_STREAMS = {}


def tokens_of(text, dialect):
    "The tokens of a script; the tokens of a script without symbolic characters are computed once."

    if not isinstance(text, str):
        raise DatabaseError("statement is not a text")
    if has_symbols(text):
        return tokenize(text, dialect)
    key = (dialect, text)
    found = _STREAMS.get(key)
    if found is None:
        if len(_STREAMS) > 5000:
            _STREAMS.clear()
        found = tokenize(text, dialect) if "'" in text else plain_tokens(text)
        _STREAMS[key] = found
    return found


def plain_tokens(text):
    "The tokens of a text that has no literal."

    tokens = []
    for m in _PLAIN.finditer(text):
        s = m.group()
        ch = s[0]
        if ch.isspace():
            continue
        if ch == '"' and len(s) > 1:
            tokens.append(Token("id", s[1:-1].replace('""', '"'), m.start(), m.end()))
        elif ch == "`" and len(s) > 1:
            tokens.append(Token("id", s[1:-1].replace("``", "`"), m.start(), m.end()))
        elif ch == '"' or ch == "`":
            raise LexError("unterminated token")
        elif ch.isdigit():
            tokens.append(Token("num", s, m.start(), m.end()))
        elif ch.isalnum() or ch == "_" or ch == "$":
            tokens.append(Token("word", s.upper(), m.start(), m.end()))
        else:
            if ch == "-" and text[m.end() : m.end() + 1] == "-":
                raise LexError("comment in a generated statement")
            tokens.append(Token("op", s, m.start(), m.end()))
    return tokens


def expression(tokens):
    "A comparable form of an expression or a type."

    return tuple((t.kind, t.value) for t in tokens)


def expression_of(text, dialect):
    return expression(tokens_of(text, dialect))


class Col:
    def __init__(self, name, type, nullable, default=None, identity=False, comment=None):
        self.name = name
        self.type = type
        self.nullable = nullable
        self.default = default
        self.identity = identity
        self.comment = comment

    def copy(self):
        return Col(self.name, self.type, self.nullable, self.default, self.identity, self.comment)

    def user_type(self):
        return user_type(self.type)


# types whose literals have a prefix
PREFIXED = {
    "oracle": {"TIMESTAMP": "TIMESTAMP", "DATE": "DATE", "INTERVAL": "INTERVAL"},
    "snowflake": {"TIMESTAMP": "TIMESTAMP", "DATETIME": "TIMESTAMP", "DATE": "DATE", "TIME": "TIME"},
}


def fit_default(dialect, type, default):
    "The default value of a column, as the text that the literal has; refuses a literal of another type."

    if default is None or not type:
        return default
    if dialect == "mysql" and type[0][1] in ("TEXT", "MEDIUMTEXT", "LONGTEXT", "BLOB", "JSON") and default[0][0] == "str":
        raise DatabaseError("BLOB, TEXT, GEOMETRY or JSON column cannot have a default value")
    if dialect == "mssql":
        if default in ((("word", "TRUE"),), (("word", "FALSE"),)):
            raise DatabaseError("the name is not permitted in this context: TRUE, FALSE")
        if type == (("word", "BIT"),):
            return {(("num", "1"),): (("word", "TRUE"),), (("num", "0"),): (("word", "FALSE"),)}.get(default, default)
    prefix = PREFIXED.get(dialect, {}).get(type[0][1]) if type[0][0] == "word" else None
    if prefix is None:
        return default
    if default[0][0] == "str":
        raise DatabaseError("a literal of a text type for a date or time")
    if len(default) > 1 and default[0][0] == "word" and default[1][0] == "str":
        if default[0][1] != prefix:
            raise DatabaseError("a literal of another type")
        if prefix != "INTERVAL":
            if len(default) != 2:
                raise DatabaseError("syntax error")
            return default[1:]
        if default[2:] != (("word", "DAY"), ("word", "TO"), ("word", "SECOND")) or not default[1][1].startswith("0 "):
            raise DatabaseError("syntax error in an interval")
        return (("str", default[1][1][2:]),)
    return default


def user_type(type):
    "The schema and name of a user-defined type."

    ids = [v for k, v in type if k == "id"]
    if len(ids) == 2:
        return tuple(ids)
    if len(ids) == 1:
        return (DEFAULT, ids[0])
    return None


class Con:
    def __init__(self, kind, columns=(), ref=None, ref_columns=(), condition=None):
        self.kind = kind  # one of `primary`, `unique`, `foreign`, `check`
        self.columns = tuple(columns)
        self.ref = ref
        self.ref_columns = tuple(ref_columns)
        self.condition = condition

    def mentions(self, column):
        if self.kind == "check":
            return any(k == "id" and v == column for k, v in self.condition)
        return column in self.columns


class Tab:
    def __init__(self, id):
        self.id = id
        self.columns = {}
        self.constraints = {}
        self.defaults = {}  # names of constraints for default values, by column
        self.comment = None
        self.rows = []

    def key(self):
        for name, c in self.constraints.items():
            if c.kind == "primary":
                return c.columns
        return ()


class Typ:
    def __init__(self, id, labels=None, members=None):
        self.id = id
        self.labels = labels
        self.members = members  # name to Col
        self.comment = None


class Database:
    def __init__(self, dialect, current=None):
        self.dialect = dialect
        # the name of the schema that names without a schema refer to
        self.current = current
        self.schemas = {DEFAULT: set()} if dialect in ("mysql", "oracle") or current is not None else {}
        self.tables = {}
        self.types = {}
        self.log = []
        self.key_count = {}

    # lookup

    def table(self, id):
        t = self.tables.get(id)
        if t is None:
            raise DatabaseError(f"table does not exist: {id}")
        return t

    def scope(self, id):
        if id[0] not in self.schemas:
            raise DatabaseError(f"schema does not exist: {id[0]}")

    def type(self, id):
        t = self.types.get(id)
        if t is None:
            raise DatabaseError(f"type does not exist: {id}")
        return t

    def new_name(self, id):
        "A name for a table or type."

        self.scope(id)
        if id in self.tables:
            raise DatabaseError(f"table already exists: {id}")
        if id in self.types:
            raise DatabaseError(f"type already exists: {id}")

    def new_constraint(self, table, name, kind):
        d = self.dialect
        if name in table.constraints:
            raise DatabaseError(f"constraint already exists: {name}")
        if d in PG and kind in ("primary", "unique"):
            # these constraints have an index, whose name is in the scope of the schema
            if (table.id[0], name) in self.tables:
                raise DatabaseError(f"relation already exists: {name}")
            for t in self.tables.values():
                if t.id[0] == table.id[0] and name in t.constraints and t.constraints[name].kind in ("primary", "unique"):
                    raise DatabaseError(f"relation already exists: {name}")
        if d == "mysql" and kind in ("foreign", "check"):
            for t in self.tables.values():
                if name in t.constraints and t.constraints[name].kind == kind:
                    raise DatabaseError(f"constraint already exists: {name}")
        if d in SINGLE:
            if d == "mssql" and (table.id[0], name) in self.tables:
                raise DatabaseError(f"object already exists: {name}")
            for t in list(self.tables.values()) + [table]:
                if t.id[0] == table.id[0] and (name in t.constraints or name in t.defaults.values()):
                    raise DatabaseError(f"object already exists: {name}")

    def check_type(self, type):
        id = user_type(type)
        if id is not None:
            self.type(id)

    def users_of_type(self, id):
        out = [t.id for t in self.tables.values() if any(c.user_type() == id for c in t.columns.values())]
        out += [t.id for t in self.types.values() if t.members and any(m.user_type() == id for m in t.members.values())]
        return out

    def references(self, table, columns=None):
        "Foreign keys of other tables that depend on (a key of) a table."

        out = []
        for t in self.tables.values():
            for n, c in t.constraints.items():
                if c.kind == "foreign" and c.ref == table.id and (columns is None or set(c.ref_columns) == set(columns)):
                    out.append((t, n))
        return out

    # changes

    def add_constraint(self, table, name, con):
        if con.kind == "primary" and any(c.kind == "primary" for c in table.constraints.values()):
            raise DatabaseError("table has a primary key")
        self.new_constraint(table, name, con.kind)
        for c in con.columns:
            if c not in table.columns:
                raise DatabaseError(f"column does not exist: {c}")
        if len(set(con.columns)) != len(con.columns):
            raise DatabaseError("column appears twice in constraint")
        if con.kind == "check":
            for k, v in con.condition:
                if k == "id" and v not in table.columns:
                    raise DatabaseError(f"column does not exist: {v}")
        if con.kind == "foreign":
            target = self.table(con.ref) if con.ref != table.id else table
            for c in con.ref_columns:
                if c not in target.columns:
                    raise DatabaseError(f"referenced column does not exist: {c}")
            if len(con.ref_columns) != len(con.columns):
                raise DatabaseError("number of columns and referenced columns is different")
            if not any(k.kind in ("primary", "unique") and set(k.columns) == set(con.ref_columns) for k in target.constraints.values()):
                raise DatabaseError("referenced columns are not a key")
            for row in table.rows:
                values = [row[c] for c in con.columns]
                if not any(v is None for v in values):
                    if not any(all(v == other[r] for v, r in zip(values, con.ref_columns)) for other in target.rows):
                        raise DatabaseError(f"foreign key {name} is violated")
        if con.kind in ("primary", "unique"):
            for i, row in enumerate(table.rows):
                for other in table.rows[:i]:
                    if all(row[c] is not None and other[c] is not None and row[c] == other[c] for c in con.columns):
                        raise DatabaseError(f"duplicate value in constraint {name}")
        if con.kind == "primary":
            for c in con.columns:
                table.columns[c].nullable = False
        table.constraints[name] = con

    def drop_constraint(self, table, name):
        for column, n in table.defaults.items():
            if n == name:
                del table.defaults[column]
                table.columns[column].default = None
                return
        con = table.constraints.get(name)
        if con is None:
            raise DatabaseError(f"constraint does not exist: {name}")
        if con.kind in ("primary", "unique"):
            for t, n in self.references(table, con.columns):
                if not (t is table and n == name):
                    raise DatabaseError(f"a foreign key depends on constraint {name}")
        del table.constraints[name]

    def drop_column(self, table, name):
        if name not in table.columns:
            raise DatabaseError(f"column does not exist: {name}")
        if len(table.columns) == 1 and self.dialect not in PG:
            raise DatabaseError("a table must have a column")
        d = self.dialect
        affected = [n for n, c in table.constraints.items() if c.mentions(name)]
        for n in affected:
            con = table.constraints[n]
            if d == "mssql":
                raise DatabaseError(f"constraint {n} is dependent on column {name}")
            if d == "oracle" and (len(con.columns) > 1 or con.kind == "check" and len(set(v for k, v in con.condition if k == "id")) > 1):
                raise DatabaseError(f"column {name} is referenced in a multi-column constraint")
            if d == "mysql" and con.kind in ("foreign", "check"):
                raise DatabaseError(f"column {name} is needed in constraint {n}")
            if con.kind in ("primary", "unique") and [r for r in self.references(table, con.columns)]:
                raise DatabaseError(f"a foreign key depends on constraint {n}")
            if d == "mysql":
                con.columns = tuple(c for c in con.columns if c != name)
                if not con.columns:
                    del table.constraints[n]
            else:
                del table.constraints[n]
        if name in table.defaults:
            raise DatabaseError(f"constraint {table.defaults[name]} is dependent on column {name}")
        del table.columns[name]
        for row in table.rows:
            row.pop(name, None)

    def add_column(self, table, col, default_name=None):
        if col.name in table.columns:
            raise DatabaseError(f"column already exists: {col.name}")
        self.check_type(col.type)
        if default_name is not None:
            self.new_constraint(table, default_name, "default")
            table.defaults[col.name] = default_name
        table.columns[col.name] = col
        self.fill(table, col)

    def fill(self, table, col):
        "Assigns a value in existing rows to a new column."

        for row in table.rows:
            if not col.nullable and col.default is None and not col.identity and self.dialect != "mysql":
                raise DatabaseError(f"column {col.name} has NULL values")
            if col.default is not None:
                row[col.name] = ("default", col.default)
            elif not col.nullable:
                row[col.name] = ("implicit", col.type)
            else:
                row[col.name] = None

    def drop_table(self, id, cascade=False):
        table = self.table(id)
        for t, n in self.references(table):
            if t is not table:
                if not cascade:
                    raise DatabaseError(f"foreign key {n} of {t.id} depends on table {id}")
                del t.constraints[n]
        del self.tables[id]

    def drop_type(self, id):
        self.type(id)
        users = self.users_of_type(id)
        if users:
            raise DatabaseError(f"{users[0]} depends on type {id}")
        del self.types[id]

    # execution

    def execute(self, script):
        if script is None:
            return
        for tokens in statements_of(script, self.dialect):
            Statement(self, tokens).run()


def statements_of(script, dialect):
    return split_statements(tokens_of(script, dialect))


# words that end the type or the default value of a column
_ENDS = ("NOT", "NULL", "DEFAULT", "GENERATED", "AUTO_INCREMENT", "IDENTITY", "COMMENT", "CONSTRAINT", "FOR", "DROP")


class Statement:
    def __init__(self, db, tokens):
        self.db = db
        self.dialect = db.dialect
        self.tokens = tokens
        self.pos = 0

    # reading

    def peek(self, k=0):
        return self.tokens[self.pos + k] if self.pos + k < len(self.tokens) else None

    def is_words(self, *words):
        for k, w in enumerate(words):
            t = self.peek(k)
            if t is None or t.kind != "word" or t.value != w:
                return False
        return True

    def accept(self, *words):
        if self.is_words(*words):
            self.pos += len(words)
            return True
        return False

    def expect(self, *words):
        if not self.accept(*words):
            raise DatabaseError(f"syntax error: expected {' '.join(words)} at {self.peek()}")

    def op(self, op):
        t = self.peek()
        if t is not None and t.kind == "op" and t.value == op:
            self.pos += 1
            return True
        return False

    def expect_op(self, op):
        if not self.op(op):
            raise DatabaseError(f"syntax error: expected {op} at {self.peek()}")

    def id(self):
        t = self.peek()
        if t is None or t.kind != "id":
            raise DatabaseError(f"syntax error: expected a name at {t}")
        self.pos += 1
        return t.value

    def oid(self):
        "The name of an object in a schema."

        first = self.id()
        if self.op("."):
            return (self.schema_name(first), self.id())
        return (DEFAULT, first)

    def schema_name(self, name):
        return DEFAULT if self.db.current is not None and name == self.db.current else name

    def literal(self):
        t = self.peek()
        if t is None or t.kind != "str":
            raise DatabaseError(f"syntax error: expected a literal at {t}")
        self.pos += 1
        return t.value

    def ids(self):
        self.expect_op("(")
        out = [self.id()]
        while self.op(","):
            out.append(self.id())
        self.expect_op(")")
        return out

    def end(self):
        if self.peek() is not None:
            raise DatabaseError(f"syntax error: unexpected {self.peek()}")

    def span(self, ends):
        "Reads an expression up to a comma, a closing parenthesis or a word."

        start = self.pos
        depth = 0
        while True:
            t = self.peek()
            if t is None:
                break
            if t.kind == "op" and t.value == "(":
                depth += 1
            elif t.kind == "op" and t.value == ")":
                if depth == 0:
                    break
                depth -= 1
            elif depth == 0 and t.kind == "op" and t.value == ",":
                break
            elif depth == 0 and t.kind == "word" and t.value in ends and self.pos > start:
                break
            self.pos += 1
        if self.pos == start:
            raise DatabaseError(f"syntax error: expected an expression at {self.peek()}")
        return expression(self.tokens[start : self.pos])

    def type(self):
        if self.dialect == "mysql":
            # a collation is not part of the type
            start = self.pos
            out = self.span(_ENDS + ("CHARACTER",))
            if self.accept("CHARACTER", "SET"):
                self.pos += 1
                self.expect("COLLATE")
                self.pos += 1
            return out
        return self.span(_ENDS)

    def column(self):
        "The definition of a column, and the name of the constraint for its default value."

        name = self.id()
        col = Col(name, self.type(), True)
        default_name = None
        seen = set()

        def once(what):
            if what in seen:
                raise DatabaseError(f"syntax error: {what} appears twice")
            seen.add(what)

        while True:
            if self.accept("NOT", "NULL"):
                once("NULL")
                col.nullable = False
            elif self.accept("NULL"):
                once("NULL")
            elif self.is_words("CONSTRAINT"):
                if self.dialect != "mssql":
                    raise DatabaseError("syntax error: named default value")
                self.pos += 1
                default_name = self.id()
                if not self.is_words("DEFAULT"):
                    raise DatabaseError("syntax error: expected DEFAULT")
            elif self.accept("DEFAULT"):
                once("DEFAULT")
                if self.dialect == "oracle" and "NULL" in seen:
                    raise DatabaseError("syntax error: DEFAULT must precede NOT NULL")
                col.default = self.default()
            elif self.dialect != "mssql" and self.dialect not in ("mysql", "snowflake") and self.accept("GENERATED", "BY", "DEFAULT", "AS", "IDENTITY"):
                once("IDENTITY")
                col.identity = True
                col.nullable = False
            elif self.dialect == "mysql" and self.accept("AUTO_INCREMENT"):
                once("IDENTITY")
                col.identity = True
                col.nullable = False
            elif self.dialect in ("mssql", "snowflake") and self.accept("IDENTITY"):
                once("IDENTITY")
                col.identity = True
                col.nullable = False
            elif self.dialect in ("mysql", "snowflake", "delta") and self.accept("COMMENT"):
                once("COMMENT")
                col.comment = self.literal()
            else:
                break
        col.default = fit_default(self.dialect, col.type, col.default)
        return col, default_name

    def default(self):
        return self.span(_ENDS)

    def constraint(self):
        "The definition of a constraint."

        name = self.id()
        if self.accept("PRIMARY", "KEY"):
            return name, Con("primary", self.ids())
        if self.accept("UNIQUE"):
            return name, Con("unique", self.ids())
        if self.accept("FOREIGN", "KEY"):
            columns = self.ids()
            self.expect("REFERENCES")
            ref = self.oid()
            return name, Con("foreign", columns, ref, self.ids())
        if self.accept("CHECK"):
            self.expect_op("(")
            start = self.pos
            depth = 0
            while True:
                t = self.peek()
                if t is None:
                    raise DatabaseError("syntax error: unterminated condition")
                if t.kind == "op" and t.value == "(":
                    depth += 1
                elif t.kind == "op" and t.value == ")":
                    if depth == 0:
                        break
                    depth -= 1
                self.pos += 1
            condition = expression(self.tokens[start : self.pos])
            self.expect_op(")")
            return name, Con("check", condition=condition)
        raise DatabaseError(f"syntax error: expected a constraint at {self.peek()}")

    # statements

    def run(self):
        db = self.db
        if self.accept("CREATE"):
            if self.accept("SCHEMA"):
                self.create_schema()
            elif self.accept("TYPE"):
                self.create_type()
            elif self.accept("TABLE"):
                self.create_table()
            else:
                raise DatabaseError(f"syntax error: CREATE {self.peek()}")
        elif self.accept("DROP"):
            if self.accept("SCHEMA"):
                self.drop_schema()
            elif self.accept("TYPE"):
                id = self.oid()
                self.end()
                db.drop_type(id)
                db.log.append(("drop type", id))
            elif self.accept("TABLE"):
                optional = self.accept("IF", "EXISTS")
                ids = [self.oid()]
                while self.dialect != "oracle" and self.op(","):
                    ids.append(self.oid())
                cascade = False
                if self.dialect == "oracle":
                    cascade = self.accept("CASCADE", "CONSTRAINTS")
                    self.accept("PURGE")
                self.end()
                if self.dialect in ("postgresql", "mysql"):
                    # tables may refer to those that are dropped by the same statement
                    for id in ids:
                        for t, _ in db.references(db.tables[id]) if id in db.tables else []:
                            if t.id not in ids:
                                raise DatabaseError(f"a foreign key of {t.id} depends on table {id}")
                    cascade = True
                for id in ids:
                    if not optional or id in db.tables:
                        db.drop_table(id, cascade)
                        db.log.append(("drop table", id))
            else:
                raise DatabaseError(f"syntax error: DROP {self.peek()}")
        elif self.accept("ALTER"):
            if self.accept("TYPE"):
                self.alter_type()
            else:
                self.expect("TABLE")
                self.alter_table()
        elif self.accept("COMMENT", "ON"):
            self.comment()
        elif self.dialect == "mssql" and self.accept("IF", "NOT", "EXISTS"):
            # creation of a schema
            self.expect_op("(")
            while not self.op(")"):
                t = self.peek()
                self.pos += 1
            self.expect("EXEC")
            self.expect_op("(")
            inner = self.literal()
            self.expect_op(")")
            self.end()
            nested = Statement(db, tokens_of(inner, self.dialect))
            nested.expect("CREATE", "SCHEMA")
            name = nested.id()
            nested.end()
            db.schemas.setdefault(name, set())
        elif self.accept("INSERT", "INTO"):
            self.insert()
        elif self.accept("UPDATE"):
            self.update()
        else:
            raise DatabaseError(f"syntax error: {self.peek()}")

    def create_schema(self):
        db = self.db
        if self.dialect in ("mysql", "oracle"):
            raise DatabaseError("schemas are not supported")
        optional = self.accept("IF", "NOT", "EXISTS")
        name = self.schema_name(self.id())
        self.end()
        if name in db.schemas:
            if not optional:
                raise DatabaseError(f"schema already exists: {name}")
            return
        db.schemas[name] = set()

    def drop_schema(self):
        db = self.db
        optional = self.accept("IF", "EXISTS")
        name = self.schema_name(self.id())
        cascade = self.accept("CASCADE")
        self.end()
        if name not in db.schemas:
            if optional:
                return
            raise DatabaseError(f"schema does not exist: {name}")
        tables = [id for id in db.tables if id[0] == name]
        types = [id for id in db.types if id[0] == name]
        if (tables or types) and not cascade:
            raise DatabaseError(f"schema is not empty: {name}")
        db.log.append(("drop schema", name))
        for id in tables:
            db.log.append(("drop table", id))
            db.drop_table(id, cascade=True)
        for id in types:
            db.log.append(("drop type", id))
            for t in list(db.tables.values()):
                for c in [c.name for c in t.columns.values() if c.user_type() == id]:
                    db.log.append(("drop column", t.id, c))
                    db.drop_column(t, c)
            del db.types[id]
        del db.schemas[name]

    def create_type(self):
        db = self.db
        if self.dialect != "postgresql":
            raise DatabaseError("user-defined types are not supported")
        id = self.oid()
        self.expect("AS")
        db.new_name(id)
        if self.accept("ENUM"):
            self.expect_op("(")
            labels = []
            if not self.op(")"):
                labels.append(self.literal())
                while self.op(","):
                    labels.append(self.literal())
                self.expect_op(")")
            self.end()
            for i, v in enumerate(labels):
                for w in labels[:i]:
                    if v == w:
                        raise DatabaseError("label appears twice")
            db.types[id] = Typ(id, labels=labels)
        else:
            self.expect_op("(")
            members = {}
            while True:
                name = self.id()
                if name in members:
                    raise DatabaseError(f"attribute appears twice: {name}")
                col = Col(name, self.type(), True)
                db.check_type(col.type)
                members[name] = col
                if not self.op(","):
                    break
            self.expect_op(")")
            self.end()
            db.types[id] = Typ(id, members=members)

    def create_table(self):
        db = self.db
        id = self.oid()
        db.new_name(id)
        table = Tab(id)
        constraints = []
        self.expect_op("(")
        while True:
            if self.accept("CONSTRAINT"):
                constraints.append(self.constraint())
            else:
                col, default_name = self.column()
                db.add_column(table, col, default_name)
            if not self.op(","):
                break
        self.expect_op(")")
        if self.dialect in ("mysql", "snowflake") and self.accept("COMMENT"):
            self.expect_op("=")
            table.comment = self.literal()
        elif self.dialect == "delta" and self.accept("COMMENT"):
            table.comment = self.literal()
        self.end()
        if not table.columns:
            raise DatabaseError("table has no columns")
        for name, con in constraints:
            db.add_constraint(table, name, con)
        db.tables[id] = table

    def comment(self):
        db = self.db
        if self.dialect in ("mysql", "mssql", "oracle"):
            raise DatabaseError("syntax error: COMMENT")
        if self.accept("TABLE"):
            owner = db.table(self.oid())
        elif self.accept("TYPE"):
            owner = db.type(self.oid())
        elif self.accept("COLUMN"):
            parts = [self.id()]
            while self.op("."):
                parts.append(self.id())
            id = (self.schema_name(parts[0]), parts[1]) if len(parts) == 3 else (DEFAULT, parts[0])
            if id in db.tables:
                columns = db.table(id).columns
            else:
                columns = db.type(id).members
            owner = (columns or {}).get(parts[-1])
            if owner is None:
                raise DatabaseError(f"column does not exist: {parts}")
        else:
            raise DatabaseError(f"syntax error: {self.peek()}")
        self.expect("IS")
        owner.comment = None if self.accept("NULL") else self.literal()
        self.end()

    def alter_type(self):
        db = self.db
        if self.dialect != "postgresql":
            raise DatabaseError("user-defined types are not supported")
        t = db.type(self.oid())
        if self.accept("RENAME", "TO"):
            id = (t.id[0], self.id())
            self.end()
            db.new_name(id)
            old = t.id
            del db.types[old]
            t.id = id
            db.types[id] = t
            rename = tuple(("id", v) if v != old[1] else ("id", id[1]) for v in old)
            for table in db.tables.values():
                for c in table.columns.values():
                    if c.user_type() == old:
                        c.type = tuple((k, id[1]) if k == "id" and v == old[1] else (k, v) for k, v in c.type)
            for s in db.types.values():
                for c in (s.members or {}).values():
                    if c.user_type() == old:
                        c.type = tuple((k, id[1]) if k == "id" and v == old[1] else (k, v) for k, v in c.type)
            return
        if self.accept("ADD", "VALUE"):
            if t.labels is None:
                raise DatabaseError("not an enumeration")
            label = self.literal()
            self.end()
            for v in t.labels:
                if v == label:
                    raise DatabaseError("label already exists")
            t.labels.append(label)
            return
        if t.members is None:
            raise DatabaseError("not a composite type")
        while True:
            if self.accept("DROP", "ATTRIBUTE"):
                name = self.id()
                if name not in t.members:
                    raise DatabaseError(f"attribute does not exist: {name}")
                del t.members[name]
                db.log.append(("drop attribute", t.id, name))
            elif self.accept("ALTER", "ATTRIBUTE"):
                name = self.id()
                if name not in t.members:
                    raise DatabaseError(f"attribute does not exist: {name}")
                self.expect("SET", "DATA", "TYPE")
                type = self.type()
                db.check_type(type)
                users = db.users_of_type(t.id)
                if users:
                    raise DatabaseError(f"cannot alter type because {users[0]} uses it")
                t.members[name].type = type
            elif self.accept("ADD", "ATTRIBUTE"):
                name = self.id()
                if name in t.members:
                    raise DatabaseError(f"attribute already exists: {name}")
                col = Col(name, self.type(), True)
                db.check_type(col.type)
                t.members[name] = col
            else:
                raise DatabaseError(f"syntax error: {self.peek()}")
            if not self.op(","):
                break
        self.end()

    # changes to tables

    def alter_table(self):
        db = self.db
        table = db.table(self.oid())
        d = self.dialect
        if d == "mysql" and self.accept("COMMENT"):
            self.expect_op("=")
            text = self.literal()
            self.end()
            table.comment = text
            return
        actions = []
        previous = None
        while True:
            previous = self.action(table, actions, previous)
            if not self.op(","):
                break
        self.end()
        if d in SINGLE and len(actions) > 1 and not (d == "mssql" and len({a[1] for a in actions}) == 1):
            raise DatabaseError("syntax error: several actions in a statement")
        if d in PG:
            actions.sort(key=lambda a: a[0])
        elif d == "mysql":
            actions.sort(key=lambda a: MYSQL_ORDER.index(a[1]))
        for _, kind, run in actions:
            run()

    def action(self, table, actions, previous):
        "Reads an action; its rank is that of the pass in which PostgreSQL executes it."

        db = self.db
        d = self.dialect
        drop, alter_type, add_column, add_key, attributes, other = range(6)

        if d == "mssql" and previous == "ADD" and self.accept("CONSTRAINT") or self.accept("ADD", "CONSTRAINT"):
            if self.peek(1) is not None and self.peek(1).kind == "word" and self.peek(1).value == "DEFAULT" and d == "mssql":
                name = self.id()
                self.expect("DEFAULT")
                default = self.default()
                self.expect("FOR")
                column = self.id()

                def run():
                    col = self.existing(table, column)
                    if column in table.defaults:
                        raise DatabaseError(f"column has a default value: {column}")
                    db.new_constraint(table, name, "default")
                    table.defaults[column] = name
                    col.default = fit_default(self.dialect, col.type, default)

                actions.append((other, "add", run))
                return "ADD"
            name, con = self.constraint()
            rank = add_key if con.kind in ("primary", "unique") else other
            actions.append((rank, "add constraint", lambda: db.add_constraint(table, name, con)))
            return "ADD"

        if self.accept("DROP", "CONSTRAINT") or d == "mssql" and previous == "DROP" and self.accept("CONSTRAINT"):
            name = self.id()
            actions.append((drop, "drop constraint" if d != "mssql" else "drop", lambda: self.drop_constraint(table, name)))
            return "DROP"

        if self.accept("DROP", "COLUMN") or d == "mssql" and previous == "DROP" and self.accept("COLUMN"):
            name = self.id()

            def run():
                db.drop_column(table, name)
                db.log.append(("drop column", table.id, name))

            actions.append((drop, "drop column" if d != "mssql" else "drop", run))
            return "DROP"

        if self.is_words("ADD"):
            if d in ("mssql", "oracle"):
                self.expect("ADD")
                if self.is_words("COLUMN"):
                    raise DatabaseError("syntax error: ADD COLUMN")
            else:
                self.expect("ADD", "COLUMN")
            col, default_name = self.column()
            if d in PG:
                actions.append((add_column, "add column", lambda: db.add_column(table, col, default_name)))
            else:
                actions.append((0, "add column", lambda: db.add_column(table, col, default_name)))
            return None

        if d not in ("mysql", "mssql") and self.accept("RENAME", "COLUMN"):
            name = self.id()
            self.expect("TO")
            new = self.id()
            actions.append((drop, "rename", lambda: self.rename(table, name, new)))
            return None

        if d == "mysql" and self.accept("CHANGE"):
            name = self.id()
            col, _ = self.column()

            def change():
                self.existing(table, name)
                if col.name != name:
                    self.rename(table, name, col.name)
                self.redefine(table, col)

            actions.append((0, "change", change))
            return None

        if d == "mysql" and self.accept("MODIFY", "COLUMN"):
            col, _ = self.column()
            actions.append((0, "change", lambda: self.redefine(table, col)))
            return None

        if d == "oracle" and self.accept("MODIFY"):
            self.modify(table, actions)
            return None

        if d == "mssql" and self.accept("ALTER", "COLUMN"):
            col, default_name = self.column()
            if default_name is not None or col.default is not None or col.identity:
                raise DatabaseError("syntax error: default value or identity")

            def retype():
                old = self.existing(table, col.name)
                if old.type != col.type:
                    for n, c in table.constraints.items():
                        if c.mentions(col.name):
                            raise DatabaseError(f"constraint {n} is dependent on column {col.name}")
                    for t, n in db.references(table):
                        if col.name in t.constraints[n].ref_columns:
                            raise DatabaseError(f"constraint {n} is dependent on column {col.name}")
                    if col.name in table.defaults and not same_base(old.type, col.type):
                        raise DatabaseError(f"constraint {table.defaults[col.name]} is dependent on column {col.name}")
                if col.nullable and col.name in table.key():
                    raise DatabaseError("column is part of the primary key")
                self.not_null(table, col)
                old.type = col.type
                old.nullable = col.nullable

            actions.append((0, "alter", retype))
            return None

        self.expect("ALTER", "COLUMN")
        name = self.id()
        if self.accept("SET", "DATA", "TYPE"):
            type = self.type()

            def set_type():
                col = self.existing(table, name)
                db.check_type(type)
                self.check_cast(table, col, type)
                col.type = type

            actions.append((alter_type, "alter", set_type))
        elif self.accept("SET", "NOT", "NULL"):

            def set_not_null():
                col = self.existing(table, name)
                new = col.copy()
                new.nullable = False
                self.not_null(table, new)
                col.nullable = False

            actions.append((attributes, "alter", set_not_null))
        elif self.accept("DROP", "NOT", "NULL"):

            def drop_not_null():
                col = self.existing(table, name)
                if name in table.key():
                    raise DatabaseError(f"column is part of the primary key: {name}")
                if col.identity:
                    raise DatabaseError(f"column is an identity column: {name}")
                col.nullable = True

            actions.append((drop, "alter", drop_not_null))
        elif self.accept("SET", "DEFAULT"):
            default = self.default()

            def set_default():
                col = self.existing(table, name)
                if col.identity:
                    raise DatabaseError(f"column is an identity column: {name}")
                col.default = fit_default(self.dialect, col.type, default)

            actions.append((other, "alter", set_default))
        elif self.accept("DROP", "DEFAULT"):

            def drop_default():
                col = self.existing(table, name)
                if col.identity:
                    raise DatabaseError(f"column is an identity column: {name}")
                col.default = None

            actions.append((drop, "alter", drop_default))
        elif self.accept("ADD", "GENERATED", "BY", "DEFAULT", "AS", "IDENTITY"):

            def add_identity():
                col = self.existing(table, name)
                if col.nullable or col.default is not None or col.identity:
                    raise DatabaseError(f"column cannot be an identity column: {name}")
                col.identity = True

            actions.append((other, "alter", add_identity))
        elif self.accept("DROP", "IDENTITY"):

            def drop_identity():
                col = self.existing(table, name)
                if not col.identity:
                    raise DatabaseError(f"column is not an identity column: {name}")
                col.identity = False

            actions.append((drop, "alter", drop_identity))
        else:
            raise DatabaseError(f"syntax error: {self.peek()}")
        return None

    def modify(self, table, actions):
        "Changes a column (Oracle)."

        name = self.id()
        t = self.peek()
        type = None
        if t is not None and not (t.kind == "word" and t.value in _ENDS):
            type = self.type()
        changes = {}
        if self.accept("DEFAULT"):
            changes["default"] = self.default()
        elif self.accept("GENERATED", "BY", "DEFAULT", "AS", "IDENTITY"):
            changes["identity"] = True
        elif self.accept("DROP", "IDENTITY"):
            changes["identity"] = False
        if self.accept("NOT", "NULL"):
            changes["nullable"] = False
        elif self.accept("NULL"):
            changes["nullable"] = True

        def run():
            col = self.existing(table, name)
            if type is not None:
                self.check_cast(table, col, type)
                col.type = type
            if "default" in changes:
                if col.identity:
                    raise DatabaseError("column is an identity column")
                col.default = None if changes["default"] == (("word", "NULL"),) else fit_default(self.dialect, col.type, changes["default"])
            if "identity" in changes:
                if not col.identity:
                    raise DatabaseError("column is not an identity column")
                if not changes["identity"]:
                    col.identity = False
            if "nullable" in changes:
                if changes["nullable"] == col.nullable:
                    raise DatabaseError("column is (not) NULL already")
                if changes["nullable"] and (name in table.key() or col.identity):
                    raise DatabaseError("column is part of the primary key or an identity column")
                new = col.copy()
                new.nullable = changes["nullable"]
                self.not_null(table, new)
                col.nullable = changes["nullable"]

        actions.append((0, "alter", run))

    def existing(self, table, name):
        col = table.columns.get(name)
        if col is None:
            raise DatabaseError(f"column does not exist: {name}")
        return col

    def drop_constraint(self, table, name):
        if self.dialect == "mysql" and name in table.constraints and table.constraints[name].kind == "primary":
            raise DatabaseError("the primary key is not dropped by name")
        self.db.drop_constraint(table, name)
        self.db.log.append(("drop constraint", table.id, name))

    def not_null(self, table, col):
        if not col.nullable:
            for row in table.rows:
                if row.get(col.name) is None:
                    raise DatabaseError(f"column {col.name} has NULL values")

    def check_cast(self, table, col, type):
        "Whether the database can convert the values of a column."

        if col.type == type:
            return
        for row in table.rows:
            if col.name in row and row[col.name] is not None and (user_type(type) is not None) != (user_type(col.type) is not None):
                raise DatabaseError("column cannot be cast")

    def redefine(self, table, col):
        "Replaces the definition of a column (MySQL)."

        old = self.existing(table, col.name)
        self.not_null(table, col)
        if col.name in table.key():
            col.nullable = False
        table.columns[col.name] = col

    def rename(self, table, name, new):
        db = self.db
        col = self.existing(table, name)
        if new in table.columns:
            raise DatabaseError(f"column already exists: {new}")
        columns = {}
        for n, c in table.columns.items():
            columns[new if n == name else n] = c
        col.name = new
        table.columns = columns
        for c in table.constraints.values():
            c.columns = tuple(new if n == name else n for n in c.columns)
            if c.kind == "check":
                c.condition = tuple((k, new) if k == "id" and v == name else (k, v) for k, v in c.condition)
        for t, n in db.references(table):
            c = t.constraints[n]
            c.ref_columns = tuple(new if r == name else r for r in c.ref_columns)
        if name in table.defaults:
            table.defaults[new] = table.defaults.pop(name)
        for row in table.rows:
            if name in row:
                row[new] = row.pop(name)

    # rows

    def insert(self):
        db = self.db
        table = db.table(self.oid())
        columns = self.ids()
        for c in columns:
            self.existing(table, c)
        ignore = False
        if self.accept("VALUES"):
            records = []
            while True:
                self.expect_op("(")
                record = [self.value()]
                while self.op(","):
                    record.append(self.value())
                self.expect_op(")")
                records.append(record)
                if not self.op(","):
                    break
        else:
            self.expect("SELECT", "DISTINCT")
            column = self.id()
            if self.dialect in PG and self.op(":"):
                self.expect_op(":")
                self.expect("VARCHAR")
                cast = True
            else:
                cast = False
            self.expect("FROM")
            source = db.table(self.oid())
            if self.existing(source, column).user_type() is not None and not cast:
                raise DatabaseError("column has another type")
            present = False
            if self.accept("WHERE"):
                if self.id() != column:
                    raise DatabaseError("syntax error: condition")
                self.expect("IS", "NOT", "NULL")
                present = True
            records = []
            for row in source.rows:
                v = row.get(column)
                if present and v is None:
                    continue
                if not any((v is None and r[0] is None) or (v is not None and r[0] is not None and v == r[0]) for r in records):
                    records.append([v])
        keys = None
        if self.dialect in PG and self.accept("ON", "CONFLICT"):
            keys = tuple(self.ids())
            self.expect("DO", "NOTHING")
            if not any(c.kind in ("primary", "unique") and set(c.columns) == set(keys) for c in table.constraints.values()):
                raise DatabaseError("no unique constraint matches")
        elif self.dialect == "mysql" and self.accept("ON", "DUPLICATE", "KEY", "UPDATE"):
            name = self.id()
            self.expect_op("=")
            if self.id() != name:
                raise DatabaseError("syntax error: unexpected value")
            keys = ()
        self.end()
        for record in records:
            if len(record) != len(columns):
                raise DatabaseError("number of values is different")
            self.insert_row(table, dict(zip(columns, record)), keys)

    def value(self):
        if self.accept("NULL"):
            return None
        t = self.peek()
        if t is not None and t.kind == "str":
            return self.literal()
        return self.span(())

    def insert_row(self, table, values, keys):
        db = self.db
        row = {}
        for c in table.columns.values():
            if c.name in values:
                row[c.name] = values[c.name]
            elif c.identity:
                # a number that is consumed even if no row is inserted
                db.key_count[table.id] = db.key_count.get(table.id, max([r[c.name] for r in table.rows if isinstance(r[c.name], int)] or [0])) + 1
                row[c.name] = db.key_count[table.id]
            elif c.default is not None:
                row[c.name] = ("default", c.default)
            else:
                row[c.name] = None
            if row[c.name] is None and not c.nullable:
                raise DatabaseError(f"column {c.name} cannot be NULL")
        for n, con in table.constraints.items():
            if con.kind not in ("primary", "unique"):
                continue
            for old in table.rows:
                if all(old[c] is not None and row[c] is not None and old[c] == row[c] for c in con.columns):
                    if keys is None or (keys and set(keys) != set(con.columns)):
                        raise DatabaseError(f"duplicate value in constraint {n}")
                    return
        table.rows.append(row)

    def update(self):
        "Translates labels to the keys of a lookup table."

        db = self.db
        table = db.table(self.oid())
        data = self.word()
        if self.dialect in PG:
            self.expect("SET")
            column = self.id()
            self.expect_op("=")
            lookup = self.word()
            self.expect_op(".")
            key = self.id()
            self.expect("FROM")
            target = db.table(self.oid())
            if self.word() != lookup:
                raise DatabaseError("unknown alias")
            self.expect("WHERE")
            left = self.qualified(data)
            if self.op(":"):
                self.expect_op(":")
                self.expect("VARCHAR")
            elif self.existing(table, left).user_type() is not None:
                raise DatabaseError("no operator compares an enumeration with a text")
            self.expect_op("=")
            right = self.qualified(lookup)
        elif self.dialect == "mysql":
            self.expect("JOIN")
            target = db.table(self.oid())
            lookup = self.word()
            self.expect("ON")
            left = self.qualified(data)
            self.expect_op("=")
            right = self.qualified(lookup)
            self.expect("SET")
            column = self.qualified(data)
            self.expect_op("=")
            key = self.qualified(lookup)
        else:
            raise DatabaseError("syntax error: UPDATE")
        self.end()
        self.existing(table, column)
        self.existing(table, left)
        self.existing(target, key)
        self.existing(target, right)
        for row in table.rows:
            v = row[left]
            if v is None:
                continue
            for other in target.rows:
                if other[right] is not None and other[right] == v:
                    row[column] = other[key]
                    break

    def word(self):
        t = self.peek()
        if t is None or t.kind != "word":
            raise DatabaseError(f"syntax error: {t}")
        self.pos += 1
        return t.value

    def qualified(self, alias):
        if self.word() != alias:
            raise DatabaseError("unknown alias")
        self.expect_op(".")
        return self.id()


MYSQL_ORDER = ["drop constraint", "drop column", "change", "rename", "alter", "add column", "add constraint"]


def same_base(a, b):
    "Whether two types are different only in length, precision or scale."

    return [v for k, v in a if k == "word"] == [v for k, v in b if k == "word"]
