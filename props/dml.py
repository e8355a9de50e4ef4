"A reference interpreter of the statements that insert, update and delete rows."

from .sql import tokenize


class DMLError(Exception):
    "The statement is not one that the dialect accepts."


class Statement:
    def __init__(self):
        self.kind = None  # one of `insert`, `merge` and `delete`
        self.table = None
        self.columns = []  # columns that parameters are assigned to
        self.params = []  # for each column, the index of the parameter
        self.conflict = None  # `None`, `ignore` or `update`
        self.conflict_keys = None
        self.match = []  # columns that identify a row
        self.update = None  # column to the source column
        self.insert = None  # column to the source column


class Reader:
    def __init__(self, text, dialect):
        if dialect == "mysql":
            text = substitute(text)
        self.tokens = tokenize(text, dialect)
        self.dialect = dialect
        self.pos = 0
        self.count = 0

    def peek(self, k=0):
        return self.tokens[self.pos + k] if self.pos + k < len(self.tokens) else None

    def is_word(self, *words):
        for k, w in enumerate(words):
            t = self.peek(k)
            if t is None or t.kind != "word" or t.value != w:
                return False
        return True

    def accept(self, *words):
        if self.is_word(*words):
            self.pos += len(words)
            return True
        return False

    def expect(self, *words):
        if not self.accept(*words):
            raise DMLError(f"expected: {' '.join(words)}")

    def is_op(self, op):
        t = self.peek()
        return t is not None and t.kind == "op" and t.value == op

    def accept_op(self, op):
        if self.is_op(op):
            self.pos += 1
            return True
        return False

    def expect_op(self, op):
        if not self.accept_op(op):
            raise DMLError(f"expected: {op}")

    def id(self):
        t = self.peek()
        if t is None or t.kind != "id":
            raise DMLError("expected: name")
        self.pos += 1
        return t.value

    def table(self):
        parts = [self.id()]
        while self.accept_op("."):
            parts.append(self.id())
        return tuple(parts)

    def alias(self, name):
        self.expect(name)

    def param(self):
        "The index of the parameter that a placeholder stands for."

        t = self.peek()
        if t is None:
            raise DMLError("expected: parameter")
        if self.dialect == "postgresql":
            if t.kind != "word" or t.value[0] != "$":
                raise DMLError("expected: $n")
            self.pos += 1
            return int(t.value[1:]) - 1
        if self.dialect == "mysql":
            if t.kind != "word" or t.value != PARAM:
                raise DMLError("expected: %s")
            self.pos += 1
            self.count += 1
            return self.count - 1
        if self.dialect == "mssql":
            self.expect_op("?")
            self.count += 1
            return self.count - 1
        self.expect_op(":")
        t = self.peek()
        if t is None or t.kind != "num":
            raise DMLError("expected: :n")
        self.pos += 1
        if self.dialect == "oracle":
            # parameters given as a sequence are bound in order of appearance
            self.count += 1
            return self.count - 1
        return int(t.value) - 1

    def listed(self, item):
        self.expect_op("(")
        items = [item()]
        while self.accept_op(","):
            items.append(item())
        self.expect_op(")")
        return items

    def qualified(self, alias):
        self.expect(alias)
        self.expect_op(".")
        return self.id()

    def end(self):
        self.accept_op(";")
        if self.peek() is not None:
            raise DMLError("unexpected text after statement")


# a word that takes the place of a parameter once the driver has formatted the statement
PARAM = "NPARAMETER"


def substitute(text):
    """
    Formats a statement with parameters as the driver of MySQL does.

    With `executemany`, the part before the list of values is formatted without arguments, whereas the part after it is
    not formatted.
    """

    upper = text.lstrip()[:6].upper()
    if upper == "INSERT":
        pos = text.find(" VALUES (")
        if pos < 0:
            raise DMLError("expected: VALUES")
        end = text.find(")", pos)
        return percent(text[:pos]) + percent(text[pos:end]) + text[end:]
    return percent(text)


def percent(text):
    chars = list(text)
    result = []
    pos = 0
    while pos < len(chars):
        ch = chars[pos]
        if ch == "%":
            if pos + 1 >= len(chars):
                raise DMLError("incomplete format")
            follow = chars[pos + 1]
            if follow == "%":
                result.append("%")
            elif follow == "s":
                result.append(f" {PARAM} ")
            else:
                raise DMLError("unsupported format character")
            pos += 2
        else:
            result.append(ch)
            pos += 1
    return "".join(result)


def parse(text, dialect):
    r = Reader(text, dialect)
    s = Statement()
    if r.accept("DELETE", "FROM"):
        s.kind = "delete"
        s.table = r.table()
        r.expect("WHERE")
        s.match = [r.id()]
        r.expect_op("=")
        s.params = [r.param()]
        r.end()
    elif r.accept("INSERT", "INTO"):
        s.kind = "insert"
        s.table = r.table()
        s.columns = r.listed(r.id)
        r.expect("VALUES")
        s.params = r.listed(r.param)
        if len(s.columns) != len(s.params):
            raise DMLError("each column has a value")
        if dialect == "postgresql" and r.accept("ON", "CONFLICT"):
            if r.is_op("("):
                s.conflict_keys = r.listed(r.id)
            r.expect("DO")
            if r.accept("NOTHING"):
                s.conflict = "ignore"
            else:
                r.expect("UPDATE", "SET")
                if s.conflict_keys is None:
                    raise DMLError("a conflict target is required")
                s.conflict = "update"
                s.update = {}
                while True:
                    name = r.id()
                    r.expect_op("=")
                    s.update[name] = r.qualified("EXCLUDED")
                    if not r.accept_op(","):
                        break
        elif dialect == "mysql" and r.accept("ON", "DUPLICATE", "KEY", "UPDATE"):
            s.conflict = "update"
            s.update = {}
            while True:
                name = r.id()
                r.expect_op("=")
                if r.accept("VALUES"):
                    r.expect_op("(")
                    s.update[name] = r.id()
                    r.expect_op(")")
                else:
                    if r.id() != name:
                        raise DMLError("unsupported assignment")
                if not r.accept_op(","):
                    break
        r.end()
    else:
        r.expect("MERGE", "INTO")
        if dialect in ("postgresql", "mysql"):
            raise DMLError("MERGE is not used in the dialect")
        s.kind = "merge"
        s.table = r.table()
        r.expect("TARGET")
        r.expect("USING")
        r.expect_op("(")
        r.expect("VALUES")
        s.params = r.listed(r.param)
        r.expect_op(")")
        r.expect("SOURCE")
        s.columns = r.listed(r.id)
        if len(s.columns) != len(s.params):
            raise DMLError("each column has a value")
        r.expect("ON")
        r.expect_op("(")
        while True:
            if r.peek() is not None and r.peek().kind == "num":
                # a condition that is always false
                if r.peek().value != "1":
                    raise DMLError("unsupported condition")
                r.pos += 1
                r.expect_op("=")
                if r.peek() is None or r.peek().value != "0":
                    raise DMLError("unsupported condition")
                r.pos += 1
            else:
                name = r.qualified("TARGET")
                r.expect_op("=")
                s.match.append((name, r.qualified("SOURCE")))
            if not r.accept("OR"):
                break
        r.expect_op(")")
        if r.accept("WHEN", "MATCHED", "THEN"):
            r.expect("UPDATE", "SET")
            s.update = {}
            while True:
                name = r.qualified("TARGET")
                r.expect_op("=")
                s.update[name] = r.qualified("SOURCE")
                if not r.accept_op(","):
                    break
        if r.accept("WHEN", "NOT", "MATCHED", "THEN"):
            r.expect("INSERT")
            names = r.listed(r.id)
            r.expect("VALUES")
            values = r.listed(lambda: r.qualified("SOURCE"))
            if len(names) != len(values):
                raise DMLError("each column has a value")
            s.insert = dict(zip(names, values))
        if dialect == "mssql" and not r.is_op(";"):
            raise DMLError("MERGE is terminated by a semicolon")
        r.end()
        if dialect == "oracle" and s.update is not None:
            for name in s.update:
                if name in [m for m, _ in s.match]:
                    raise DMLError("columns in the ON clause cannot be updated")
    if len(set(s.columns)) != len(s.columns):
        raise DMLError("a column is listed twice")
    return s


class Generated:
    "A value that is assigned by the database."

    def __repr__(self):
        return "<generated>"


class Default:
    "The value of a column to which none is assigned, other than NULL."

    def __repr__(self):
        return "<default>"


class Store:
    "A table with rows."

    def __init__(self, name, columns, key, unique=(), identity=(), rows=()):
        self.name = name  # as referred to in statements
        self.columns = list(columns)
        self.key = list(key)
        self.unique = [list(u) for u in unique]
        self.identity = list(identity)
        self.rows = [dict(r) for r in rows]

    def conflicts(self, S, row, columns):
        "Indices of rows that have the same values in all of a list of columns."

        found = []
        for i, r in enumerate(self.rows):
            same = True
            for c in columns:
                if not equal(r[c], row[c]):
                    same = False
                    break
            if same:
                found.append(i)
        return found

    def add(self, row):
        new = {}
        for c in self.columns:
            if c in row:
                new[c] = row[c]
            elif c in self.identity:
                new[c] = Generated()
            else:
                new[c] = None
        self.rows.append(new)

    def run(self, S, statement, dialect, record):
        s = statement
        if s.table != self.name:
            raise DMLError("another table")
        for c in list(s.columns) + list(s.update or []) + list(s.insert or []):
            if c not in self.columns:
                raise DMLError("no such column")
        if sorted(s.params) != list(range(len(record))):
            raise DMLError("each value of a record is bound to exactly one parameter")
        if s.kind == "delete":
            column = s.match[0]
            if column not in self.columns:
                raise DMLError("no such column")
            value = record[s.params[0]]
            self.rows = [r for r in self.rows if not equal(r[column], value)]
            return
        source = {c: record[p] for c, p in zip(s.columns, s.params)}
        if s.kind == "insert":
            row = {}
            for c in self.columns:
                row[c] = source[c] if c in source else (Generated() if c in self.identity else None)
            keys = [self.key] + self.unique
            if s.conflict_keys is not None and not any(sorted(k) == sorted(s.conflict_keys) for k in keys):
                raise DMLError("conflict target is not a key")
            # with PostgreSQL, conflicts on other keys than the conflict target are errors
            arbiters = [s.conflict_keys] if s.conflict_keys is not None else keys
            if s.conflict is not None:
                for k in arbiters:
                    found = self.conflicts(S, row, k)
                    if found:
                        if s.conflict == "update":
                            self.assign(found[0], s.update, row)
                        return
            for k in keys:
                if self.conflicts(S, row, k):
                    raise DMLError("duplicate key")
            self.rows.append(row)
            return
        found = []
        for i, r in enumerate(self.rows):
            for t, c in s.match:
                if equal(r[t], source[c]):
                    found.append(i)
                    break
        if len(found) > 1 and s.update is not None:
            raise DMLError("several rows match")
        if found:
            if s.update is not None:
                self.assign(found[0], s.update, source)
        elif s.insert is not None:
            row = {c: source[v] for c, v in s.insert.items()}
            full = {c: row.get(c) for c in self.columns}
            for k in [self.key] + self.unique:
                if not any(c in self.identity for c in k) and self.conflicts(S, full, k):
                    raise DMLError("duplicate key")
            self.add(row)

    def assign(self, index, update, source):
        for c, v in update.items():
            self.rows[index][c] = source[v]


def equal(a, b):
    "Equality in a condition, where NULL equals nothing."

    if a is None or b is None or isinstance(a, Generated) or isinstance(b, Generated):
        return False
    return a == b
