"Stand-ins for the connections of database drivers, as far as the loading of data is concerned."

import asyncio

from pysqlsync.base import GeneratorOptions
from pysqlsync.connection import ConnectionParameters

from .common import _context_type, engine
from .dml import DMLError, parse
from .sql import tokenize


class Load:
    "A call to the driver with several records."

    def __init__(self, statement, records, types=None, table=None, columns=None):
        self.statement = statement
        self.records = [tuple(r) for r in records]
        self.types = types
        self.table = table  # when loaded without a statement
        self.columns = columns


class Var:
    "A variable of the driver of Oracle."

    def __init__(self, typ, size):
        self.type = typ
        self.size = size


def is_query(statement):
    return statement.lstrip()[:6].upper() == "SELECT"


class Cursor:
    lists = False

    def __init__(self, log, answer=None):
        self.log = log
        self.answer = answer
        self.rows = []
        self.types = None
        self.fast_executemany = False
        self.arraysize = 100

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False

    def close(self):
        pass

    def setinputsizes(self, *sizes, **kwargs):
        # drivers take either a list or a sequence of arguments
        if len(sizes) == 1 and isinstance(sizes[0], (list, tuple)):
            sizes = sizes[0]
        self.types = list(sizes)

    def var(self, typ, size=0, *args, **kwargs):
        return Var(typ, size)

    def executemany(self, statement, records, *args, **kwargs):
        self.log.append(Load(statement, records, self.types))

    def execute(self, statement, *args, stream=None, **kwargs):
        if stream is not None:
            self.log.append(read_stream(statement, stream))
        elif self.answer is not None and is_query(statement):
            self.rows = [list(r) if self.lists else tuple(r) for r in self.answer(statement)]
        else:
            self.log.append(statement)
        return self

    def fetchall(self):
        rows = self.rows
        self.rows = []
        return rows

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def __iter__(self):
        return iter(self.fetchall())


class ListCursor(Cursor):
    "Rows are lists of values."

    lists = True


class AsyncCursor:
    def __init__(self, log, answer=None):
        self.cursor = Cursor(log, answer)

    def __await__(self):
        async def get():
            return self

        return get().__await__()

    async def __aenter__(self):
        return self

    async def __aexit__(self, *args):
        return False

    async def close(self):
        pass

    async def executemany(self, statement, records):
        records = list(records)
        self.cursor.executemany(statement, records)

    async def execute(self, statement, args=None):
        if args is not None:
            self.cursor.executemany(statement, [args])
        else:
            self.cursor.execute(statement)

    async def fetchall(self):
        return self.cursor.fetchall()

    async def fetchone(self):
        return self.cursor.fetchone()


class Native:
    def __init__(self, log, make, answer=None):
        self.log = log
        self.make = make
        self.answer = answer
        self.autocommit = True

    def cursor(self, *args, **kwargs):
        return self.make(self.log, self.answer)

    def commit(self):
        pass


class PostgreSQL:
    def __init__(self, log, answer=None):
        self.log = log
        self.answer = answer

    async def fetch(self, statement, *args, **kwargs):
        return [tuple(r) for r in self.answer(statement)]

    async def execute(self, statement, *args, **kwargs):
        if args:
            self.log.append(Load(statement, [args]))
        else:
            self.log.append(statement)

    async def executemany(self, statement, records, **kwargs):
        self.log.append(Load(statement, records))

    async def copy_records_to_table(self, table_name, *, records, columns=None, schema_name=None, timeout=None, where=None):
        if hasattr(records, "__aiter__"):
            records = [r async for r in records]
        name = (schema_name, table_name) if schema_name is not None else (table_name,)
        self.log.append(Load(None, records, table=name, columns=[c for c in columns] if columns is not None else None))
        return f"COPY"


def read_stream(statement, stream):
    """
    Reads data in the format of the COPY command of Redshift.

    Values are separated with a pipe sign, records with a newline. NULL is represented as `\\N`. Unless escape sequences
    are enabled, special characters stand for themselves.
    """

    tokens = tokenize(statement, "redshift")
    pos = 0

    def take(kind, *values):
        nonlocal pos
        if pos >= len(tokens) or tokens[pos].kind != kind or (values and tokens[pos].value not in values):
            raise DMLError("unsupported COPY command")
        pos += 1
        return tokens[pos - 1].value

    take("word", "COPY")
    name = [take("id")]
    while tokens[pos].kind == "op" and tokens[pos].value == ".":
        pos += 1
        name.append(take("id"))
    take("op", "(")
    columns = [take("id")]
    while take("op", ",", ")") == ",":
        columns.append(take("id"))
    take("word", "FROM")
    take("word", "STDIN")
    escape = False
    delimiter = "|"
    null = "\\N"
    while pos < len(tokens):
        word = take("word", "ESCAPE", "DELIMITER", "NULL", "WITH", "AS")
        if word == "ESCAPE":
            escape = True
        elif word == "DELIMITER":
            if tokens[pos].value == "AS":
                pos += 1
            delimiter = take("str")
        elif word == "NULL":
            if tokens[pos].value == "AS":
                pos += 1
            null = take("str")
    chars = list(stream.read().decode("utf-8"))
    records = []
    record = []
    cell = []
    is_null = False
    at = 0
    n = len(chars)

    def end_cell():
        nonlocal cell
        text = "".join(cell)
        # a sequence of characters that stands for NULL is recognised before escape sequences are
        record.append(None if is_null or (not escape and text == null) else text)
        cell = []

    while at < n:
        ch = chars[at]
        if escape and ch == "\\":
            if at + 1 >= n:
                raise DMLError("incomplete escape sequence")
            if null == "\\N" and chars[at + 1] == "N" and not cell and (at + 2 >= n or chars[at + 2] in (delimiter, "\n")):
                is_null = True
            else:
                cell.append(chars[at + 1])
            at += 2
        elif ch == delimiter:
            end_cell()
            is_null = False
            at += 1
        elif ch == "\n":
            end_cell()
            is_null = False
            records.append(record)
            record = []
            at += 1
        else:
            cell.append(ch)
            at += 1
    if cell or record:
        end_cell()
        records.append(record)
    for r in records:
        if len(r) != len(columns):
            raise DMLError("a record has as many values as there are columns")
    return Load(None, records, table=tuple(name), columns=columns)


def native(dialect, log, answer=None):
    if dialect == "postgresql":
        return PostgreSQL(log, answer)
    if dialect == "mysql":
        return Native(log, AsyncCursor, answer)
    return Native(log, ListCursor if dialect == "redshift" else Cursor, answer)


def context(dialect, answer=None, **options):
    """
    The context of a connection to a database, whose driver is replaced, and a list of calls to the driver.

    :param answer: A function that returns the rows for a query.
    """

    log = []
    conn = engine(dialect).create_connection(ConnectionParameters(host="nhost"), GeneratorOptions(**options))
    conn.native = native(dialect, log, answer)
    return _context_type(dialect)(conn), log


def table_name(dialect, table):
    return tuple(t.value for t in tokenize(str(table.name), dialect) if t.kind == "id")


def apply(S, dialect, log, store):
    "Has the database execute what was passed to the driver."

    for load in log:
        if isinstance(load, str):
            raise DMLError("unexpected statement")
        if load.statement is not None:
            statement = parse(load.statement, dialect)
            for record in load.records:
                store.run(S, statement, dialect, list(record))
        else:
            if load.table != store.name:
                raise DMLError("another table")
            columns = load.columns if load.columns is not None else store.columns
            for c in columns:
                if c not in store.columns:
                    raise DMLError("no such column")
            if len(set(columns)) != len(columns):
                raise DMLError("a column is listed twice")
            for record in load.records:
                if len(record) != len(columns):
                    raise DMLError("a record has as many values as there are columns")
                row = dict(zip(columns, record))
                for key in [store.key] + store.unique:
                    if not any(c in store.identity and c not in row for c in key):
                        if store.conflicts(S, {c: row.get(c) for c in store.columns}, key):
                            raise DMLError("duplicate key")
                store.add(row)


def run(coroutine):
    return asyncio.run(coroutine)
