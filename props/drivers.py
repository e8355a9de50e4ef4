"Stand-ins for the connections of database drivers, as far as queries are concerned."

import collections.abc

from pysqlsync.connection import ConnectionParameters

from .common import engine


class Result:
    "What a database returns for a query."

    def __init__(self, names, rows):
        self.names = list(names)
        self.rows = [tuple(r) for r in rows]


class Record(collections.abc.Sequence):
    "Rows of asyncpg are sequences of values that support access by name."

    def __init__(self, names, values):
        self._names = names
        self._values = values

    def __len__(self):
        return len(self._values)

    def __getitem__(self, key):
        if isinstance(key, (int, slice)):
            return self._values[key]
        return dict(zip(self._names, self._values))[key]

    def __iter__(self):
        return iter(self._values)

    def keys(self):
        return iter(self._names)

    def values(self):
        return iter(self._values)

    def items(self):
        return zip(self._names, self._values)

    def get(self, key, default=None):
        return dict(zip(self._names, self._values)).get(key, default)


class Row(collections.abc.Sequence):
    "Rows of pyodbc are sequences of values that support access by attribute."

    def __init__(self, description, values):
        self.cursor_description = description
        self.__dict__.update({d[0]: v for d, v in zip(description, values)})
        self._values = values

    def __len__(self):
        return len(self._values)

    def __getitem__(self, key):
        return self._values[key]

    def __iter__(self):
        return iter(self._values)


class PostgreSQL:
    def __init__(self, answer):
        self.answer = answer

    async def fetch(self, statement, *args, **kwargs):
        result = self.answer(statement)
        return [Record(result.names, r) for r in result.rows]


class Cursor:
    def __init__(self, answer, make, case=str):
        self.answer = answer
        self.make = make
        self.case = case
        self.rowfactory = None
        self.result = None
        self.pos = 0

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False

    @property
    def description(self):
        if self.result is None:
            return None
        return [(self.case(n), None, None, None, None, None, None) for n in self.result.names]

    def execute(self, statement, *args, **kwargs):
        self.result = self.answer(statement)
        self.pos = 0
        # assigned by the caller after the statement is executed
        self.rowfactory = None
        return self

    def fetchone(self):
        if self.pos >= len(self.result.rows):
            return None
        row = self.result.rows[self.pos]
        self.pos += 1
        if self.rowfactory is not None:
            return self.rowfactory(*row)
        return self.make(self.description, row)

    def fetchall(self):
        rows = []
        while True:
            row = self.fetchone()
            if row is None:
                return rows
            rows.append(row)

    def __iter__(self):
        return iter(self.fetchall())

    def close(self):
        pass


class AsyncCursor(Cursor):
    async def __aenter__(self):
        return self

    async def __aexit__(self, *args):
        return False

    async def execute(self, statement, *args, **kwargs):
        Cursor.execute(self, statement)

    async def fetchone(self):
        return Cursor.fetchone(self)

    async def fetchall(self):
        rows = []
        while True:
            row = Cursor.fetchone(self)
            if row is None:
                return rows
            rows.append(row)

    async def close(self):
        pass


class CursorHandle:
    "An object that is both awaited, and used as an asynchronous context manager."

    def __init__(self, cursor):
        self.cursor = cursor

    def __await__(self):
        async def get():
            return self.cursor

        return get().__await__()

    async def __aenter__(self):
        return self.cursor

    async def __aexit__(self, *args):
        return False


def as_tuple(description, values):
    return tuple(values)


def as_list(description, values):
    return list(values)


def as_dict(description, values):
    return {d[0]: v for d, v in zip(description, values)}


class Native:
    "Connections that create cursors."

    def __init__(self, factory):
        self.factory = factory
        self.autocommit = True

    def cursor(self, *args, **kwargs):
        return self.factory(*args, **kwargs)


def native(dialect, answer):
    if dialect == "postgresql":
        return PostgreSQL(answer)
    if dialect == "mysql":
        import aiomysql

        def mysql(cls=None):
            by_name = cls is not None and issubclass(cls, aiomysql.cursors.DictCursor)
            return CursorHandle(AsyncCursor(answer, as_dict if by_name else as_tuple))

        return Native(mysql)
    if dialect == "mssql":
        return Native(lambda: Cursor(answer, Row))
    if dialect == "oracle":
        # names that are not delimited are in upper case
        return Native(lambda: Cursor(answer, as_tuple, case=str.upper))
    if dialect == "redshift":
        return Native(lambda: Cursor(answer, as_list))
    if dialect == "trino":
        return Native(lambda: CursorHandle(AsyncCursor(answer, as_list)))
    raise NotImplementedError(dialect)


def context(dialect, answer):
    "The context of a connection to a database, whose driver is replaced."

    from .common import _context_type, generator

    conn = engine(dialect).create_connection(ConnectionParameters(host="nhost"), generator_options())
    conn.native = native(dialect, answer)
    return _context_type(dialect)(conn)


def generator_options():
    from pysqlsync.base import GeneratorOptions

    return GeneratorOptions()
