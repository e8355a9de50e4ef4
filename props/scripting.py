"Stand-ins for the connections of database drivers, as far as the execution of statements is concerned."

from pysqlsync.base import GeneratorOptions
from pysqlsync.connection import ConnectionParameters

from .common import _context_type, engine
from .sql import split_statements, tokenize

DIALECTS = ["postgresql", "mysql", "mssql", "oracle", "redshift", "trino"]
# databases that execute a script with several statements
SCRIPTS = ("postgresql", "mysql", "mssql")
# databases that execute a single statement without its terminator
SINGLE = ("oracle", "redshift", "trino")


class DriverError(Exception):
    "An error of the database."


class DriverValueError(DriverError, ValueError):
    pass


class DriverLookupError(DriverError, KeyError):
    pass


class DriverSystemError(DriverError, OSError):
    pass


class DriverRuntimeError(DriverError, RuntimeError):
    pass


class DriverAttributeError(DriverError, AttributeError):
    pass


class DriverTypeError(DriverError, TypeError):
    pass


class DriverStateError(DriverError, AssertionError):
    pass


ERRORS = [DriverError, DriverValueError, DriverLookupError, DriverSystemError, DriverRuntimeError, DriverAttributeError, DriverTypeError, DriverStateError]


class Log(list):
    "Calls to the driver, one of which fails."

    def __init__(self, fail=None):
        list.__init__(self)
        self.fail = fail  # index of the call
        self.failed = None
        self.error = DriverError  # class of the error that a failure is reported with
        self.count = 0

    def call(self, statement, result=True):
        at = self.count
        self.count += 1
        if self.fail is not None and at == self.fail:
            self.failed = statement
            raise self.error("refused")
        self.append(statement)


class Cursor:
    def __init__(self, dialect, log, answer=None):
        self.dialect = dialect
        self.log = log
        self.answer = answer
        self.rows = []
        self.pending = []
        self.closed = False
        self.description = None

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()
        return False

    def close(self):
        # in SQL Server, the rest of a batch is not run
        self.closed = True
        self.pending = []

    def run(self, statement, *args, **kwargs):
        if self.dialect == "mssql":
            parts = parts_of(statement, self.dialect)
            if parts is not None and len(parts) > 1:
                self.pending = parts
                self.next()
                return self
        self.log.call(statement)
        self.rows = [tuple(r) for r in self.answer(statement)] if self.answer is not None else []
        return self

    def next(self):
        "Runs statements until one that has a result or a row count."

        while self.pending:
            part = self.pending.pop(0)
            self.log.call(part)
            if part.lstrip()[:6].upper() in ("INSERT", "UPDATE", "DELETE", "SELECT", "MERGE "):
                return

    execute = run

    def executemany(self, statement, records, *args, **kwargs):
        self.log.call(statement)

    def nextset(self):
        if not self.pending:
            return False
        self.next()
        return True

    def setinputsizes(self, *args, **kwargs):
        pass

    def var(self, *args, **kwargs):
        return None

    def fetchall(self):
        rows, self.rows = self.rows, []
        return rows

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None


def parts_of(script, dialect):
    "Texts of the statements in a script."

    tokens = tokenize(script, dialect)
    found = []
    for statement in split_statements(tokens if tokens and tokens[-1].value == ";" else tokens + tokenize(";", dialect)):
        found.append(script[statement[0].start : statement[-1].end])
    return found


class AsyncCursor(Cursor):
    async def __aenter__(self):
        return self

    async def __aexit__(self, *args):
        self.close()
        return False

    def __await__(self):
        async def get():
            return self

        return get().__await__()

    async def execute(self, statement, *args, **kwargs):
        self.run(statement)
        return self

    async def executemany(self, statement, records, *args, **kwargs):
        self.log.call(statement)

    async def fetchall(self):
        return Cursor.fetchall(self)

    async def fetchone(self):
        return Cursor.fetchone(self)

    async def nextset(self):
        return Cursor.nextset(self)


class Native:
    def __init__(self, dialect, log, answer=None):
        self.dialect = dialect
        self.log = log
        self.answer = answer
        self.autocommit = True

    # asyncpg
    async def execute(self, statement, *args, **kwargs):
        self.log.call(statement)

    async def executemany(self, statement, records, **kwargs):
        self.log.call(statement)

    async def fetch(self, statement, *args, **kwargs):
        self.log.call(statement)
        return [tuple(r) for r in self.answer(statement)] if self.answer is not None else []

    async def copy_records_to_table(self, table_name, **kwargs):
        self.log.call(f"COPY {table_name}")
        return "COPY"

    # others
    def cursor(self, *args, **kwargs):
        if self.dialect == "mysql":
            return AsyncCursor(self.dialect, self.log, self.answer)
        if self.dialect == "trino":

            async def get():
                return AsyncCursor(self.dialect, self.log, self.answer)

            return get()
        return Cursor(self.dialect, self.log, self.answer)

    def commit(self):
        pass


def context(dialect, log, answer=None, **options):
    conn = engine(dialect).create_connection(ConnectionParameters(host="nhost"), GeneratorOptions(**options))
    conn.native = Native(dialect, log, answer)
    return _context_type(dialect)(conn)
