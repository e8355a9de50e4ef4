"Work that is reported as done is durable, and connections are released."

import asyncio
import sys
import types
from dataclasses import dataclass
from typing import Optional
from unittest import mock

from pysqlsync.base import GeneratorOptions
from pysqlsync.connection import ConnectionParameters
from pysqlsync.model.key_types import PrimaryKey
from pysqlsync.util.dispatch import thread_dispatch

from symex.api import TEXT, grid, harness

from .c18_parameters import FUNCTIONS
from .common import engine
from .scripting import DIALECTS, AsyncCursor, Cursor, DriverError, Log, Native


@dataclass
class NItem:
    nkey: PrimaryKey[int]
    nname: Optional[str]


class Session(Native):
    """
    A connection of a driver, with a transaction.

    :param autocommit: Whether statements take effect as they are executed.
    """

    server_capabilities = -1

    def __init__(self, dialect, log, autocommit):
        Native.__init__(self, dialect, Calls(self, log), lambda statement: [(1,)])
        self.autocommit = autocommit
        self.pending = []
        self.closed = 0

    def get_server_version(self):
        return types.SimpleNamespace(major=16, minor=0, micro=0, releaselevel="final")

    def cursor(self, *args, **kwargs):
        if self.dialect == "mssql":
            return CommittingCursor(self, self.dialect, self.log, self.answer)
        if self.dialect == "trino":
            # the cursor is awaited

            async def get():
                return AsyncCursor(self.dialect, self.log, self.answer)

            return get()
        return Native.cursor(self, *args, **kwargs)

    def commit(self):
        if self.dialect == "mysql":

            async def run():
                del self.pending[:]

            return run()
        del self.pending[:]

    def close(self):
        self.closed += 1
        # work that is not committed is lost
        if self.dialect in ("postgresql", "trino"):

            async def run():
                pass

            return run()


class CommittingCursor(Cursor):
    "In pyodbc, a transaction is committed when a cursor is left without an error."

    def __init__(self, session, *args):
        Cursor.__init__(self, *args)
        self.session = session

    def __exit__(self, *args):
        self.close()
        if args[0] is None:
            self.session.commit()
        return False


class Calls:
    "Statements that a connection executes."

    def __init__(self, session, log):
        self.session = session
        self.log = log

    def call(self, statement):
        if self.session.closed:
            raise AssertionError("connection is closed")
        self.log.call(statement)
        if not self.session.autocommit:
            self.session.pending.append(statement)


def starts_with_autocommit(dialect, kwargs):
    if dialect in ("mysql", "mssql"):
        return kwargs.get("autocommit", False)
    return dialect in ("postgresql", "trino")


class Driver:
    "Connections made, any call to which may fail."

    def __init__(self, dialect, fail=None):
        self.dialect = dialect
        self.log = Log(fail)
        self.sessions = []
        self.arguments = []

    def connect(self, *args, **kwargs):
        self.arguments.append(kwargs)
        self.log.call("connect")
        self.sessions.append(Session(self.dialect, self.log, starts_with_autocommit(self.dialect, kwargs)))
        return self.sessions[-1]

    def patch(self):
        async def connect(*args, **kwargs):
            return self.connect(*args, **kwargs)

        return mock.patch(FUNCTIONS[self.dialect], connect if self.dialect in ("postgresql", "mysql") else self.connect)


def is_driver_error(error):
    "True for an error of the driver, or an error that it caused."

    while error is not None and not isinstance(error, DriverError):
        error = error.__cause__
    return error is not None


class BodyError(Exception):
    pass


OPERATIONS = ["execute", "script", "records", "insert", "upsert", "query"]


def statement(op, text):
    if op == "execute":
        return "UPDATE ntable SET nname = '" + text + "' WHERE nkey = 1"
    return "SELECT 1 FROM ntable WHERE nname = '" + text + "'"


async def operate(ctx, op, text, number):
    if op == "execute":
        await ctx.execute(statement(op, text))
    elif op == "script":
        await ctx.execute("UPDATE ntable SET nname = '" + text + "';\nDELETE FROM ntable;\nDROP TABLE ntable;")
    elif op == "records":
        await ctx.execute_all("DELETE FROM ntable WHERE nkey = 1", [(number,), (2,)])
    elif op == "insert":
        await ctx.insert_data(NItem, [NItem(number, text)])
    elif op == "upsert":
        await ctx.upsert_data(NItem, [NItem(number, text)])
    else:
        return await ctx.query_one(int, statement(op, text))


def plain(S):
    text = S.str("text", 0, 1, TEXT)
    for c in ("'", "\\", ";"):
        S.assume(S.not_(c in text))
    return text


@harness("C30", params=grid(dialect=DIALECTS, ops=[1]), thorough=grid(dialect=DIALECTS, ops=[2]))
def durable(S, dialect, ops):
    "Work that succeeds is committed, and the connection is closed however it is left."

    text = plain(S)
    number = S.int("number", -9, 9)
    # which call to the driver fails, if any
    driver = Driver(dialect, S.int("fail", -1, 7))
    names = [n for n in OPERATIONS if not (dialect == "trino" and n in ("records", "insert", "upsert"))]
    chosen = [S.choose(f"op{i}", names) for i in range(ops)]
    raised = S.choose("body fails", [None, BodyError, KeyError])
    done = []
    log = driver.log
    opened = False
    results = []
    thrown = None
    failed = None

    async def main():
        nonlocal opened, thrown
        conn = engine(dialect).create_connection(ConnectionParameters(host="nhost", username="nuser", password="npass"), GeneratorOptions(namespaces={sys.modules[__name__]: "nschema"}))
        conn.generator.create(tables=[NItem])
        async with conn as ctx:
            opened = True
            S.check(len(driver.sessions) == 1, "a connection is open")
            for op in chosen:
                del log[:]
                results.append(await operate(ctx, op, text, number))
                S.check(len(log) >= 1, "a statement is executed")
                if op in ("execute", "query"):
                    S.check(S.eq(log[-1], statement(op, text)), "the statement is the one asked for")
                S.check(not driver.sessions[0].pending, "work that succeeds is committed")
                S.check(driver.sessions[0].closed == 0, "a connection stays open while it is used")
                done.append(op)
            if raised is not None:
                thrown = raised("body")
                raise thrown

    with driver.patch():
        try:
            asyncio.run(main())
        except Exception as ex:
            failed = ex
    if not opened:
        S.check(log.failed is not None and is_driver_error(failed), "a failure to connect is reported, and is the only reason not to")
        S.check(not done, "nothing is run without a connection")
        return
    if log.failed is not None:
        S.check(is_driver_error(failed), "an error of the database is reported")
        S.check(len(done) < len(chosen), "nothing is run after an error")
    else:
        S.check(failed is thrown, "an error reaches the caller, and there is no other")
        S.check(done == chosen, "work is done in order")
        S.check(all(r == 1 if op == "query" else r is None for op, r in zip(chosen, results)), "results are delivered")
    S.check(len(driver.sessions) == 1 and driver.sessions[0].closed == 1, "the connection is closed once")


@harness("C30", params=grid(dialect=["mssql", "oracle", "redshift"]))
def preparation(S, dialect):
    "A failure of a statement with which a session is prepared is reported."

    driver = Driver(dialect)
    driver.log.fail = S.choose("fail", [1, 2])
    opened = False
    error = None

    async def main():
        nonlocal opened
        async with engine(dialect).create_connection(ConnectionParameters(host="nhost"), GeneratorOptions()) as ctx:
            opened = True
            await ctx.execute("DELETE FROM ntable")
            await ctx.execute("DELETE FROM ntable")

    with driver.patch():
        try:
            asyncio.run(main())
        except Exception as ex:
            error = ex
    S.check(error is not None and driver.log.failed is not None, "an error of the database is reported")
    if opened:
        S.check(driver.sessions[0].closed == 1, "the connection is closed once")


@harness("C30", params=[{}])
def settings(S):
    "Sessions have the settings that statements rely on (MySQL)."

    driver = Driver("mysql")
    params = ConnectionParameters(host=S.choose("host", ["nhost", None]), port=S.choose("port", [None, 3307]), database=S.choose("database", ["ndatabase", None]))
    with driver.patch():
        asyncio.run(engine("mysql").create_connection(params, GeneratorOptions()).open())
    arguments = driver.arguments[0]
    modes = set(arguments["sql_mode"].strip("' ").split(","))
    S.check(modes & {"ANSI_QUOTES", "ANSI"}, "double quotes delimit identifiers")
    S.check(modes & {"STRICT_ALL_TABLES", "STRICT_TRANS_TABLES", "TRADITIONAL"}, "a value that does not fit is refused")
    S.check("NO_AUTO_VALUE_ON_ZERO" in modes, "zero is a key like any other")
    S.check("NO_BACKSLASH_ESCAPES" not in modes, "a backslash that is doubled is a backslash")
    command = arguments["init_command"].replace(" ", "").lower()
    S.check("time_zone=" in command and ("+00:00" in command or "utc" in command), "timestamps are in UTC")


@harness("C30", params=[{}])
def dispatched(S):
    "A function run in a thread delivers its result or its error."

    a, b = S.int("a", -99, 99), S.str("b", 0, 2, TEXT)
    kind = S.choose("error", [None, BodyError, KeyError, StopAsyncIteration, RuntimeError])
    calls = []

    @thread_dispatch
    def work(first, *rest, key=None):
        calls.append((first, rest, key))
        if kind is not None:
            raise kind(first)
        return first, rest, key

    async def main():
        return await asyncio.gather(work(a, b, key=b), work(1), return_exceptions=True)

    found = asyncio.run(main())
    S.check(len(calls) == 2, "each function is run once")
    if kind is None:
        (first, rest, key), second = found
        S.check(S.all([S.eq(first, a), len(rest) == 1, S.eq(rest[0], b), S.eq(key, b)]), "a result is delivered to its caller")
        S.check(second == (1, (), None), "a result is delivered to its caller")
    else:
        S.check(all(type(f) is kind for f in found), "an error is delivered to its caller")
        S.check(S.eq(found[0].args[0], a) and found[1].args[0] == 1, "an error is delivered to its caller")
