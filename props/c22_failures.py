"A failed statement never leaves the client believing that it succeeded."

import asyncio
import sys
from dataclasses import dataclass
from typing import Optional

from pysqlsync.base import QueryException
from pysqlsync.model.key_types import PrimaryKey

from symex.api import TEXT, grid, harness

from .scripting import DIALECTS, ERRORS, SINGLE, DriverError, Log, context


@dataclass
class NFirst:
    nkey: PrimaryKey[int]
    nname: Optional[str]


@dataclass
class NSecond:
    nkey: PrimaryKey[int]
    nfirst: NFirst
    nvalue: int


class Interrupted(asyncio.CancelledError):
    "The task is cancelled while the database runs a statement."


@dataclass
class NThird:
    nkey: PrimaryKey[int]
    nvalue: str


SETS = {"none": [], "first": [NFirst], "both": [NFirst, NSecond], "other": [NFirst, NThird]}


def run(coroutine):
    return asyncio.run(coroutine)


def make(S, dialect, log, answer=None):
    return context(dialect, log, answer, namespaces={sys.modules[__name__]: "nschema"})


def reported(ex, statement):
    "Whether an error is reported together with the statement."

    if not isinstance(ex, QueryException):
        return False
    return str(ex.query).strip().rstrip(";") in str(statement).strip() or str(statement).strip() in str(ex.query)


def failure(S, log, ex):
    S.check(ex is not None, "an error of the database is reported")
    if ex is None:
        return
    if log.error is Interrupted:
        S.check(isinstance(ex, (asyncio.CancelledError, QueryException)), "an interruption is reported")
        return
    S.check(isinstance(ex, QueryException), "an error of the database is reported with the statement")
    cause = ex
    while cause is not None and not isinstance(cause, DriverError):
        cause = cause.__cause__
    S.check(cause is not None, "the error of the database is the cause of the error reported")
    if isinstance(ex, QueryException):
        S.check(reported(ex, log.failed), "an error of the database is reported with the statement")


@harness("C22", params=grid(dialect=DIALECTS))
def objects(S, dialect):
    "Creating and dropping tables, with a failure of any of the calls to the driver."

    log = Log()
    ctx = make(S, dialect, log)
    generator = ctx.connection.generator
    before = S.choose("before", ["none", "first", "both"])
    after = S.choose("after", ["drop", "first", "both", "other"])
    if SETS[before]:
        run(ctx.create_objects(SETS[before]))
    state = str(generator.state)
    old = generator.state

    async def change():
        if after == "drop":
            await ctx.drop_objects()
        else:
            await ctx.create_objects(SETS[after])

    # what is executed without a failure
    trial = Log()
    twin = make(S, dialect, trial)
    if SETS[before]:
        run(twin.create_objects(SETS[before]))
    del trial[:]
    trial.count = 0
    try:
        if after == "drop":
            run(twin.drop_objects())
        else:
            run(twin.create_objects(SETS[after]))
    except (DriverError, QueryException) as ex:
        S.fail(f"there is no error of the database: {ex}")
    calls = trial.count
    target = str(twin.connection.generator.state)
    del log[:]
    log.count = 0
    attempts = S.choose("attempts", [0, 1, 2])
    log.error = S.choose("error", [*ERRORS[:3], Interrupted]) if attempts == 1 else DriverError
    for i in range(attempts):
        log.fail = S.choose(f"fail{i}", list(range(min(calls, 4)))) if calls else None
        log.count = 0
        done = len(log)
        try:
            run(change())
            error = None
        except (Exception, asyncio.CancelledError) as ex:
            error = ex
        if calls:
            failure(S, log, error)
            S.check(str(generator.state) == state, "after a failure, the schema is the one from before")
            S.check([str(s) for s in log[done:]] == trial[: len(log) - done], "statements before the failure are executed")
            del log[:]
        else:
            S.check(error is None and str(generator.state) == target, "the schema is the one requested")
    log.fail = None
    log.count = 0
    run(change())
    S.check(str(generator.state) == target, "after success, the schema is the one requested")
    S.check(list(log) == list(trial), "the same script is executed when retried")
    # another attempt has nothing to do
    del log[:]
    run(change())
    S.check(len(log) == 0, "nothing is executed once the schema is the one requested")


@harness("C22", params=grid(dialect=[d for d in DIALECTS if d != "trino"]))
def synchronize(S, dialect):
    "Synchronization with a failure when the script is executed."

    log = Log()
    ctx = make(S, dialect, log)
    generator = ctx.connection.generator
    from .common import engine
    import pysqlsync.formation.object_types as ot

    explorer = engine(dialect).create_explorer(ctx)
    existing = S.choose("existing", ["none", "first"])
    other = make(S, dialect, Log())
    if SETS[existing]:
        other.connection.generator.create(tables=SETS[existing])

    async def discovered(*args, **kwargs):
        "The schema that exists in the database."
        twin = make(S, dialect, Log())
        if SETS[existing]:
            twin.connection.generator.create(tables=SETS[existing])
            return list(twin.connection.generator.state.namespaces.values())[0]
        return twin.connection.generator.factory.namespace_class(local("nschema"))

    def local(name):
        from pysqlsync.model.id_types import LocalId

        return LocalId(name)

    explorer.get_namespace = discovered
    explorer.get_namespace_current = discovered
    target = make(S, dialect, Log())
    target.connection.generator.create(modules=[sys.modules[__name__]])
    before = str(run(found(explorer, generator)))
    calls = 0
    trial = Log()
    twin = make(S, dialect, trial)
    twin_explorer = engine(dialect).create_explorer(twin)
    twin_explorer.get_namespace = discovered
    twin_explorer.get_namespace_current = discovered
    run(twin_explorer.synchronize(module=sys.modules[__name__]))
    calls = trial.count
    if S.bool("discovery fails"):

        async def refused(*args, **kwargs):
            raise QueryException("SELECT 1") from DriverError("refused")

        kept = (explorer.get_namespace, explorer.get_namespace_current)
        explorer.get_namespace = explorer.get_namespace_current = refused
        try:
            run(explorer.synchronize(module=sys.modules[__name__]))
            error = None
        except QueryException as ex:
            error = ex
        S.check(error is not None, "an error of the database is reported")
        S.check(not same_state(generator, target.connection.generator.state), "after a failure, the schema is not the one requested")
        explorer.get_namespace, explorer.get_namespace_current = kept
    S.check(calls > 0, "a script is executed")
    S.check(same_state(twin.connection.generator, target.connection.generator.state), "after success, the schema is the one requested")
    for i in range(S.choose("attempts", [1, 2])):
        log.fail = S.choose(f"fail{i}", list(range(min(calls, 4))))
        log.count = 0
        del log[:]
        log.error = S.choose("error", [*ERRORS, Interrupted]) if i == 0 else DriverError
        try:
            run(explorer.synchronize(module=sys.modules[__name__]))
            error = None
        except (Exception, asyncio.CancelledError) as ex:
            error = ex
        failure(S, log, error)
        S.check(str(generator.state) == before, "after a failure, the schema is the one from before")
        S.check(list(log) == trial[: len(log)], "statements before the failure are executed")
    log.fail = None
    log.count = 0
    del log[:]
    run(explorer.synchronize(module=sys.modules[__name__]))
    S.check(list(log) == list(trial), "the same script is executed when retried")
    S.check(same_state(generator, target.connection.generator.state), "after success, the schema is the one requested")


def same_state(generator, target):
    return generator.get_mutate_stmt(target) is None


async def found(explorer, generator):
    "The state that is discovered."

    await explorer.discover(module=sys.modules[__name__])
    state = generator.state
    generator.reset()
    return state


@harness("C22", params=grid(dialect=DIALECTS, op=["execute", "execute_all", "query_all", "query_one"]))
def errors(S, dialect, op):
    "Errors of the database are reported with the statement; blank statements are refused."

    if dialect == "trino" and op == "execute_all":
        S.check(True, "not supported")
        return
    log = Log(S.choose("fail", [None, 0]))
    if log.fail is not None:
        log.error = S.choose("error", ERRORS)
    ctx = make(S, dialect, log, lambda statement: [(1,)])
    text = S.str("text", 0, 4 if log.fail is None else 1, ((9, 13), (32, 32), (65, 66)))
    blank = S.eq(text.strip(), "")
    error = None
    try:
        if op == "execute":
            run(ctx.execute(text))
        elif op == "execute_all":
            run(ctx.execute_all(text, S.choose("source", [[(1,)], ((1,) for _ in range(1))])))
        elif op == "query_all":
            result = run(ctx.query_all(int, "SELECT " + text))
            S.check(len(result) == 1 and result[0] == 1, "rows are returned")
        else:
            S.check(run(ctx.query_one(int, "SELECT " + text)) == 1, "a row is returned")
    except Exception as ex:
        error = ex
    if op in ("execute", "execute_all"):
        if S.concrete(blank) if not isinstance(blank, bool) else blank:
            S.check(isinstance(error, ValueError) and log.count == 0, "a blank statement is refused")
            return
    S.check(log.count >= 1, "a statement is executed")
    if log.fail is None:
        S.check(error is None, "there is no error unless the database reports one")
    else:
        failure(S, log, error)


@harness("C22", params=grid(dialect=DIALECTS))
def later(S, dialect):
    "A failure of any statement of a script is reported."

    count = 3
    kinds = [S.choose(f"kind{i}", ["CREATE TABLE t{} (a int)", "INSERT INTO t{} VALUES (1)", "UPDATE t{} SET a = 1"]) for i in range(count)]
    statements = [k.format(i) for i, k in enumerate(kinds)]
    whole = dialect not in SINGLE and dialect != "mssql"
    log = Log(S.choose("fail", [None, 0] if whole else [None, 0, 1, 2]))
    ctx = make(S, dialect, log)
    error = None
    try:
        run(ctx.execute(";\n".join(statements) + ";"))
    except Exception as ex:
        error = ex
    if log.fail is None:
        S.check(error is None, "there is no error unless the database reports one")
        S.check(len(log) == (1 if whole else 3), "all statements are executed")
    else:
        failure(S, log, error)
        S.check(len(log) == log.fail, "nothing is executed after a failure")


@harness("C22", params=grid(dialect=[d for d in DIALECTS if d != "trino"], op=["insert_data", "upsert_data", "delete_data", "insert_rows", "upsert_rows", "delete_rows"]))
def data(S, dialect, op):
    "An error while data is loaded is reported, and the schema is still the same."

    log = Log()
    ctx = make(S, dialect, log)
    run(ctx.create_objects([NFirst]))
    state = str(ctx.connection.generator.state)
    log.count = 0
    log.fail = S.choose("fail", [None, 0])
    log.error = S.choose("error", ERRORS) if log.fail is not None else DriverError
    item = NFirst(1, "x")
    table = ctx.get_table(NFirst)
    error = None
    try:
        if op.endswith("_data"):
            fn = getattr(ctx, op)
            run(fn(NFirst, [1] if op == "delete_data" else [item]))
        elif op == "delete_rows":
            run(ctx.delete_rows(table, int, [1]))
        else:
            run(getattr(ctx, op)(table, [(1, "x")], field_types=(int, str)))
    except Exception as ex:
        error = ex
    S.check(log.count == 1, "a statement is executed")
    S.check((error is None) == (log.fail is None), "an error of the database is reported")
    S.check(str(ctx.connection.generator.state) == state, "the schema is the same")
