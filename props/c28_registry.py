"Dialects are available exactly as registered, and a missing database driver affects none but its own dialect."

import importlib.util
import inspect
import sys
from unittest import mock

from pysqlsync import factory
from pysqlsync.base import GeneratorOptions
from pysqlsync.connection import ConnectionParameters

from symex.api import LOWER, grid, harness

DRIVERS = {
    "delta": [],
    "mssql": ["pyodbc"],
    "mysql": ["aiomysql", "cryptography"],
    "oracle": ["oracledb"],
    "postgresql": ["asyncpg"],
    "redshift": ["redshift_connector"],
    "snowflake": ["snowflake"],
    "trino": ["aiotrino"],
}
NO_CONNECTION = ("delta", "snowflake")


def fresh():
    "The module as it is when the package is first imported."
    spec = importlib.util.find_spec(factory.__name__)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


class Engine:
    "What a plug-in may register."

    def __init__(self, index):
        self.index = index


@harness("C28", params=grid(steps=[3, 4]), thorough=grid(steps=[5]))
def history(S, steps):
    "Registrations behave like entries in a table with unique names, whatever the names and their order."
    registry = fresh()
    model = []  # pairs of name and engine
    for i in range(steps):
        op = S.choose(f"op{i}", ["register", "unregister", "get"]) if i else "register"
        name = S.str(f"name{i}", 1, 2, LOWER)
        present = [e for n, e in model if n == name]
        if op == "register":
            engine = Engine(i)
            try:
                registry.register_dialect(name, engine)
            except ValueError:
                S.check(bool(present), "a dialect that is not registered can be registered")
            else:
                S.check(not present, "a registered dialect is not replaced")
                model.append((name, engine))
        elif op == "unregister":
            if not present:
                continue  # no promise is made
            registry.unregister_dialect(name)
            model = [(n, e) for n, e in model if n != name]
        else:
            try:
                found = registry.get_dialect(name)
            except ValueError:
                S.check(not present, "a registered dialect is found")
            else:
                S.check(bool(present), "a dialect that is not registered is not found")
                S.check(found is present[0], "a name refers to the engine that was registered with it")
    for n, e in model:
        S.check(registry.get_dialect(n) is e, "a registered dialect remains available")
    for dialect in DRIVERS:
        S.check(registry.get_dialect(dialect).name == dialect, "bundled dialects remain available")


def refuses(S, call, dialect, modules):
    try:
        call()
    except RuntimeError as e:
        text = str(e)
        S.check(
            any(m in text for m in modules) and f"pysqlsync[{dialect}]" in text,
            "the error tells which module is missing, and how to install it",
        )
    else:
        S.fail("a dialect whose driver is missing cannot be used")


@harness("C28")
def drivers(S):
    "Whatever drivers are missing, a dialect is usable if and only if its own drivers are installed."
    missing = {}
    for dialect, names in DRIVERS.items():
        missing[dialect] = [n for n in names if bool(S.bool(n))]

    hidden = {n: None for names in missing.values() for n in names}
    keep = {
        n: m
        for n, m in sys.modules.items()
        if not (
            n.startswith("pysqlsync.dialect.")
            and (n.endswith(".dependency") or missing.get(n.split(".")[2]))
        )
    }
    with mock.patch.dict(sys.modules, {**keep, **hidden}, clear=True):
        registry = fresh()

    for dialect in DRIVERS:
        engine = registry.get_dialect(dialect)
        S.check(engine.name == dialect, "a dialect is available by its name")
        params = ConnectionParameters(host="localhost", username="user", database="db")
        if missing[dialect]:
            refuses(S, engine.create_generator, dialect, missing[dialect])
            refuses(S, lambda: engine.create_connection(params), dialect, missing[dialect])
            refuses(S, lambda: engine.create_explorer(None), dialect, missing[dialect])
        else:
            generator = engine.create_generator(GeneratorOptions(foreign_constraints=False))
            home = f"pysqlsync.dialect.{dialect}."
            S.check(
                type(generator).__module__.startswith(home), "a dialect emits statements with its own generator"
            )
            S.check(not inspect.isabstract(type(generator)), "a generator can be used")
            if dialect in NO_CONNECTION:
                continue
            conn = engine.create_connection(params)
            S.check(type(conn).__module__.startswith(home), "a dialect connects with its own driver")
            S.check(
                type(conn.generator) is type(generator), "a connection executes what its own generator emits"
            )
    refuses(S, registry.get_dialect("test").create_generator, "test", ["module_not_found"])
