"Connection strings carry every parameter, and never the password."

import asyncio
import contextlib
import logging
from unittest import mock
from urllib.parse import quote

from pysqlsync.base import GeneratorOptions
from pysqlsync.connection import ConnectionParameters, ConnectionSSLMode
from pysqlsync.factory import get_parameters

from symex.api import PRINTABLE, TEXT, UNICODE, harness, grid

from .common import engine

MODES = [None, *ConnectionSSLMode]
# characters other than letters and digits that stand for themselves in URLs
MARKS = tuple((ord(c), ord(c)) for c in "-._~!$&'()*+,;=")
RAW = ((48, 57), (65, 90), (97, 122), *MARKS)
HOST = ((45, 46), (48, 57), (97, 122))
ADDRESSES = ["::1", "fe80::1", "2001:db8::8:800:200c:417a", "fe80::1%eth0"]

PARTS = ["host", "username", "password", "database"]


def symbolic_host(S, size):
    kind = S.choose("host kind", ["name", "IPv4", "IPv6"])
    if kind == "name":
        return S.str("host", 1, size, HOST)
    if kind == "IPv4":
        return "127.0.0.1"
    return S.choose("address", ADDRESSES)


def in_url(host):
    return f"[{host}]" if ":" in host else host


def parameters(S, part, size, alphabet=UNICODE):
    "Connection parameters one of which is symbolic, and others may be absent."

    host, username, password, database = "nhost.example.com", "nuser", "nword", "ndata"
    if part == "host":
        host = symbolic_host(S, size)
    elif part == "username":
        username = S.str("username", 1, size, alphabet)
    elif part == "password":
        password = S.str("password", 1, size, alphabet)
    elif part == "database":
        database = S.str("database", 1, size, alphabet)
    if part == "host" or part == "none":
        if S.bool("no username?"):
            username, password = None, None
        elif S.bool("no password?"):
            password = None
        if S.bool("no database?"):
            database = None
        ssl = S.choose("ssl", MODES)
    else:
        absent = S.choose("absent", ["none", *(p for p in ("username", "password", "database") if p != part)])
        if absent == "username" and part == "password":
            absent = "none"
        if absent == "username":
            username, password = None, None
        elif absent == "password":
            password = None
        elif absent == "database":
            database = None
        ssl = S.choose("ssl", [None, ConnectionSSLMode.verify_full])
    port = None if S.bool("no port?") else S.int("port", 1, 65535)
    return ConnectionParameters(host, port, username, password, database, ssl)


def same(S, a, b):
    if a is None or b is None:
        return a is None and b is None
    return S.eq(a, b)


def url_of(params, encode):
    url = "ndialect://"
    if params.username is not None:
        url += encode(params.username)
        if params.password is not None:
            url += ":" + encode(params.password)
        url += "@"
    url += in_url(params.host)
    if params.port is not None:
        url += f":{params.port}"
    if params.database is not None:
        url += "/" + encode(params.database)
    if params.ssl is not None:
        url += f"?ssl={params.ssl.value}"
    return url


def check_parameters(S, dialect, found, expected, password=True):
    S.check(dialect == "ndialect", "the dialect is that of the connection string")
    S.check(same(S, found.host, expected.host), "the host is that in the connection string")
    S.check(same(S, found.port, expected.port), "the port is that in the connection string")
    S.check(same(S, found.username, expected.username), "the user name is that in the connection string")
    if password:
        S.check(same(S, found.password, expected.password), "the password is that in the connection string")
    else:
        S.check(found.password is None, "there is no password in the connection string")
    S.check(same(S, found.database, expected.database), "the database is that in the connection string")
    S.check(found.ssl is expected.ssl, "the TLS mode is that in the connection string")


@harness("C18", params=grid(part=PARTS, size=[2]), thorough=grid(part=PARTS, size=[3]))
def encoded(S, part, size):
    "All characters other than letters and digits are percent-encoded."

    params = parameters(S, part, size)
    dialect, found = get_parameters(url_of(params, lambda s: quote(s, safe="")))
    check_parameters(S, dialect, found, params)


@harness("C18", params=grid(part=PARTS[1:], size=[2]), thorough=grid(part=PARTS[1:], size=[4]))
def literal(S, part, size):
    "Characters are percent-encoded only if required."

    params = parameters(S, part, size, RAW)
    dialect, found = get_parameters(url_of(params, lambda s: s))
    check_parameters(S, dialect, found, params)


@harness("C18", params=grid(part=PARTS, size=[2]), thorough=grid(part=PARTS, size=[3]))
def written(S, part, size):
    "Connection parameters read back when written, other than the password."

    params = parameters(S, part, size)
    dialect, found = get_parameters("ndialect://" + str(params))
    check_parameters(S, dialect, found, params, password=False)


@harness("C18", params=grid(size=[3]), thorough=grid(size=[6]))
def secret(S, size):
    "Connection parameters that differ only in the password are written the same."

    params = parameters(S, "none", size)
    texts = []
    for name in ("password", "other"):
        params.password = S.str(name, 0, size, UNICODE)
        texts.append((str(params), f"{params}", "%s" % params))
    for a, b in zip(*texts):
        S.check(S.eq(a, b), "the text written does not depend on the password")


@harness("C18", params=[{}])
def refused(S):
    "An encryption mode that does not exist is refused."

    mode = S.str("mode", 1, 7, ((45, 45), (48, 57), (97, 122)))
    for m in ConnectionSSLMode:
        S.assume(S.not_(S.eq(mode, m.value)))
    try:
        get_parameters(f"ndialect://nhost/ndata?ssl={mode}")
        found = True
    except ValueError:
        found = False
    S.check(not found, "an encryption mode that does not exist is refused")


class Messages(logging.Handler):
    def __init__(self):
        super().__init__()
        self.messages = []

    def emit(self, record):
        self.messages.append(record.getMessage())


@contextlib.contextmanager
def captured():
    logger = logging.getLogger("pysqlsync")
    handler = Messages()
    level = logger.level
    logger.addHandler(handler)
    logger.setLevel(logging.DEBUG)
    try:
        yield handler.messages
    finally:
        logger.setLevel(level)
        logger.removeHandler(handler)


class AnyCursor:
    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False

    def execute(self, *args):
        return self

    def fetchall(self):
        return []


class AnyConnection:
    autocommit = False
    server_capabilities = -1

    def cursor(self):
        return AnyCursor()

    def get_server_version(self):
        import types

        return types.SimpleNamespace(major=16, minor=0, micro=0, releaselevel="final")


FUNCTIONS = {
    "postgresql": "asyncpg.connect",
    "mysql": "aiomysql.connect",
    "mssql": "pyodbc.connect",
    "oracle": "oracledb.connect",
    "redshift": "redshift_connector.connect",
    "trino": "aiotrino.dbapi.connect",
}


def opened(dialect, params):
    "Arguments that the driver gets, and messages logged."

    calls = []

    def connect(*args, **kwargs):
        calls.append((args, kwargs))
        return AnyConnection()

    async def async_connect(*args, **kwargs):
        return connect(*args, **kwargs)

    conn = engine(dialect).create_connection(params, GeneratorOptions())
    function = async_connect if dialect in ("postgresql", "mysql") else connect
    with captured() as messages, mock.patch(FUNCTIONS[dialect], function):
        asyncio.run(conn.open())
    return calls, messages


def odbc(text):
    "Reads an ODBC connection string."

    values = {}
    while text:
        k = text.find("=")
        key = text[:k].strip().upper()
        text = text[k + 1 :].lstrip(" ")
        if text.startswith("{"):
            text = text[1:]
            value = ""
            while True:
                k = text.find("}")
                if k < 0:
                    return None
                value += text[:k]
                text = text[k + 1 :]
                if not text.startswith("}"):
                    break
                value += "}"
                text = text[1:]
            text = text.lstrip(" ")
            if text and not text.startswith(";"):
                return None
            text = text[1:]
        else:
            k = text.find(";")
            if k < 0:
                value, text = text, ""
            else:
                value, text = text[:k], text[k + 1 :]
            value = value.strip(" ")
        if key in values:
            return None
        values[key] = value
    return values


def check_arguments(S, dialect, params, args, kwargs):
    S.check(len(args) <= 1, "parameters are passed by name")
    if dialect == "mssql":
        values = odbc(args[0])
        if values is None:
            S.fail("the connection string is well-formed")
        server = params.host if params.port is None else f"{params.host},{params.port}"
        S.check(same(S, values.get("SERVER"), server), "the driver connects to the host and port")
        S.check(same(S, values.get("UID"), params.username), "the driver gets the user name")
        S.check(same(S, values.get("PWD"), params.password), "the driver gets the password")
        S.check(same(S, values.get("DATABASE"), params.database), "the driver gets the database")
        return
    if dialect == "oracle":
        port = 1521 if params.port is None else params.port
        S.check(S.eq(kwargs["dsn"], f"{params.host}:{port}/{params.database}"), "the driver connects to the host, port and database")
        S.check(same(S, kwargs["user"], params.username), "the driver gets the user name")
        S.check(same(S, kwargs["password"], params.password), "the driver gets the password")
        return
    S.check(same(S, kwargs["host"], params.host), "the driver connects to the host")
    if params.port is None and dialect == "mysql":
        S.check(S.eq(kwargs["port"], 3306), "the driver connects to the default port")
    else:
        S.check(same(S, kwargs["port"], params.port), "the driver connects to the port")
    user = "db_user" if dialect == "redshift" else "user"
    S.check(same(S, kwargs[user], params.username), "the driver gets the user name")
    if dialect == "trino":
        S.check(S.eq(kwargs["auth"]._username, params.username), "the driver gets the user name")
        S.check(S.eq(kwargs["auth"]._password, params.password), "the driver gets the password")
    elif dialect != "redshift":
        # Redshift uses an access token
        S.check(same(S, kwargs["password"], params.password), "the driver gets the password")
    database = {"mysql": "db", "trino": "catalog"}.get(dialect, "database")
    S.check(same(S, kwargs[database], params.database), "the driver gets the database")


@harness(
    "C18",
    params=grid(dialect=FUNCTIONS, part=PARTS, size=[2]),
    thorough=grid(dialect=FUNCTIONS, part=PARTS, size=[4]),
)
def driver(S, dialect, part, size):
    "The driver gets the parameters."

    if dialect == "oracle" and part == "database":
        alphabet = ((46, 46), (48, 57), (65, 90), (95, 95), (97, 122))
    else:
        alphabet = UNICODE
    host, username, password, database = "nhost.example.com", "nuser", "nword", "ndata"
    if part == "host":
        host = S.str("host", 1, size, HOST)
    elif part == "username":
        username = S.str("username", 1, size, alphabet)
    elif part == "password":
        password = S.str("password", 1, size, alphabet)
    else:
        database = S.str("database", 1, size, alphabet)
    port = None if S.bool("no port?") else S.int("port", 1, 65535)
    params = ConnectionParameters(host, port, username, password, database)
    calls, _ = opened(dialect, params)
    S.check(len(calls) == 1, "a single connection is made")
    for args, kwargs in calls:
        check_arguments(S, dialect, params, args, kwargs)


@harness("C18", params=grid(dialect=FUNCTIONS, size=[2]), thorough=grid(dialect=FUNCTIONS, size=[4]))
def logged(S, dialect, size):
    "Messages logged on connecting do not depend on the password."

    logs = []
    for name in ("password", "other"):
        params = ConnectionParameters("nhost", 1234, "nuser", S.str(name, 1, size, UNICODE), "ndata")
        logs.append(opened(dialect, params)[1])
    S.check(len(logs[0]) == len(logs[1]), "the messages logged do not depend on the password")
    for a, b in zip(*logs):
        S.check(S.eq(a, b), "the messages logged do not depend on the password")
