"The TLS mode is enforced, whatever becomes of each connection attempt."

import asyncio
import ssl
import types
from unittest import mock

import asyncpg
import pymysql
from pymysql.constants import CLIENT

from pysqlsync.base import GeneratorOptions
from pysqlsync.connection import ConnectionParameters, ConnectionSSLMode, create_context

from symex.api import grid, harness

from .c18_parameters import FUNCTIONS, AnyCursor, odbc
from .common import engine

MODES = list(ConnectionSSLMode)
STRICT = ("require", "verify-ca", "verify-full")
ALL = [None, *(m.value for m in MODES)]


def mode_of(text):
    return None if text is None else ConnectionSSLMode(text)


class Attempt:
    "What a driver is asked to do. A connection without encryption may be attempted if a server refuses `encrypted`."

    def __init__(self, encrypted, fallback=False, verified=False, host_verified=False):
        self.encrypted = encrypted
        self.fallback = fallback
        self.verified = verified
        self.host_verified = host_verified


def of_context(ctx, fallback=False):
    verified = ctx.verify_mode == ssl.CERT_REQUIRED
    return Attempt(True, fallback, verified, verified and ctx.check_hostname)


def attempt_of(dialect, args, kwargs):
    if dialect == "postgresql":
        # see `asyncpg.connect_utils`
        value = kwargs.get("ssl")
        if value is None or value == "prefer":
            return Attempt(True, True)
        if value is False or value == "disable":
            return Attempt(False)
        if value is True:
            return Attempt(True, False, True, True)
        if value == "allow":
            return Attempt(False, True)
        if value == "require":
            return Attempt(True)
        if value in ("verify-ca", "verify-full"):
            return Attempt(True, False, True, value == "verify-full")
        return of_context(value)
    if dialect == "mysql":
        value = kwargs.get("ssl")
        return of_context(value, True) if value else Attempt(False)
    if dialect == "mssql":
        values = odbc(args[0])
        encrypted = values.get("ENCRYPT", "yes") in ("yes", "mandatory", "strict")
        verified = values.get("TRUSTSERVERCERTIFICATE", "no") == "no"
        return Attempt(encrypted, False, verified, verified)
    if dialect == "oracle":
        secure = kwargs["dsn"].startswith("tcps://")
        return Attempt(secure, False, secure, secure and kwargs.get("ssl_server_dn_match", True))
    if dialect == "redshift":
        if kwargs.get("ssl") is False:
            return Attempt(False)
        return Attempt(True, False, True, kwargs.get("sslmode") != "verify-ca")
    if dialect == "trino":
        secure = kwargs["http_scheme"] == "https"
        verified = secure and kwargs.get("verify", True) is not False
        return Attempt(secure, False, verified, verified)
    raise NotImplementedError(dialect)


class Refused(Exception):
    pass


# errors because of the use, or the lack of use of encryption; and others
TLS_ERRORS = {
    "postgresql": [
        lambda: ConnectionError("rejected SSL upgrade"),
        lambda: ConnectionResetError("connection reset"),
        lambda: ssl.SSLError(1, "handshake failure"),
        lambda: asyncpg.InvalidAuthorizationSpecificationError("no pg_hba.conf entry"),
    ],
    "mysql": [
        lambda: pymysql.err.OperationalError(2003, "can't connect"),
        lambda: pymysql.err.OperationalError(3159, "insecure transport prohibited"),
    ],
}
OTHER_ERRORS = {
    "postgresql": [
        lambda: asyncpg.InvalidPasswordError("password"),
        lambda: asyncpg.InvalidCatalogNameError("database"),
        lambda: asyncpg.TooManyConnectionsError("too many"),
        lambda: TimeoutError("timeout"),
        lambda: Refused("other"),
    ],
    "mysql": [
        lambda: pymysql.err.OperationalError(1045, "access denied"),
        lambda: pymysql.err.ProgrammingError(1049, "no such database"),
        lambda: Refused("other"),
    ],
}


class Server:
    "A server whose behaviour is symbolic."

    def __init__(self, S, dialect):
        self.S = S
        self.dialect = dialect
        self.attempts = []
        self.errors = []
        self.connections = []

    def connect(self, *args, **kwargs):
        S = self.S
        attempt = attempt_of(self.dialect, args, kwargs)
        k = len(self.attempts)
        self.attempts.append(attempt)
        if k >= 3:
            # endless attempts
            raise Refused()
        tls_errors = TLS_ERRORS.get(self.dialect, [])
        errors = tls_errors + OTHER_ERRORS.get(self.dialect, [lambda: Refused("other")])
        outcome = S.int(f"outcome{k}", 0, len(errors))
        for i, make in enumerate(errors):
            if outcome == i:
                error = make()
                self.errors.append((error, i < len(tls_errors)))
                raise error
        conn = Connection(attempt)
        conn.encrypted = attempt.encrypted
        if self.dialect == "mysql":
            # see `Connection._request_authentication` in `aiomysql`
            offered = S.bool(f"offered{k}")
            if offered:
                conn.server_capabilities = CLIENT.SSL
            else:
                conn.server_capabilities = 0
                conn.encrypted = False
        elif self.dialect == "postgresql" and attempt.fallback:
            conn.encrypted = S.bool(f"encrypted{k}")
        self.connections.append(conn)
        return conn


class Connection:
    autocommit = False

    def __init__(self, attempt):
        self.attempt = attempt
        self.closed = False

    def close(self):
        self.closed = True

    def cursor(self):
        return AnyCursor()

    def get_server_version(self):
        return types.SimpleNamespace(major=16, minor=0, micro=0, releaselevel="final")


def run(S, dialect, mode):
    server = Server(S, dialect)

    async def async_connect(*args, **kwargs):
        return server.connect(*args, **kwargs)

    function = async_connect if dialect in ("postgresql", "mysql") else server.connect
    params = ConnectionParameters("nhost", None, "nuser", "nword", "ndata", mode_of(mode))
    conn = engine(dialect).create_connection(params, GeneratorOptions())
    error = None
    with mock.patch(FUNCTIONS[dialect], function):
        try:
            asyncio.run(conn.open())
        except Exception as e:
            error = e
    return server, None if error is not None else conn.native, error


@harness("C19", params=grid(dialect=FUNCTIONS, mode=ALL))
def enforced(S, dialect, mode):
    "No connection is established in violation of the mode."

    if mode in STRICT:
        S.known("oracle-plain", dialect == "oracle")
    if mode == "disable":
        S.known("redshift-encrypted", dialect == "redshift")
        S.known("trino-encrypted", dialect == "trino")
    server, native, error = run(S, dialect, mode)
    S.check(len(server.attempts) > 0, "a connection is attempted")
    for a in server.attempts:
        if mode in STRICT:
            S.check(a.encrypted, "no attempt is made without encryption if it is required")
            if dialect == "postgresql":
                S.check(not a.fallback, "the driver does not revert to a connection without encryption")
        if mode == "verify-ca" or mode == "verify-full":
            S.check(a.verified, "certificates are verified")
        if mode == "verify-full":
            S.check(a.host_verified, "the host name is verified")
        if mode == "disable":
            S.check(not a.encrypted and not a.fallback, "no attempt is made with encryption if it is disabled")
    if native is not None:
        S.check(native in server.connections, "the connection is the one established")
        S.check(not native.closed, "the connection delivered is open")
        if mode in STRICT:
            S.check(native.encrypted, "a connection delivered is encrypted if it is required")
        S.check(len(server.attempts) == 1 + len(server.errors), "no further connection is made once one is established")
    else:
        S.check(
            len(server.errors) > 0 or mode in STRICT and any(not c.encrypted for c in server.connections),
            "a connection that has been established is delivered",
        )
    for c in server.connections:
        S.check(c is native or c.closed, "connections not delivered are closed")
    S.check(len(server.attempts) <= 2, "each mode is attempted at most once")
    if mode not in ("prefer", "allow"):
        S.check(len(server.attempts) <= 1, "a single attempt is made if there is no choice")


@harness("C19", params=grid(dialect=["postgresql", "mysql"], mode=["prefer", "allow"]))
def order(S, dialect, mode):
    "Attempts are made with and without encryption in the order documented."

    server, native, error = run(S, dialect, mode)
    first = mode == "prefer"
    S.check(server.attempts[0].encrypted == first, "the preferred attempt is first")
    if dialect == "postgresql" and first is False:
        S.check(not server.attempts[0].fallback, "the first attempt is made without encryption only")
    for a in server.attempts[1:]:
        S.check(a.encrypted != first, "the second attempt is the other")
    if server.errors:
        _, related = server.errors[0]
        if related:
            S.check(len(server.attempts) == 2, "the second attempt is made if the first is refused")
    if len(server.errors) == len(server.attempts):
        S.check(error is not None, "failure of all attempts is reported")
        S.check(any(error is e for e, _ in server.errors), "the error reported is that of an attempt")
    else:
        S.check(error is None, "success of an attempt is reported")


@harness("C19", params=[{}])
def contexts(S):
    "Security contexts for each mode."

    mode = S.choose("mode", MODES)
    ctx = create_context(mode)
    if mode is ConnectionSSLMode.disable:
        S.check(ctx is None, "there is no context if encryption is disabled")
        return
    S.check(ctx is not None, "there is a context if encryption is possible")
    full = mode is ConnectionSSLMode.verify_full
    verified = full or mode is ConnectionSSLMode.verify_ca
    S.check(ctx.verify_mode == (ssl.CERT_REQUIRED if verified else ssl.CERT_NONE), "certificates are verified if asked for")
    S.check(ctx.check_hostname == full, "host names are verified if asked for")
