"Reference lexical rules of the SQL dialects."

from typing import Optional


class LexError(Exception):
    pass


def read_delimited(sql: str, pos: int, delimiter: str, backslash: Optional[dict] = None):
    """
    Reads a token enclosed in a delimiter, in which a doubled delimiter stands for itself.

    :param backslash: Maps the character after a backslash to its meaning; None if a backslash is an ordinary character.
    :returns: The text that the token stands for, and the position that follows it.
    """

    if pos >= len(sql) or sql[pos] != delimiter:
        raise LexError("opening delimiter expected")
    pos += 1
    out = []
    while True:
        if pos >= len(sql):
            raise LexError("unterminated token")
        ch = sql[pos]
        if ch == delimiter:
            if pos + 1 < len(sql) and sql[pos + 1] == delimiter:
                out.append(delimiter)
                pos += 2
                continue
            return "".join(out), pos + 1
        if backslash is not None and ch == "\\":
            if pos + 1 >= len(sql):
                raise LexError("unterminated token")
            nxt = sql[pos + 1]
            found = False
            for k, v in backslash.items():
                if nxt == k:
                    out.append(v)
                    found = True
                    break
            if not found:
                out.append(nxt)
            pos += 2
            continue
        out.append(ch)
        pos += 1


# PostgreSQL, https://www.postgresql.org/docs/current/sql-syntax-lexical.html#SQL-SYNTAX-STRINGS-ESCAPE
PG_ESCAPES = {"b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}
# MySQL, https://dev.mysql.com/doc/refman/8.0/en/string-literals.html
MYSQL_ESCAPES = {"0": "\0", "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a", "%": "\\%", "_": "\\_"}
# Snowflake, https://docs.snowflake.com/en/sql-reference/data-types-text#escape-sequences-in-single-quoted-string-constants
SNOWFLAKE_ESCAPES = {"0": "\0", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}
# Spark, https://spark.apache.org/docs/latest/sql-ref-literals.html
DELTA_ESCAPES = {"0": "\0", "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a", "%": "\\%", "_": "\\_"}


def read_literal(sql: str, pos: int, dialect: str):
    "Reads a string literal."

    if dialect in ("postgresql", "redshift"):
        if pos < len(sql) and sql[pos] == "E":
            return read_delimited(sql, pos + 1, "'", PG_ESCAPES)
        return read_delimited(sql, pos, "'")
    if dialect == "mysql":
        return read_delimited(sql, pos, "'", MYSQL_ESCAPES)
    if dialect == "snowflake":
        return read_delimited(sql, pos, "'", SNOWFLAKE_ESCAPES)
    if dialect == "delta":
        return read_delimited(sql, pos, "'", DELTA_ESCAPES)
    if dialect == "mssql":
        if pos < len(sql) and sql[pos] == "N":
            pos += 1
        return read_delimited(sql, pos, "'")
    return read_delimited(sql, pos, "'")


def unquote_literal(sql: str, dialect: str) -> str:
    "The text of a string literal that spans an entire expression."

    text, end = read_literal(sql, 0, dialect)
    if end != len(sql):
        raise LexError("text follows the literal")
    return text


def like_matches_exactly(pattern: str, escape: str, text: str) -> bool:
    "Whether a LIKE pattern matches the given text and nothing else."

    out = []
    i = 0
    while i < len(pattern):
        ch = pattern[i]
        if ch == escape:
            if i + 1 >= len(pattern):
                return False
            out.append(pattern[i + 1])
            i += 2
        elif ch == "_" or ch == "%":
            return False
        else:
            out.append(ch)
            i += 1
    return "".join(out) == text
