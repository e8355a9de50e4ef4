"""
A reference evaluator of the queries with which a database catalog is explored.

Queries are interpreted according to SQL semantics over tables given as lists of rows. Rows whose order is not
determined by the query are returned in any order.
"""

import dataclasses
import itertools
import typing

from .sql import tokenize

try:
    from symex.strings import has_symbols
except ImportError:  # a counterexample is replayed without the solver

    def has_symbols(text):
        return False



class QueryError(Exception):
    "The database refuses the query."


class Unsupported(BaseException):
    "The query has a construct that this module does not interpret."


KEYWORDS = {"FROM", "WHERE", "ORDER", "INNER", "JOIN", "LEFT", "CROSS", "ON", "AND", "OR", "AS", "ASC", "DESC", "WHEN", "THEN", "ELSE", "END", "LIKE", "NOT", "IN", "IS", "ESCAPE", "UNION", "GROUP"}


class Parser:
    def __init__(self, text, dialect):
        self.tokens = tokenize(text, dialect)
        self.pos = 0

    def peek(self, *values):
        for i, v in enumerate(values):
            if self.pos + i >= len(self.tokens):
                return False
            t = self.tokens[self.pos + i]
            if t.kind in ("str", "id") or t.value != v:
                return False
        return True

    def accept(self, *values):
        if self.peek(*values):
            self.pos += len(values)
            return True
        return False

    def expect(self, *values):
        if not self.accept(*values):
            raise Unsupported(f"expected {values} at {self.tokens[self.pos:self.pos + 4]}")

    def next(self):
        if self.pos >= len(self.tokens):
            raise Unsupported("unexpected end of query")
        t = self.tokens[self.pos]
        self.pos += 1
        return t

    def name(self):
        t = self.next()
        if t.kind == "word":
            return t.value.lower()
        if t.kind == "id":
            return str(t.value).lower()
        raise Unsupported(f"expected a name, found {t}")

    def dotted(self):
        name = self.name()
        while self.accept("."):
            name = name + "." + self.name()
        return name

    def query(self):
        self.expect("SELECT")
        distinct = self.accept("DISTINCT")
        items = []
        while True:
            e = self.expr()
            alias = None
            if self.accept("AS"):
                alias = self.name()
            elif self.pos < len(self.tokens) and self.tokens[self.pos].kind == "word" and self.tokens[self.pos].value not in KEYWORDS:
                alias = self.name()
            elif e[0] == "name":
                alias = e[1].split(".")[-1]
            items.append((e, alias))
            if not self.accept(","):
                break
        sources = []
        if self.accept("FROM"):
            sources.append(("from", self.source(), None))
        while sources:
            if self.accept("INNER", "JOIN") or self.accept("JOIN"):
                source = self.source()
                self.expect("ON")
                sources.append(("inner", source, self.expr()))
            elif self.accept("LEFT", "OUTER", "JOIN") or self.accept("LEFT", "JOIN"):
                source = self.source()
                self.expect("ON")
                sources.append(("left", source, self.expr()))
            elif self.accept("CROSS", "JOIN"):
                sources.append(("inner", self.source(), None))
            elif self.accept(","):
                sources.append(("inner", self.source(), None))
            else:
                break
        where = self.expr() if self.accept("WHERE") else None
        order = []
        if self.accept("ORDER", "BY"):
            while True:
                e = self.expr()
                descending = False
                if self.accept("DESC"):
                    descending = True
                else:
                    self.accept("ASC")
                order.append((e, descending))
                if not self.accept(","):
                    break
        return {"items": items, "sources": sources, "where": where, "order": order, "distinct": distinct}

    def source(self):
        if self.accept("("):
            q = self.query()
            self.expect(")")
            self.accept("AS")
            return ("query", q, self.name())
        if self.accept("UNNEST", "("):
            args = [self.expr()]
            while self.accept(","):
                args.append(self.expr())
            self.expect(")")
            ordinality = self.accept("WITH", "ORDINALITY")
            self.accept("AS")
            alias = self.name()
            self.expect("(")
            columns = [self.name()]
            while self.accept(","):
                columns.append(self.name())
            self.expect(")")
            return ("unnest", args, alias, columns, ordinality)
        table = self.dotted()
        if self.accept("AS"):
            alias = self.name()
        elif self.pos < len(self.tokens) and self.tokens[self.pos].kind == "word" and self.tokens[self.pos].value not in KEYWORDS:
            alias = self.name()
        else:
            alias = table.split(".")[-1]
        return ("table", table, alias)

    def expr(self):
        e = self.conjunction()
        while self.accept("OR"):
            e = ("or", e, self.conjunction())
        return e

    def conjunction(self):
        e = self.negation()
        while self.accept("AND"):
            e = ("and", e, self.negation())
        return e

    def negation(self):
        if self.accept("NOT"):
            return ("not", self.negation())
        return self.comparison()

    def comparison(self):
        e = self.primary()
        while True:
            if self.accept("!", "=") or self.accept("<", ">"):
                e = ("not", ("=", e, self.primary()))
            elif self.accept("="):
                e = ("=", e, self.primary())
            elif self.accept("<", "="):
                e = ("<=", e, self.primary())
            elif self.accept(">", "="):
                e = (">=", e, self.primary())
            elif self.accept("<"):
                e = ("<", e, self.primary())
            elif self.accept(">"):
                e = (">", e, self.primary())
            elif self.accept("IS", "NOT", "NULL"):
                e = ("not", ("isnull", e))
            elif self.accept("IS", "NULL"):
                e = ("isnull", e)
            elif self.peek("LIKE") or self.peek("NOT", "LIKE"):
                negated = self.accept("NOT")
                self.expect("LIKE")
                pattern = self.primary()
                escape = self.primary() if self.accept("ESCAPE") else ("const", None)
                e = ("like", e, pattern, escape)
                if negated:
                    e = ("not", e)
            elif self.peek("IN") or self.peek("NOT", "IN"):
                negated = self.accept("NOT")
                self.expect("IN")
                self.expect("(")
                values = [self.expr()]
                while self.accept(","):
                    values.append(self.expr())
                self.expect(")")
                e = ("in", e, values)
                if negated:
                    e = ("not", e)
            else:
                return e

    def primary(self):
        if self.accept("("):
            e = self.expr()
            self.expect(")")
            return e
        if self.accept("CASE"):
            branches = []
            while self.accept("WHEN"):
                cond = self.expr()
                self.expect("THEN")
                branches.append((cond, self.expr()))
            otherwise = self.expr() if self.accept("ELSE") else ("const", None)
            self.expect("END")
            return ("case", branches, otherwise)
        if self.accept("NULL"):
            return ("const", None)
        if self.accept("TRUE"):
            return ("const", True)
        if self.accept("FALSE"):
            return ("const", False)
        if self.accept("*"):
            return ("const", 1)
        t = self.next()
        if t.kind == "str":
            return ("const", t.value)
        if t.kind == "num":
            return ("const", int(t.value))
        self.pos -= 1
        name = self.dotted()
        if self.accept("("):
            args = []
            if not self.accept(")"):
                args.append(self.expr())
                while self.accept(","):
                    args.append(self.expr())
                self.expect(")")
            return ("call", name, args)
        return ("name", name)


def like(text, pattern, escape):
    "Matches a text to a LIKE pattern."

    items = []
    i = 0
    while i < len(pattern):
        ch = pattern[i]
        if escape is not None and ch == escape:
            items.append(("char", pattern[i + 1]))
            i += 2
            continue
        if ch == "%":
            items.append(("any", None))
        elif ch == "_":
            items.append(("one", None))
        else:
            items.append(("char", ch))
        i += 1

    def match(i, j):
        if j == len(items):
            return i == len(text)
        kind, ch = items[j]
        if kind == "any":
            for k in range(i, len(text) + 1):
                if match(k, j + 1):
                    return True
            return False
        if i >= len(text):
            return False
        if kind == "char" and not (text[i] == ch):
            return False
        return match(i + 1, j + 1)

    return match(0, 0)


_QUERIES = {}


def parse(text, dialect):
    "Parses a query; a query without symbolic characters is parsed once."

    key = (dialect, text) if not has_symbols(text) else None
    if key is not None and key in _QUERIES:
        return _QUERIES[key]
    p = Parser(text, dialect)
    q = p.query()
    p.accept(";")
    if p.pos != len(p.tokens):
        raise Unsupported(f"unexpected text at end of query: {p.tokens[p.pos:p.pos + 4]}")
    if key is not None:
        if len(_QUERIES) > 5000:
            _QUERIES.clear()
        _QUERIES[key] = q
    return q


class Evaluator:
    def __init__(self, S, tables, functions, dialect):
        self.S = S
        self.tables = tables
        self.functions = functions
        self.dialect = dialect
        self.queries = 0
        # whether rows whose order is not determined come in a particular order
        self.reverse = None
        self.indices = {}
        self.parts = {}

    def run(self, text):
        "Returns column names, and rows in one of the orders that the query permits."
        q = parse(text, self.dialect)
        self.queries += 1
        return self.select(q, top=True)

    def __call__(self, text):
        try:
            return self.run(text)
        except Unsupported as ex:
            self.S.inconclusive(f"query is not interpreted: {ex}")

    def select(self, q, top=False):
        envs = [{}]
        for kind, source, cond in q["sources"]:
            envs = self.join(envs, kind, source, cond)
        if q["where"] is not None:
            envs = [env for env in envs if self.truth(q["where"], env)]
        names = [alias for _, alias in q["items"]]
        if any(e[0] == "call" and e[1] == "count" for e, _ in q["items"]):
            row = []
            for e, _ in q["items"]:
                values = [self.value(e[2][0], env) for env in envs]
                row.append(len([v for v in values if v is not None]))
            return names, [tuple(row)]
        rows = []
        for env in envs:
            values = tuple(self.value(e, env) for e, _ in q["items"])
            scope = dict(env)
            scope[None] = dict(zip(names, values))
            rows.append(([self.value(e, scope) for e, _ in q["order"]], values))
        if top:
            rows = self.arrange(rows, [d for _, d in q["order"]])
        return names, [values for _, values in rows]

    def arrange(self, rows, directions):
        "Sorts rows; rows with equal keys are in arbitrary order."

        if len(rows) > 1 and self.reverse is not None:
            return self.sort(rows[::-1] if self.reverse else rows, directions)
        if len(rows) > 1:
            label = f"order{self.queries}"
            if len(rows) <= 3:
                orders = list(itertools.permutations(range(len(rows))))
            else:
                n = len(rows)
                orders = [tuple(range(n)), tuple(reversed(range(n))), tuple(range(0, n, 2)) + tuple(range(1, n, 2))]
            # permutations that sorting undoes are the same
            seen = {}
            for o in orders:
                result = self.sort([rows[i] + (i,) for i in o], directions)
                seen.setdefault(tuple(r[2] for r in result), result)
            rows = self.S.choose(label, list(seen.values())) if len(seen) > 1 else next(iter(seen.values()))
            rows = [r[:2] for r in rows]
        return rows

    def sort(self, rows, directions):
        for i, descending in reversed(list(enumerate(directions))):
            rows = sorted(rows, key=lambda r: (r[0][i] is None, r[0][i]), reverse=descending)
        return rows

    def join(self, envs, kind, source, cond):
        out = []
        found = None
        if source[0] == "table":
            rows = self.tables.get(source[1])
            if rows is None:
                raise QueryError(f"no such table: {source[1]}")
            alias = source[2]
            if cond is not None and len(rows) > 4:
                found = self.index(rows, alias, cond)
        elif source[0] == "query":
            names, values = self.select(source[1])
            alias, rows = source[2], [dict(zip(names, v)) for v in values]
        for env in envs:
            matched = False
            if source[0] == "unnest":
                _, args, alias, columns, ordinality = source
                arrays = [self.value(a, env) or [] for a in args]
                rows = []
                for i in range(max(len(a) for a in arrays)):
                    values = [a[i] if i < len(a) else None for a in arrays]
                    if ordinality:
                        values.append(i + 1)
                    rows.append(dict(zip(columns, values)))
            if alias in env:
                raise QueryError(f"alias is defined twice: {alias}")
            candidates = rows
            if found is not None:
                other, by_value = found
                value = self.value(other, env)
                if type(value) is int:
                    # names in the condition are resolved even if there is no such row
                    candidates = by_value.get(value) or rows[:1]
            for row in candidates:
                new = dict(env)
                new[alias] = row
                if cond is None or self.truth(cond, new):
                    out.append(new)
                    matched = True
            if kind == "left" and not matched:
                new = dict(env)
                new[alias] = None
                out.append(new)
        return out

    def index(self, rows, alias, cond):
        "Finds rows by a number that a condition compares."

        while cond[0] == "and":
            found = self.index(rows, alias, cond[2])
            if found is not None:
                return found
            cond = cond[1]
        if cond[0] != "=":
            return None
        for own, other in ((cond[1], cond[2]), (cond[2], cond[1])):
            if own[0] != "name" or other[0] != "name" or not own[1].startswith(alias + ".") or "." not in other[1] or other[1].startswith(alias + "."):
                continue
            name = own[1][len(alias) + 1 :]
            key = (id(rows), name)
            if key not in self.indices:
                by_value = {}
                for row in rows:
                    value = row.get(name)
                    if type(value) is not int:
                        by_value = None
                        break
                    by_value.setdefault(value, []).append(row)
                self.indices[key] = by_value
            if self.indices[key] is not None:
                return other, self.indices[key]
        return None

    def truth(self, e, env):
        v = self.value(e, env)
        return v is not None and bool(v)

    def value(self, e, env):
        op = e[0]
        if op == "const":
            return e[1]
        if op == "name":
            return self.lookup(e[1], env)
        if op == "and":
            left = self.value(e[1], env)
            if left is not None and not left:
                return False
            right = self.value(e[2], env)
            if right is not None and not right:
                return False
            return None if left is None or right is None else True
        if op == "or":
            left = self.value(e[1], env)
            if left is not None and left:
                return True
            right = self.value(e[2], env)
            if right is not None and right:
                return True
            return None if left is None or right is None else False
        if op == "not":
            v = self.value(e[1], env)
            return None if v is None else not v
        if op == "isnull":
            return self.value(e[1], env) is None
        if op in ("=", "<", "<=", ">", ">="):
            left = self.value(e[1], env)
            right = self.value(e[2], env)
            if left is None or right is None:
                return None
            if op == "=":
                return bool(left == right)
            if op == "<":
                return left < right
            if op == "<=":
                return left <= right
            if op == ">":
                return left > right
            return left >= right
        if op == "in":
            left = self.value(e[1], env)
            if left is None:
                return None
            for item in e[2]:
                v = self.value(item, env)
                if isinstance(left, bytes) and isinstance(v, str):
                    # the internal type "char" of PostgreSQL
                    v = v.encode()
                if v == left:
                    return True
            return False
        if op == "like":
            left = self.value(e[1], env)
            if left is None:
                return None
            return like(left, self.value(e[2], env), self.value(e[3], env))
        if op == "case":
            for cond, result in e[1]:
                if self.truth(cond, env):
                    return self.value(result, env)
            return self.value(e[2], env)
        if op == "call":
            fn = self.functions.get(e[1])
            if fn is None:
                raise Unsupported(f"no such function: {e[1]}")
            return fn(*[self.value(a, env) for a in e[2]])
        raise Unsupported(f"unsupported expression: {op}")

    def lookup(self, name, env):
        parts = self.parts.get(name)
        if parts is None:
            parts = self.parts[name] = name.split(".")
        if len(parts) == 2:
            if parts[0] not in env:
                raise QueryError(f"no such alias: {parts[0]}")
            row = env[parts[0]]
            if row is None:
                return None
            if parts[1] not in row:
                raise QueryError(f"no such column: {name}")
            return row[parts[1]]
        found = [row for alias, row in env.items() if alias is not None and row is not None and name in row]
        if len(found) == 1:
            return found[0][name]
        if None in env and name in env[None]:
            return env[None][name]
        if found:
            raise QueryError(f"ambiguous column: {name}")
        if any(row is None for row in env.values()):
            return None
        raise QueryError(f"no such column: {name}")


def deliver(signature, names, rows):
    "Converts rows to the type that the caller asks for."

    if dataclasses.is_dataclass(signature):
        fields = [f.name for f in dataclasses.fields(signature)]
        out = []
        for row in rows:
            values = dict(zip(names, row))
            for f in fields:
                if f not in values:
                    raise QueryError(f"no such column in the result: {f}")
            out.append(signature(**{f: values[f] for f in fields}))
        return out
    if typing.get_origin(signature) is tuple:
        return [tuple(row) for row in rows]
    for row in rows:
        if len(row) != 1:
            raise QueryError("a single column is expected")
    return [row[0] for row in rows]
