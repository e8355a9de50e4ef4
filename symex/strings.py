"""
Symbolic strings.

A symbolic string has a concrete length on each path; its symbolic characters are private-use code points (plane 15) that
stand for SMT terms, and whole numbers are rendered as plane-16 code points. Concatenation, slicing and formatting are native;
every operation that inspects content is overridden and branches through the solver.
"""

import functools

import z3

from . import engine
from .engine import (
    CHAR_BASE,
    CHAR_LIMIT,
    TOK_BASE,
    Inconclusive,
    SymBool,
    SymInt,
    current,
    mkbool,
    mkint,
)

# ---------------------------------------------------------------------------------------------------------------------
# character classes: sorted tuples of disjoint closed intervals


def cls_norm(intervals):
    out = []
    for lo, hi in sorted(intervals):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return tuple(out)


@functools.lru_cache(maxsize=100000)
def cls_and(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


@functools.lru_cache(maxsize=100000)
def cls_not(a):
    out = []
    lo = 0
    for s, e in a:
        if s > lo:
            out.append((lo, s - 1))
        lo = e + 1
    if lo <= 0x10FFFF:
        out.append((lo, 0x10FFFF))
    return tuple(out)


def cls_minus(a, b):
    return cls_and(a, cls_not(b))


def cls_or(*cs):
    return cls_norm([i for c in cs for i in c])


def cls_of(chars):
    return cls_norm([(ord(c), ord(c)) for c in chars])


def cls_has(cls, code):
    for lo, hi in cls:
        if lo <= code <= hi:
            return True
    return False


@functools.lru_cache(maxsize=None)
def cls_pred(name):
    "The class of all characters for which a predicate of `str` holds."
    if name == "isword":
        pred = lambda c: c.isalnum() or c == "_"  # noqa: E731
    else:
        pred = getattr(str, name)
    out = []
    start = None
    for code in range(0, 0xF0000):
        v = pred(chr(code))
        if v and start is None:
            start = code
        elif not v and start is not None:
            out.append((start, code - 1))
            start = None
    if start is not None:
        out.append((start, 0xEFFFF))
    return tuple(out)


# every code point except surrogates and planes 15 and 16, which the encoding reserves
UNICODE = ((0, 0xD7FF), (0xE000, 0xEFFFF))
ASCII = ((0, 0x7F),)
DIGITS = ((48, 57),)
IDENT_START = cls_norm([(65, 90), (97, 122), (95, 95)])
LOWER = ((97, 122),)


def cls_expr(e, cls):
    ors = []
    for lo, hi in cls:
        if lo == hi:
            ors.append(e == lo)
        else:
            ors.append(z3.And(e >= lo, e <= hi))
    if not ors:
        return z3.BoolVal(False)
    return z3.Or(*ors) if len(ors) > 1 else ors[0]


# ---------------------------------------------------------------------------------------------------------------------


def has_symbols(s):
    if str.isascii(s):
        return False
    return max(str.__iter__(s)) >= "\U000f0000"


def wrap(v):
    "Makes sure a native string that holds symbolic characters has symbolic behaviour."
    if type(v) is str and not v.isascii() and max(v) >= "\U000f0000":
        return SymStr(v)
    return v


def atom(ch):
    code = ord(ch)
    if code < CHAR_BASE:
        return code
    path = current()
    if path is None:
        raise Inconclusive("symbolic string used outside of a path")
    if code <= CHAR_LIMIT:
        return path.chars[code - CHAR_BASE]
    return path.toks[code - TOK_BASE]


def atoms(s):
    return [atom(ch) for ch in str.__iter__(s)]


def atom_text(a):
    if isinstance(a, int):
        return chr(a)
    if isinstance(a, engine.Char):
        return chr(CHAR_BASE + a.index)
    return chr(TOK_BASE + a.index)


def from_atoms(al):
    return wrap("".join(atom_text(a) for a in al))


def atom_expr(a):
    return a if isinstance(a, int) else a.expr


def atom_dom(a):
    if isinstance(a, int):
        return ((a, a),)
    if isinstance(a, engine.Char):
        return a.dom
    return DIGITS


def atom_in(a, cls):
    "Branches on whether a character belongs to a class."
    if isinstance(a, int):
        return cls_has(cls, a)
    if isinstance(a, engine.Tok):
        inter = cls_and(DIGITS, cls)
        if inter == DIGITS:
            return True
        if not inter:
            return False
        raise Inconclusive("digit inspected within the rendering of a symbolic integer")
    inter = cls_and(a.dom, cls)
    if not inter:
        return False
    if inter == a.dom:
        return True
    rest = cls_minus(a.dom, cls)
    if len(rest) < len(inter):
        r = not current().decide(cls_expr(a.expr, rest))
    else:
        r = current().decide(cls_expr(a.expr, inter))
    a.dom = inter if r else rest
    return r


def atom_eq_expr(a, b):
    "A term (or Python boolean) for the equality of two characters, neither of which is a number."
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if a is b:
        return True
    if isinstance(a, engine.Char) and isinstance(b, engine.Char) and a.expr.eq(b.expr):
        return True
    if not cls_and(atom_dom(a), atom_dom(b)):
        return False
    return atom_expr(a) == atom_expr(b)


def atom_eq(a, b):
    "Branches on the equality of two characters."
    if isinstance(a, engine.Tok) or isinstance(b, engine.Tok):
        if isinstance(a, engine.Tok) and isinstance(b, engine.Tok):
            return current().decide(a.expr == b.expr)
        other = b if isinstance(a, engine.Tok) else a
        if not atom_in(other, DIGITS):
            return False
        raise Inconclusive("digit compared with the rendering of a symbolic integer")
    if isinstance(b, int):
        return atom_in(a, ((b, b),))
    if isinstance(a, int):
        return atom_in(b, ((a, a),))
    return current().decide(atom_eq_expr(a, b))


def is_digit(a):
    return atom_in(a, DIGITS)


def atoms_eq(x, y):
    "A boolean (possibly symbolic) for the equality of two sequences of characters."
    xt = [i for i, a in enumerate(x) if isinstance(a, engine.Tok)]
    yt = [i for i, a in enumerate(y) if isinstance(a, engine.Tok)]
    if not xt and not yt:
        if len(x) != len(y):
            return False
        es = []
        for a, b in zip(x, y):
            e = atom_eq_expr(a, b)
            if e is False:
                return False
            if e is not True:
                es.append(e)
        if not es:
            return True
        return mkbool(z3.And(*es) if len(es) > 1 else es[0])
    if xt == yt and len(x) == len(y):
        es = []
        aligned = True
        for i, (a, b) in enumerate(zip(x, y)):
            if isinstance(a, engine.Tok):
                es.append(a.expr == b.expr)
                # numbers must not touch other characters that may be digits
                for z in (x, y):
                    for j in (i - 1, i + 1):
                        if 0 <= j < len(z) and cls_and(atom_dom(z[j]), DIGITS):
                            aligned = False
            else:
                e = atom_eq_expr(a, b)
                if e is False:
                    if aligned:
                        return False
                    e = z3.BoolVal(False)
                if e is not True:
                    es.append(e)
        if aligned:
            return mkbool(z3.And(*es)) if es else True
    # general case: branch while walking both sequences
    i = j = 0
    es = []
    while i < len(x) and j < len(y):
        a, b = x[i], y[j]
        at, bt = isinstance(a, engine.Tok), isinstance(b, engine.Tok)
        if not at and not bt:
            if not atom_eq(a, b):
                return False
            i += 1
            j += 1
            continue
        ni, va = _number(x, i)
        nj, vb = _number(y, j)
        if va is None or vb is None:
            return False
        es.append(va == vb if not (isinstance(va, int) and isinstance(vb, int)) else z3.BoolVal(va == vb))
        i, j = ni, nj
    if i < len(x) or j < len(y):
        return False
    return mkbool(z3.And(*es)) if es else True


def _number(x, i):
    "Parses a canonical number at a position."
    if isinstance(x[i], engine.Tok):
        if i + 1 < len(x) and is_digit(x[i + 1]):
            raise Inconclusive("adjacent numbers")
        return i + 1, x[i].expr
    j = i
    v = 0
    while j < len(x) and not isinstance(x[j], engine.Tok) and is_digit(x[j]):
        d = atom_expr(x[j])
        v = v * 10 + (d - 48)
        j += 1
    if j == i:
        return i, None
    if j < len(x) and isinstance(x[j], engine.Tok):
        raise Inconclusive("adjacent numbers")
    if j - i > 1 and atom_eq(x[i], 48):
        return i, None
    return j, v


def text_of(v):
    "Atoms of any string."
    if type(v) is str and v.isascii():
        return [ord(c) for c in v]
    return atoms(v)


SYM_HASH = 0x5EED


def match_at(al, i, sub):
    if i + len(sub) > len(al):
        return False
    if len(sub) == 1:
        return atom_eq(al[i], sub[0])
    seg = al[i : i + len(sub)]
    return bool(atoms_eq(seg, sub))


def find_from(al, sub, start, end=None):
    if end is None:
        end = len(al)
    i = start
    while i + len(sub) <= end:
        if match_at(al, i, sub):
            return i
        i += 1
    return -1


def rfind_from(al, sub, start, end):
    i = end - len(sub)
    while i >= start:
        if match_at(al, i, sub):
            return i
        i -= 1
    return -1


WS = None


def ws_cls():
    return cls_pred("isspace")


def realise(s):
    "Fixes the symbolic content of a string to one value (other values are not explored on this path)."
    if not isinstance(s, str) or not has_symbols(s):
        return str.__str__(s) if type(s) is SymStr else s
    path = current()
    path.stats.realised += 1
    path.stats.note("string content fixed to one value")
    out = []
    for a in atoms(s):
        if isinstance(a, int):
            out.append(chr(a))
        elif isinstance(a, engine.Char):
            out.append(chr(path.pin(a.expr)))
        else:
            out.append(str(path.pin(a.expr)))
    return "".join(out)


def _slice_bounds(n, start, end):
    return slice(
        None if start is None else int(start), None if end is None else int(end)
    ).indices(n)[:2]


def lower_atom(a):
    return _case_atom(a, "lower")


def upper_atom(a):
    return _case_atom(a, "upper")


@functools.lru_cache(maxsize=None)
def _case_fixed(which):
    out = []
    start = None
    f = getattr(str, which)
    for code in range(0, 0xF0000):
        c = chr(code)
        v = f(c) == c
        if v and start is None:
            start = code
        elif not v and start is not None:
            out.append((start, code - 1))
            start = None
    if start is not None:
        out.append((start, 0xEFFFF))
    return tuple(out)


def _case_atom(a, which):
    if isinstance(a, int):
        return [ord(c) for c in getattr(chr(a), which)()]
    if isinstance(a, engine.Tok):
        return [a]
    fixed = cls_or(_case_fixed(which), ((0xF0000, 0x10FFFF),))
    if atom_in(a, fixed):
        return [a]
    rng = ((65, 90),) if which == "lower" else ((97, 122),)
    if atom_in(a, rng):
        delta = 32 if which == "lower" else -32
        dom = tuple((lo + delta, hi + delta) for lo, hi in a.dom)
        ch = current().new_char(z3.simplify(a.expr + delta), dom)
        return [atom(ch)]
    v = current().pin(a.expr)
    current().stats.note("case mapping of a non-ASCII character fixed to one value")
    return [ord(c) for c in getattr(chr(v), which)()]


def render_int(x):
    e = x.expr if isinstance(x, SymInt) else z3.IntVal(x)
    path = current()
    if path.decide(e < 0):
        return SymStr("-" + path.new_tok(z3.simplify(-e)))
    return SymStr(path.new_tok(z3.simplify(e)))


def parse_int(s, base=10):
    al = text_of(s)
    if base == 10 and not any(not isinstance(a, int) for a in al):
        return int(str.__str__(s))
    if base != 10:
        return int(realise(s), base)
    ws = ws_cls()
    while al and not isinstance(al[0], engine.Tok) and atom_in(al[0], ws):
        al = al[1:]
    while al and not isinstance(al[-1], engine.Tok) and atom_in(al[-1], ws):
        al = al[:-1]
    sign = 1
    if al and not isinstance(al[0], engine.Tok):
        if atom_eq(al[0], 45):
            sign = -1
            al = al[1:]
        elif atom_eq(al[0], 43):
            al = al[1:]
    if not al:
        raise ValueError("invalid literal for int() with base 10")
    if len(al) == 1 and isinstance(al[0], engine.Tok):
        return mkint(al[0].expr * sign)
    v = z3.IntVal(0)
    for a in al:
        if isinstance(a, engine.Tok):
            raise Inconclusive("number adjacent to digits")
        if not is_digit(a):
            if not isinstance(a, int) and cls_and(a.dom, ((0x80, 0xEFFFF),)):
                if atom_in(a, ((0x80, 0xEFFFF), (95, 95))):
                    raise Inconclusive("non-ASCII digit")
            raise ValueError("invalid literal for int() with base 10")
        v = v * 10 + (atom_expr(a) - 48)
    return mkint(v * sign)


class SymStr(str):
    __slots__ = ()

    # identity and comparison
    def __hash__(self):
        return SYM_HASH

    def __eq__(self, other):
        if not isinstance(other, str):
            return False
        if str.__eq__(self, other):
            return True
        return atoms_eq(text_of(self), text_of(other))

    def __ne__(self, other):
        return engine.sym_not(self.__eq__(other))

    def _lt(self, other, strict):
        a, b = text_of(self), text_of(other)
        for x, y in zip(a, b):
            if not atom_eq(x, y):
                ex, ey = atom_expr(x), atom_expr(y)
                if isinstance(ex, int) and isinstance(ey, int):
                    return ex < ey
                return current().decide(ex < ey)
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return self._lt(other, True)

    def __le__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return self._lt(other, False)

    def __gt__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return not self._lt(other, False)

    def __ge__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return not self._lt(other, True)

    # structure
    def __str__(self):
        return self

    def __iter__(self):
        for ch in str.__iter__(self):
            yield SymStr(ch) if ord(ch) >= CHAR_BASE else ch

    def __getitem__(self, key):
        if isinstance(key, slice):
            key = slice(
                *(None if k is None else k.__index__() for k in (key.start, key.stop, key.step))
            )
        else:
            key = key.__index__()
        return wrap(str.__getitem__(self, key))

    def __add__(self, other):
        r = str.__add__(self, other)
        return r if r is NotImplemented else wrap(r)

    def __radd__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return wrap(str.__add__(other, self))

    def __mul__(self, n):
        return wrap(str.__mul__(self, n.__index__()))

    __rmul__ = __mul__

    def __mod__(self, args):
        return str_percent(self, args)

    def __format__(self, spec):
        if not spec or spec == "s":
            return self
        return format(realise(self), spec)

    def __repr__(self):
        al = text_of(self)
        has_single = False
        has_double = False
        for a in al:
            if isinstance(a, engine.Tok):
                continue
            if atom_eq(a, 39):
                has_single = True
            elif atom_eq(a, 34):
                has_double = True
        q = 34 if has_single and not has_double else 39
        out = [q]
        printable = cls_pred("isprintable")
        for a in al:
            if isinstance(a, engine.Tok):
                out.append(a)
            elif atom_eq(a, q):
                out += [92, q]
            elif atom_eq(a, 92):
                out += [92, 92]
            elif atom_eq(a, 10):
                out += [92, ord("n")]
            elif atom_eq(a, 13):
                out += [92, ord("r")]
            elif atom_eq(a, 9):
                out += [92, ord("t")]
            elif atom_in(a, printable):
                out.append(a)
            else:
                v = current().pin(atom_expr(a)) if not isinstance(a, int) else a
                out += [ord(c) for c in repr(chr(v))[1:-1]]
        out.append(q)
        return from_atoms(out)

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (str, (realise(self),))

    # search
    def find(self, sub, start=None, end=None):
        al = text_of(self)
        s, e = _slice_bounds(len(al), start, end)
        return find_from(al, text_of(sub), s, e)

    def rfind(self, sub, start=None, end=None):
        al = text_of(self)
        s, e = _slice_bounds(len(al), start, end)
        return rfind_from(al, text_of(sub), s, e)

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        al = text_of(self)
        s, e = _slice_bounds(len(al), start, end)
        sub = text_of(sub)
        if not sub:
            return e - s + 1
        n = 0
        while True:
            i = find_from(al, sub, s, e)
            if i < 0:
                return n
            n += 1
            s = i + len(sub)

    def startswith(self, prefix, start=None, end=None):
        if isinstance(prefix, tuple):
            return any(self.startswith(p, start, end) for p in prefix)
        al = text_of(self)
        s, e = _slice_bounds(len(al), start, end)
        al = al[s:e]
        sub = text_of(prefix)
        return len(sub) <= len(al) and (not sub or match_at(al, 0, sub))

    def endswith(self, suffix, start=None, end=None):
        if isinstance(suffix, tuple):
            return any(self.endswith(p, start, end) for p in suffix)
        al = text_of(self)
        s, e = _slice_bounds(len(al), start, end)
        al = al[s:e]
        sub = text_of(suffix)
        return len(sub) <= len(al) and (not sub or match_at(al, len(al) - len(sub), sub))

    # transformation
    def replace(self, old, new, count=-1):
        al = text_of(self)
        old_a, new_a = text_of(old), text_of(new)
        count = int(count)
        out = []
        i = 0
        if not old_a:
            n = 0
            for k in range(len(al) + 1):
                if count < 0 or n < count:
                    out += new_a
                    n += 1
                if k < len(al):
                    out.append(al[k])
            return from_atoms(out)
        n = 0
        while i < len(al):
            if (count < 0 or n < count) and match_at(al, i, old_a):
                out += new_a
                i += len(old_a)
                n += 1
            else:
                out.append(al[i])
                i += 1
        return from_atoms(out)

    def removeprefix(self, prefix):
        return self[len(prefix) :] if self.startswith(prefix) else self

    def removesuffix(self, suffix):
        return self[: len(self) - len(suffix)] if suffix and self.endswith(suffix) else self

    def _strip(self, chars, left, right):
        al = text_of(self)
        if chars is None:
            def test(a):
                return not isinstance(a, engine.Tok) and atom_in(a, ws_cls())
        else:
            ca = text_of(chars)

            def test(a):
                if isinstance(a, engine.Tok):
                    if any(cls_and(atom_dom(c), DIGITS) for c in ca):
                        raise Inconclusive("digits stripped from a symbolic integer")
                    return False
                if all(isinstance(c, int) for c in ca):
                    return atom_in(a, cls_norm([(c, c) for c in ca]))
                return any(atom_eq(a, c) for c in ca)

        s, e = 0, len(al)
        if left:
            while s < e and test(al[s]):
                s += 1
        if right:
            while e > s and test(al[e - 1]):
                e -= 1
        return from_atoms(al[s:e])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        al = text_of(self)
        maxsplit = int(maxsplit)
        parts = []
        if sep is None:
            ws = ws_cls()
            i = 0
            n = len(al)
            while i < n:
                while i < n and not isinstance(al[i], engine.Tok) and atom_in(al[i], ws):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(parts) >= maxsplit:
                    rest = al[i:]
                    while rest and not isinstance(rest[-1], engine.Tok) and atom_in(rest[-1], ws):
                        rest = rest[:-1]
                    parts.append(rest)
                    break
                j = i
                while j < n and (isinstance(al[j], engine.Tok) or not atom_in(al[j], ws)):
                    j += 1
                parts.append(al[i:j])
                i = j
            return [from_atoms(p) for p in parts]
        sub = text_of(sep)
        if not sub:
            raise ValueError("empty separator")
        i = 0
        while maxsplit < 0 or len(parts) < maxsplit:
            k = find_from(al, sub, i)
            if k < 0:
                break
            parts.append(al[i:k])
            i = k + len(sub)
        parts.append(al[i:])
        return [from_atoms(p) for p in parts]

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return [wrap(s[::-1]) for s in wrap(str.__getitem__(self, slice(None, None, -1))).split(None, maxsplit)][::-1]
        al = text_of(self)
        sub = text_of(sep)
        parts = []
        e = len(al)
        while len(parts) < maxsplit:
            k = rfind_from(al, sub, 0, e)
            if k < 0:
                break
            parts.append(al[k + len(sub) : e])
            e = k
        parts.append(al[:e])
        return [from_atoms(p) for p in reversed(parts)]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep) :])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep) :])

    def splitlines(self, keepends=False):
        al = text_of(self)
        brk = cls_norm([(10, 13), (28, 30), (0x85, 0x85), (0x2028, 0x2029)])
        parts = []
        cur = []
        i = 0
        while i < len(al):
            a = al[i]
            if not isinstance(a, engine.Tok) and atom_in(a, brk):
                end = [a]
                if atom_eq(a, 13) and i + 1 < len(al) and atom_eq(al[i + 1], 10):
                    i += 1
                    end.append(al[i])
                parts.append(cur + (end if keepends else []))
                cur = []
            else:
                cur.append(a)
            i += 1
        if cur:
            parts.append(cur)
        return [from_atoms(p) for p in parts]

    def join(self, items):
        return wrap(str.join(self, items))

    def lower(self):
        return from_atoms([x for a in text_of(self) for x in lower_atom(a)])

    casefold = lower

    def upper(self):
        return from_atoms([x for a in text_of(self) for x in upper_atom(a)])

    def capitalize(self):
        al = text_of(self)
        if not al:
            return ""
        return from_atoms(upper_atom(al[0]) + [x for a in al[1:] for x in lower_atom(a)])

    def swapcase(self):
        return realise(self).swapcase()

    def title(self):
        return realise(self).title()

    def translate(self, table):
        out = []
        for a in text_of(self):
            if isinstance(a, int):
                out += text_of(chr(a).translate(table))
                continue
            if isinstance(a, engine.Tok):
                out.append(a)
                continue
            done = False
            if hasattr(table, "items"):
                for k, v in table.items():
                    if atom_eq(a, k):
                        if isinstance(v, int):
                            out.append(v)
                        elif v is not None:
                            out += text_of(v)
                        done = True
                        break
                if not done:
                    out.append(a)
            else:
                out += text_of(chr(current().pin(a.expr)).translate(table))
        return from_atoms(out)

    def _all(self, pred, empty=False):
        al = text_of(self)
        if not al:
            return empty
        cls = cls_pred(pred)
        return all(atom_in(a, cls) for a in al)

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isspace(self):
        return self._all("isspace")

    def isprintable(self):
        return self._all("isprintable", True)

    def isascii(self):
        return all(atom_in(a, ASCII) for a in text_of(self))

    def isidentifier(self):
        al = text_of(self)
        if not al:
            return False
        start = _ident_cls(True)
        cont = _ident_cls(False)
        return atom_in(al[0], start) and all(atom_in(a, cont) for a in al[1:])

    def islower(self):
        return realise(self).islower()

    def isupper(self):
        return realise(self).isupper()

    def istitle(self):
        return realise(self).istitle()

    def encode(self, encoding="utf-8", errors="strict"):
        if has_symbols(self) and all(
            isinstance(a, engine.Tok) or (a < 128 if isinstance(a, int) else cls_and(atom_dom(a), ASCII) == atom_dom(a))
            for a in text_of(self)
        ):
            from .symbytes import SymBytes

            return SymBytes(self)
        return str.encode(realise(self), encoding, errors)

    def format(self, *args, **kwargs):
        if has_symbols(self):
            return wrap(realise(self).format(*args, **kwargs))
        return wrap(str.format(self, *args, **kwargs))

    def format_map(self, m):
        return wrap(str.format_map(realise(self), m))

    def zfill(self, width):
        if len(self) >= width:
            return self
        return wrap(realise(self).zfill(width))

    def expandtabs(self, tabsize=8):
        out = []
        column = 0
        for a in text_of(self):
            if isinstance(a, engine.Tok):
                return realise(self).expandtabs(tabsize)
            if atom_eq(a, 9):
                width = tabsize - column % tabsize if tabsize > 0 else 0
                out += [32] * width
                column += width
            else:
                out.append(a)
                column = 0 if atom_eq(a, 10) or atom_eq(a, 13) else column + 1
        return from_atoms(out)

    def ljust(self, *args):
        return wrap(str.ljust(self, *args))

    def rjust(self, *args):
        return wrap(str.rjust(self, *args))

    def center(self, *args):
        return wrap(str.center(self, *args))


@functools.lru_cache(maxsize=None)
def _ident_cls(first):
    out = []
    start = None
    for code in range(0, 0xF0000):
        v = chr(code).isidentifier() if first else ("a" + chr(code)).isidentifier()
        if v and start is None:
            start = code
        elif not v and start is not None:
            out.append((start, code - 1))
            start = None
    return tuple(out)


def str_percent(fmt, args):
    if type(fmt) is SymStr and has_symbols(fmt):
        out = []
        al = text_of(fmt)
        if any(not isinstance(a, int) and cls_has(atom_dom(a), 37) and atom_eq(a, 37) for a in al):
            return wrap(str.__mod__(realise(fmt), args))
    return wrap(str.__mod__(fmt, args))


def sym_str(path, name, min_len, max_len, alphabet=UNICODE):
    "A fresh symbolic string input; its length is chosen by branching."
    alphabet = cls_norm(alphabet)
    n = min_len
    if max_len > min_len:
        n = min_len + path.choose(name + ".len", max_len - min_len + 1)
    out = []
    exprs = []
    for i in range(n):
        e = z3.Int(f"{name}[{i}]")
        path.solver.add(cls_expr(e, alphabet))
        exprs.append(e)
        out.append(path.new_char(e, alphabet))
    path.model = None
    path.inputs.append(
        (
            name,
            lambda m: "".join(chr(m.eval(e, model_completion=True).as_long()) for e in exprs),
        )
    )
    return SymStr("".join(out))


class LongStr(str):
    "A text of which only the (symbolic) number of characters is known."

    def __getattribute__(self, name):
        if name in ("length", "__class__", "__dict__"):
            return object.__getattribute__(self, name)
        raise engine.Inconclusive(f"no model of {name}() of a text of symbolic length")

    def _unknown(self, *args):
        raise engine.Inconclusive("no model of a text of symbolic length")

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __getitem__ = _unknown
    __contains__ = __iter__ = __len__ = __str__ = __format__ = __mod__ = __mul__ = __hash__ = _unknown


class LongList(list):
    "A list of single characters of which only the (symbolic) length is known."

    def join(self, separator):
        if separator:
            raise engine.Inconclusive("no model of a separator in a text of symbolic length")
        r = str.__new__(LongStr)
        r.length = self.length
        return r

    def _unknown(self, *args):
        raise engine.Inconclusive("no model of a list of symbolic length")

    __eq__ = __ne__ = __add__ = __radd__ = __getitem__ = __contains__ = __iter__ = __len__ = _unknown


def long_list(length):
    r = LongList()
    r.length = length
    return r
