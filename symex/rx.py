"""
Regular expressions over symbolic strings: a backtracking matcher for the syntax trees of the standard `re` parser.
"""

import re
import re._constants as rc
import re._parser as rp
import sys

from . import engine
from .engine import Inconclusive
from .strings import (
    DIGITS,
    SymStr,
    atom_eq,
    atom_in,
    cls_and,
    cls_norm,
    cls_not,
    cls_or,
    cls_pred,
    from_atoms,
    has_symbols,
    text_of,
    wrap,
    atom_dom,
)

# the matcher recurs for each character
sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))

ALL = ((0, 0x10FFFF),)
NL = ((10, 10),)


def is_symbolic(s):
    return type(s) is SymStr and has_symbols(s)


def _case_variants(code):
    c = chr(code)
    out = {code}
    for v in (c.lower(), c.upper()):
        if len(v) == 1:
            out.add(ord(v))
    return out


def _category(cat, ascii_only):
    neg = False
    if cat in (rc.CATEGORY_DIGIT, rc.CATEGORY_NOT_DIGIT):
        cls = cls_pred("isdecimal")
        neg = cat is rc.CATEGORY_NOT_DIGIT
    elif cat in (rc.CATEGORY_SPACE, rc.CATEGORY_NOT_SPACE):
        cls = cls_pred("isspace")
        neg = cat is rc.CATEGORY_NOT_SPACE
    elif cat in (rc.CATEGORY_WORD, rc.CATEGORY_NOT_WORD):
        cls = cls_pred("isword")
        neg = cat is rc.CATEGORY_NOT_WORD
    else:
        raise Inconclusive(f"regular expression category {cat}")
    if ascii_only:
        cls = cls_and(cls, ((0, 127),))
    return cls_not(cls) if neg else cls


def _in_cls(items, flags):
    neg = False
    cls = ()
    ic = flags & re.IGNORECASE
    for op, av in items:
        if op is rc.NEGATE:
            neg = True
        elif op is rc.LITERAL:
            cls = cls_or(cls, cls_norm([(c, c) for c in (_case_variants(av) if ic else {av})]))
        elif op is rc.RANGE:
            lo, hi = av
            cls = cls_or(cls, ((lo, hi),))
            if ic:
                extra = []
                for c in range(lo, min(hi, 0x250) + 1):
                    extra += [(v, v) for v in _case_variants(c)]
                cls = cls_or(cls, tuple(extra))
        elif op is rc.CATEGORY:
            cls = cls_or(cls, _category(av, flags & re.ASCII))
        else:
            raise Inconclusive(f"regular expression set item {op}")
    return cls_not(cls) if neg else cls


class Matcher:
    def __init__(self, pattern, flags=0):
        self.parsed = rp.parse(pattern, flags)
        self.flags = self.parsed.state.flags
        self.ngroups = self.parsed.state.groups
        self.names = self.parsed.state.groupdict

    def run(self, al, pos, full):
        self.al = al
        end_check = (lambda i, g: (i, g) if i == len(al) else None) if full else (lambda i, g: (i, g))
        return self._seq(list(self.parsed), 0, pos, {}, end_check, self.flags)

    def _word(self, i):
        if i < 0 or i >= len(self.al):
            return False
        return atom_in(self.al[i], cls_pred("isword"))

    def _single(self, op, av, flags):
        if op is rc.LITERAL:
            if flags & re.IGNORECASE:
                return cls_norm([(c, c) for c in _case_variants(av)])
            return ((av, av),)
        if op is rc.NOT_LITERAL:
            return cls_not(((av, av),))
        if op is rc.ANY:
            return ALL if flags & re.DOTALL else cls_not(NL)
        if op is rc.IN:
            return _in_cls(av, flags)
        return None

    def _seq(self, ops, k, i, groups, cont, flags):
        if k >= len(ops):
            return cont(i, groups)
        op, av = ops[k]

        def nxt(j, g):
            return self._seq(ops, k + 1, j, g, cont, flags)

        cls = self._single(op, av, flags)
        if cls is not None:
            if i < len(self.al) and atom_in(self.al[i], cls):
                return nxt(i + 1, groups)
            return None
        if op is rc.SUBPATTERN:
            group, add, dele, sub = av
            f = (flags | add) & ~dele

            def close(j, g):
                if group is not None:
                    g = dict(g)
                    g[group] = (i, j)
                return nxt(j, g)

            return self._seq(list(sub), 0, i, groups, close, f)
        if op is rc.BRANCH:
            for alt in av[1]:
                r = self._seq(list(alt), 0, i, groups, nxt, flags)
                if r is not None:
                    return r
            return None
        if op in (rc.MAX_REPEAT, rc.MIN_REPEAT) or op is getattr(rc, "POSSESSIVE_REPEAT", None):
            lo, hi, sub = av
            return self._repeat(list(sub), lo, hi, op is not rc.MIN_REPEAT, 0, i, -1, groups, nxt, flags)
        if op is rc.AT:
            n = len(self.al)
            ok = False
            if av is rc.AT_BEGINNING:
                ok = i == 0 or (bool(flags & re.MULTILINE) and atom_eq(self.al[i - 1], 10))
            elif av is rc.AT_BEGINNING_STRING:
                ok = i == 0
            elif av is rc.AT_END:
                if i == n:
                    ok = True
                elif flags & re.MULTILINE:
                    ok = atom_eq(self.al[i], 10)
                else:
                    ok = i == n - 1 and atom_eq(self.al[i], 10)
            elif av is rc.AT_END_STRING:
                ok = i == n
            elif av in (rc.AT_BOUNDARY, rc.AT_NON_BOUNDARY):
                b = self._word(i - 1) != self._word(i)
                ok = b if av is rc.AT_BOUNDARY else not b
            else:
                raise Inconclusive(f"regular expression position {av}")
            return nxt(i, groups) if ok else None
        if op in (rc.ASSERT, rc.ASSERT_NOT):
            direction, sub = av
            if direction > 0:
                r = self._seq(list(sub), 0, i, groups, lambda j, g: (j, g), flags)
            else:
                lo, hi = sub.getwidth()
                if lo != hi:
                    raise Inconclusive("variable-width lookbehind")
                r = None
                if i - lo >= 0:
                    r = self._seq(
                        list(sub), 0, i - lo, groups, lambda j, g: (j, g) if j == i else None, flags
                    )
            if op is rc.ASSERT:
                return nxt(i, r[1]) if r is not None else None
            return nxt(i, groups) if r is None else None
        if op is rc.GROUPREF:
            if av not in groups:
                return None
            s, e = groups[av]
            for d in range(e - s):
                if i + d >= len(self.al) or not atom_eq(self.al[s + d], self.al[i + d]):
                    return None
            return nxt(i + e - s, groups)
        raise Inconclusive(f"regular expression operator {op}")

    def _repeat(self, sub, lo, hi, greedy, count, i, last, groups, cont, flags):
        # a number stands for one or more digits
        def once():
            if hi is not rc.MAXREPEAT and count >= hi:
                return None
            if i == last and count >= lo:
                return None

            def again(j, g):
                return self._repeat(sub, lo, hi, greedy, count + 1, j, i, g, cont, flags)

            return self._seq(sub, 0, i, groups, again, flags)

        if count < lo:
            return once()
        if greedy:
            r = once()
            if r is not None:
                return r
            return cont(i, groups)
        r = cont(i, groups)
        if r is not None:
            return r
        return once()


class SymMatch:
    def __init__(self, string, al, start, end, groups, matcher):
        self.string = string
        self._al = al
        self._start = start
        self._end = end
        self._groups = groups
        self._m = matcher
        self.re = None

    def _idx(self, g):
        if isinstance(g, str):
            return self._m.names[g]
        return int(g)

    def span(self, g=0):
        g = self._idx(g)
        if g == 0:
            return (self._start, self._end)
        if g >= self._m.ngroups:
            raise IndexError("no such group")
        return self._groups.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        s, e = self.span(g)
        if s < 0:
            return default
        return from_atoms(self._al[s:e])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(g, default) for g in range(1, self._m.ngroups))

    def groupdict(self, default=None):
        return {n: self._one(i, default) for n, i in self._m.names.items()}

    @property
    def lastindex(self):
        return max(self._groups) if self._groups else None

    def expand(self, template):
        out = []
        parsed = rp.parse_template(template, re.compile(self._m.pattern_text, 0))
        for item in parsed:
            if isinstance(item, int):
                out.append(self._one(item, ""))
            else:
                out.append(item)
        return wrap("".join(out))


def _pattern(p, flags):
    if isinstance(p, re.Pattern):
        return p.pattern, p.flags & ~re.UNICODE if isinstance(p.pattern, str) else p.flags
    return p, int(flags)


_cache = {}


def _matcher(p, flags):
    text, fl = _pattern(p, flags)
    if is_symbolic(text):
        from .strings import realise

        text = realise(text)
    key = (str.__str__(text), int(fl))
    m = _cache.get(key)
    if m is None:
        m = Matcher(key[0], key[1])
        m.pattern_text = key[0]
        _cache[key] = m
    return m


def _exec(p, s, flags, mode, pos=0, endpos=None):
    m = _matcher(p, flags)
    al = text_of(s)
    if endpos is not None:
        al = al[:endpos]
    if mode == "search":
        starts = range(pos, len(al) + 1)
    else:
        starts = (pos,)
    for st in starts:
        r = m.run(al, st, mode == "fullmatch")
        if r is not None:
            return SymMatch(s, al, st, r[0], r[1], m)
    return None


def sx_match(p, s, flags=0):
    return _exec(p, s, flags, "match")


def sx_fullmatch(p, s, flags=0):
    return _exec(p, s, flags, "fullmatch")


def sx_search(p, s, flags=0):
    return _exec(p, s, flags, "search")


def sx_finditer(p, s, flags=0):
    m = _matcher(p, flags)
    al = text_of(s)
    pos = 0
    must_advance = False
    while pos <= len(al):
        found = None
        for st in range(pos, len(al) + 1):
            if st == pos and must_advance:
                m.al = al
                r = m._seq(
                    list(m.parsed), 0, st, {}, lambda i, g: (i, g) if i > st else None, m.flags
                )
            else:
                r = m.run(al, st, False)
            if r is not None:
                found = SymMatch(s, al, st, r[0], r[1], m)
                break
        if found is None:
            return
        yield found
        must_advance = found.end() == found.start()
        pos = found.end()


def sx_findall(p, s, flags=0):
    out = []
    for m in sx_finditer(p, s, flags):
        n = m._m.ngroups
        if n == 1:
            out.append(m.group())
        elif n == 2:
            out.append(m._one(1, ""))
        else:
            out.append(m.groups(""))
    return out


def sx_sub(p, repl, s, count=0, flags=0):
    al = text_of(s)
    out = []
    last = 0
    n = 0
    for m in sx_finditer(p, s, flags):
        if count and n >= count:
            break
        out += al[last : m.start()]
        r = repl(m) if callable(repl) else m.expand(repl)
        out += text_of(wrap(r))
        last = m.end()
        n += 1
    out += al[last:]
    return from_atoms(out)


def sx_split(p, s, maxsplit=0, flags=0):
    al = text_of(s)
    out = []
    last = 0
    n = 0
    for m in sx_finditer(p, s, flags):
        if maxsplit and n >= maxsplit:
            break
        out.append(from_atoms(al[last : m.start()]))
        out += list(m.groups())
        last = m.end()
        n += 1
    out.append(from_atoms(al[last:]))
    return out


def pattern_method(pat, name):
    def f(s, *args, **kwargs):
        native = getattr(pat, name)
        if name == "sub":
            repl = s
            s2 = args[0] if args else kwargs["string"]
            if is_symbolic(wrap(s2)):
                return sx_sub(pat, repl, wrap(s2), *args[1:])
            return wrap(native(s, *args, **kwargs))
        s = wrap(s)
        if not is_symbolic(s):
            return native(s, *args, **kwargs)
        if name in ("match", "search", "fullmatch"):
            return _exec(pat, s, 0, name, *args)
        return {"findall": sx_findall, "finditer": sx_finditer, "split": sx_split}[name](pat, s, *args, **kwargs)

    return f


def module_function(name):
    native = getattr(re, name)
    impl = {
        "match": sx_match,
        "fullmatch": sx_fullmatch,
        "search": sx_search,
        "finditer": sx_finditer,
        "findall": sx_findall,
        "sub": sx_sub,
        "split": sx_split,
    }[name]

    def f(*args, **kwargs):
        args = tuple(wrap(a) for a in args)
        pos = 2 if name == "sub" else 1
        s = args[pos] if len(args) > pos else kwargs.get("string")
        repl_sym = name == "sub" and len(args) > 1 and is_symbolic(args[1])
        if is_symbolic(s) or repl_sym:
            return impl(*args, **kwargs)
        r = native(*args, **kwargs)
        return wrap(r)

    return f
