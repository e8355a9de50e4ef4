"""
Loads Python modules from their current source with the operations that native code would perform on the
representation of a symbolic value redirected to the symbolic implementation.

Nothing is translated by hand: the statements that execute are those of the source file.
"""

import ast
import builtins
import dataclasses
import importlib.abc
import importlib.machinery
import importlib.util
import operator
import re
import sys
import types

from . import engine, rx, strings, symbytes
from .engine import SymBool, SymInt, sym_not
from .symbytes import SymBytes
from .strings import SymStr, has_symbols, wrap, realise

SKIP_CALLS = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__", "breakpoint"}


class Rewriter(ast.NodeTransformer):
    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def _call(self, fn, *args):
        return ast.Call(func=self._name(fn), args=list(args), keywords=[])

    # annotations are left alone
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def _fn(self, node):
        node.body = [self.visit(b) for b in node.body]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d if d is None else self.visit(d) for d in node.args.kw_defaults]
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_JoinedStr(self, node):
        # format specifications are nested JoinedStr nodes: keep them native
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return ast.copy_location(self._call("_SX_wrap", node), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, ast.In):
                return ast.copy_location(self._call("_SX_in", node.left, node.comparators[0]), node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(self._call("_SX_notin", node.left, node.comparators[0]), node)
            if isinstance(op, (ast.Is, ast.IsNot)):
                right = node.comparators[0]
                if isinstance(right, ast.Constant) and isinstance(right.value, bool):
                    f = "_SX_is" if isinstance(op, ast.Is) else "_SX_isnot"
                    return ast.copy_location(self._call(f, node.left, right), node)
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        node.func = ast.copy_location(self._call("_SX_fn", node.func), node.func)
        return ast.copy_location(self._call("_SX_wrap", node), node)

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and isinstance(node.value, ast.Name) and node.value.id == "str":
            return ast.copy_location(
                self._call("_SX_strattr", node.value, ast.Constant(node.attr)), node
            )
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self._call("_SX_wrap", node), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return ast.copy_location(self._call("_SX_getitem", node.value, node.slice), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if (
            len(node.targets) == 1
            and isinstance(node.targets[0], ast.Subscript)
            and not isinstance(node.targets[0].slice, ast.Slice)
        ):
            t = node.targets[0]
            e = self._call("_SX_setitem", t.value, t.slice, node.value)
            return ast.copy_location(ast.Expr(value=ast.copy_location(e, node)), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if (
            len(node.targets) == 1
            and isinstance(node.targets[0], ast.Subscript)
            and not isinstance(node.targets[0].slice, ast.Slice)
        ):
            t = node.targets[0]
            e = self._call("_SX_delitem", t.value, t.slice)
            return ast.copy_location(ast.Expr(value=ast.copy_location(e, node)), node)
        return node


# ---------------------------------------------------------------------------------------------------------------------
# run-time support


# classes of `moments`
_MODELS = ("SymMoment", "SymDay", "SymTime", "SymDecimal")


# keys that are not symbolic
_PLAIN = frozenset((str, int, bool, bytes, float, type(None), type, types.ModuleType))


def _sym_key(k):
    if type(k) in _PLAIN:
        return False
    return type(k) is SymStr or isinstance(k, (SymInt,)) or type(k).__name__ in _MODELS or (
        type(k) is tuple and any(_sym_key(i) for i in k)
    )


def _scan(container, key):
    "Needs a linear scan: the hash of a symbolic value says nothing."
    if type(key) is str:
        # keys differ from one another
        if key in container:
            return False
    elif _sym_key(key):
        return True
    for k in container:
        if type(k) not in _PLAIN and _sym_key(k):
            return True
    return False


_NOTFOUND = object()


def _lookup(container, key):
    for k in container:
        if k is key:
            return k
    for k in container:
        if _eq(k, key):
            return k
    return _NOTFOUND


def _eq(a, b):
    return bool(a == b)


def sx_in(x, container):
    t = type(container)
    if t is str:
        if type(x) is SymStr:
            return SymStr(container).find(x) >= 0
        return x in container
    if isinstance(container, (dict, set, frozenset)):
        if (type(x) is str or _sym_key(x)) and _scan(container, x):
            return _lookup(container, x) is not _NOTFOUND
        return x in container
    if _is_dict_view(container) and (type(x) is str or _sym_key(x)):
        return any(_eq(k, x) for k in container)
    return x in container


def _is_dict_view(c):
    return type(c).__name__ in ("dict_keys", "odict_keys")


def sx_notin(x, container):
    return not sx_in(x, container)


def sx_is(a, b):
    if isinstance(a, SymBool):
        return bool(a) is b
    return a is b


def sx_isnot(a, b):
    return not sx_is(a, b)


def sx_getitem(obj, key):
    t = type(obj)
    if t is tuple or t is list:
        return wrap(obj[key])
    if isinstance(obj, dict) and (type(key) is str or _sym_key(key)) and _scan(obj, key):
        k = _lookup(obj, key)
        if k is _NOTFOUND:
            if hasattr(type(obj), "__missing__"):
                return obj[key]
            raise KeyError(key)
        return dict.__getitem__(obj, k)
    return wrap(obj[key])


def sx_setitem(obj, key, value):
    if isinstance(obj, dict) and (type(key) is str or _sym_key(key)) and _scan(obj, key):
        k = _lookup(obj, key)
        obj[key if k is _NOTFOUND else k] = value
    else:
        obj[key] = value


def sx_delitem(obj, key):
    if isinstance(obj, dict) and (type(key) is str or _sym_key(key)) and _scan(obj, key):
        k = _lookup(obj, key)
        if k is _NOTFOUND:
            raise KeyError(key)
        del obj[k]
    else:
        del obj[key]


def sx_isinstance(obj, cls):
    if isinstance(obj, SymInt):
        return _issub(int, cls)
    if isinstance(obj, SymBool):
        return _issub(bool, cls)
    if type(obj) is SymBytes:
        return _issub(bytes, cls)
    return isinstance(obj, cls)


def _issub(t, cls):
    if isinstance(cls, tuple):
        return any(_issub(t, c) for c in cls)
    if cls is SymInt or cls is SymBool:
        return False
    return isinstance(t(), cls)


def sx_type(*args, **kwargs):
    if len(args) == 1 and not kwargs:
        obj = args[0]
        if type(obj) is SymStr:
            return str
        if type(obj) is SymInt:
            return int
        if type(obj) is SymBool:
            return bool
        if type(obj) is SymBytes:
            return bytes
    return type(*args, **kwargs)


def sx_int(*args, **kwargs):
    if args:
        v = args[0]
        if type(v) is SymStr:
            return strings.parse_int(v, *args[1:], **kwargs)
        if isinstance(v, SymInt) and len(args) == 1:
            return v
        if isinstance(v, SymBool):
            return engine.mkint(engine.as_z3_int(v))
    return int(*args, **kwargs)


def sx_str(*args, **kwargs):
    if len(args) == 1 and not kwargs:
        v = args[0]
        if type(v) is SymStr:
            return v
        return wrap(str(v))
    return wrap(str(*args, **kwargs))


def sx_bool(*args):
    if args:
        return bool(args[0])
    return False


def sx_ord(c):
    if type(c) is SymStr:
        (a,) = strings.text_of(c)
        if isinstance(a, int):
            return a
        return engine.mkint(a.expr)
    return ord(c)


def sx_chr(i):
    if isinstance(i, SymInt):
        return SymStr(engine.current().new_char(i.expr, strings.UNICODE, False))
    return chr(i)


def sx_sum(items, start=0):
    r = start
    for i in items:
        r = r + i
    return r


def sx_len(x):
    return len(x)


def sx_dict(*args, **kwargs):
    r = dict(*args, **kwargs)
    return r


def _fresh(lo, hi):
    path = engine.current()
    x = path.fresh_int("u")
    path.solver.add(x >= lo, x <= hi)
    path.model = None
    return x


def _hex(byte):
    "Two hexadecimal digits of a byte, given as a number or as a term."
    import z3

    if isinstance(byte, int):
        return "%{:02X}".format(byte)
    path = engine.current()
    digits = strings.cls_of("0123456789ABCDEF")
    hi, lo = _fresh(0, 15), _fresh(0, 15)
    path.solver.add(byte == 16 * hi + lo)
    text = "%"
    for h in (hi, lo):
        c = path.new_char(z3.If(h < 10, h + 48, h + 55), digits, False)
        path.digits[strings.atom(c).expr.get_id()] = h
        text += c
    return text


def _utf8(e):
    "UTF-8 encoding of a code point, given as a term."

    path = engine.current()
    if path.decide(e < 0x80):
        return [e]
    if path.decide(e < 0x800):
        a, b = _fresh(2, 31), _fresh(0, 63)
        path.solver.add(e == 64 * a + b)
        return [0xC0 + a, 0x80 + b]
    if path.decide(e < 0x10000):
        a, b, c = _fresh(0, 15), _fresh(0, 63), _fresh(0, 63)
        path.solver.add(e == 4096 * a + 64 * b + c)
        return [0xE0 + a, 0x80 + b, 0x80 + c]
    a, b, c, d = _fresh(0, 4), _fresh(0, 63), _fresh(0, 63), _fresh(0, 63)
    path.solver.add(e == 262144 * a + 4096 * b + 64 * c + d)
    return [0xF0 + a, 0x80 + b, 0x80 + c, 0x80 + d]


def quote(string, safe="/", encoding=None, errors=None):
    import urllib.parse

    if type(string) is not SymStr or not has_symbols(string):
        return urllib.parse.quote(string, safe, encoding, errors)
    keep = strings.cls_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~" + safe)
    out = []
    for a in strings.text_of(string):
        if isinstance(a, engine.Tok) or strings.atom_in(a, keep):
            out.append(strings.atom_text(a))
        else:
            e = strings.atom_expr(a)
            if isinstance(e, int):
                out.append(urllib.parse.quote(chr(e), safe=""))
            else:
                out.extend(_hex(b) for b in _utf8(e))
    return wrap("".join(out))


def _decode(values, errors):
    "Decodes a sequence of bytes, which are numbers or terms, as UTF-8."
    import z3

    path = engine.current()

    def among(b, lo, hi):
        if isinstance(b, int):
            return lo <= b <= hi
        return path.decide(z3.And(b >= lo, b <= hi))

    out = []
    i = 0
    while i < len(values):
        b = values[i]
        if among(b, 0, 0x7F):
            cp, n = b, 1
        else:
            n = 0
            # ranges of the lead byte, and of the byte that follows
            for lo, hi, second, length, base in (
                (0xC2, 0xDF, (0x80, 0xBF), 2, 0xC0),
                (0xE0, 0xE0, (0xA0, 0xBF), 3, 0xE0),
                (0xE1, 0xEC, (0x80, 0xBF), 3, 0xE0),
                (0xED, 0xED, (0x80, 0x9F), 3, 0xE0),
                (0xEE, 0xEF, (0x80, 0xBF), 3, 0xE0),
                (0xF0, 0xF0, (0x90, 0xBF), 4, 0xF0),
                (0xF1, 0xF3, (0x80, 0xBF), 4, 0xF0),
                (0xF4, 0xF4, (0x80, 0x8F), 4, 0xF0),
            ):
                if not among(b, lo, hi):
                    continue
                rest = values[i + 1 : i + length]
                if len(rest) == length - 1 and all(
                    among(r, *(second if k == 0 else (0x80, 0xBF))) for k, r in enumerate(rest)
                ):
                    n = length
                    cp = b - base
                    for r in rest:
                        cp = cp * 64 + (r - 0x80)
                break
            if n == 0:
                # not valid: one value each
                fixed = bytes(v if isinstance(v, int) else path.pin(v) for v in values[i:])
                path.stats.note("bytes that are not valid UTF-8 fixed to one value in percent-decoding")
                out.append(fixed.decode("utf-8", errors))
                return "".join(out)
        if isinstance(cp, int):
            out.append(chr(cp))
        else:
            out.append(path.new_char(z3.simplify(cp), strings.UNICODE, False))
        i += n
    return "".join(out)


def unquote(string, encoding="utf-8", errors="replace"):
    import urllib.parse
    import z3

    if type(string) is not SymStr or not has_symbols(string) or encoding != "utf-8":
        return urllib.parse.unquote(string, encoding, errors)
    al = strings.text_of(string)
    hexd = strings.cls_of("0123456789abcdefABCDEF")
    out = []
    i = 0
    pending = []

    def flush():
        if pending:
            out.append(_decode(list(pending), errors))
            pending.clear()

    while i < len(al):
        a = al[i]
        if (
            not isinstance(a, engine.Tok)
            and strings.atom_eq(a, 37)
            and i + 2 < len(al)
            and strings.atom_in(al[i + 1], hexd)
            and strings.atom_in(al[i + 2], hexd)
        ):
            vals = []
            for x in (al[i + 1], al[i + 2]):
                e = strings.atom_expr(x)
                if isinstance(e, int):
                    vals.append(int(chr(e), 16))
                elif e.get_id() in engine.current().digits:
                    vals.append(engine.current().digits[e.get_id()])
                else:
                    vals.append(z3.If(e <= 57, e - 48, z3.If(e <= 70, e - 55, e - 87)))
            v = vals[0] * 16 + vals[1]
            pending.append(v if isinstance(v, int) else z3.simplify(v))
            i += 3
        else:
            flush()
            out.append(strings.atom_text(a))
            i += 1
    flush()
    return wrap("".join(out))


_FN = {}


def _init_table():
    import keyword
    import urllib.parse

    _FN.update(
        {
            builtins.isinstance: sx_isinstance,
            builtins.type: sx_type,
            builtins.int: sx_int,
            builtins.str: sx_str,
            builtins.bool: sx_bool,
            builtins.ord: sx_ord,
            builtins.chr: sx_chr,
            builtins.sum: sx_sum,
            urllib.parse.quote: quote,
            urllib.parse.unquote: unquote,
        }
    )
    for n in ("match", "fullmatch", "search", "finditer", "findall", "sub", "split"):
        _FN[getattr(re, n)] = rx.module_function(n)
    _FN[keyword.iskeyword] = lambda s: sx_in(s, keyword.kwlist)
    import datetime
    import decimal
    import io
    import json

    from . import moments

    _FN[datetime.timedelta] = moments.timedelta
    _FN[decimal.Decimal] = moments.Decimal
    _FN[io.BytesIO] = symbytes.SymBytesIO

    def deep_realise(v):
        if isinstance(v, str):
            return realise(v)
        if isinstance(v, SymInt):
            return int(v)
        if isinstance(v, SymBool):
            return bool(v)
        if isinstance(v, dict):
            return {deep_realise(a): deep_realise(b) for a, b in v.items()}
        if isinstance(v, (list, tuple)):
            return type(v)(deep_realise(i) for i in v)
        return v

    _rewrite_urllib()

    import textwrap

    _rewrite_library(textwrap, ["wrap", "fill", "dedent", "indent", "shorten"])
    try:
        import tsv.helper

        from . import tabular

        _FN[tsv.helper.AutoDetectParser] = tabular.AutoDetectParser
        _FN[tsv.helper.Parser] = tabular.Parser
        _FN[tsv.helper.Generator] = tabular.Generator
    except ImportError:
        pass

    for f in (json.dumps, json.loads):
        def g(*args, _f=f, **kwargs):
            return wrap(_f(*[deep_realise(a) for a in args], **{k: deep_realise(v) for k, v in kwargs.items()}))

        _FN[f] = g


def _rewrite_library(library, names):
    "Executes functions of a library from their source, too."

    import types

    with open(library.__file__) as f:
        tree = Rewriter().visit(ast.parse(f.read(), library.__file__))
    ast.fix_missing_locations(tree)
    module = types.ModuleType("_SX_" + library.__name__.replace(".", "_"))
    module.__dict__.update(RUNTIME)
    module.__package__ = library.__name__.rpartition(".")[0]
    sys.modules[module.__name__] = module
    exec(compile(tree, library.__file__, "exec", dont_inherit=True), module.__dict__)
    # classes are those that other code knows
    for n, v in vars(library).items():
        if isinstance(v, type) and v.__module__ == library.__name__ and dataclasses.is_dataclass(v):
            module.__dict__[n] = v
    for n in names:
        _FN[getattr(library, n)] = getattr(module, n)


def _rewrite_urllib():
    "Executes functions of the standard library that parse URLs from their source, too."

    import types
    import urllib.parse

    with open(urllib.parse.__file__) as f:
        tree = ast.parse(f.read(), urllib.parse.__file__)
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef):
            # results are not shared between paths
            node.decorator_list = [d for d in node.decorator_list if "lru_cache" not in ast.dump(d)]
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    module = types.ModuleType("_SX_urllib_parse")
    module.__dict__.update(RUNTIME)
    sys.modules[module.__name__] = module
    exec(compile(tree, urllib.parse.__file__, "exec", dont_inherit=True), module.__dict__)
    module.unquote = unquote
    module.quote = quote
    for n in ("urlparse", "urlsplit", "urlunparse", "urlunsplit", "parse_qs", "parse_qsl", "quote_plus", "unquote_plus", "urlencode"):
        _FN[getattr(urllib.parse, n)] = getattr(module, n)


# methods of some types (e.g. regular expression patterns) have a type of their own in the C implementation
_builtin_method = type("".join)
_BUILTIN_METHODS = (_builtin_method, type(re.compile("").search))
_STR_METHODS = {n for n in dir(str) if not n.startswith("__") and callable(getattr(str, n))}


def _str_method(obj, name):
    native = getattr(obj, name)
    sym = getattr(SymStr, name)

    def f(*args, **kwargs):
        if name == "join":
            (items,) = args
            if type(items) is strings.LongList:
                return items.join(obj)
            return wrap(native(items))
        if name in ("format", "format_map"):
            return wrap(native(*args, **kwargs))
        for a in args:
            if type(a) is SymStr or (type(a) is tuple and any(type(b) is SymStr for b in a)):
                return sym(SymStr(obj), *args, **kwargs)
        return native(*args, **kwargs)

    return f


def _bytes_method(obj, native):
    def f(*args, **kwargs):
        if native.__name__ == "join":
            (items,) = args
            items = list(items)
            if any(type(i) is SymBytes for i in items):
                return symbytes.join(obj, items)
            return native(items)
        if any(type(a) is SymBytes for a in args):
            return getattr(SymBytes(obj.decode("latin-1")), native.__name__)(*args, **kwargs)
        return native(*args, **kwargs)

    return f


def _dict_method(obj, name):
    native = getattr(obj, name)
    if name in ("get", "pop", "setdefault", "__getitem__", "__contains__"):

        def f(key, *default):
            if (type(key) is str or _sym_key(key)) and _scan(obj, key):
                k = _lookup(obj, key)
                if name == "__contains__":
                    return k is not _NOTFOUND
                if k is not _NOTFOUND:
                    return native(k, *default)
                if name == "setdefault":
                    return native(key, *default)
                if name == "__getitem__":
                    raise KeyError(key)
                if name == "get":
                    return default[0] if default else None
                if default:
                    return default[0]
                raise KeyError(key)
            return native(key, *default)

        return f
    if name == "update":

        def g(*args, **kwargs):
            for a in args:
                for k, v in (a.items() if hasattr(a, "items") else a):
                    sx_setitem(obj, k, v)
            for k, v in kwargs.items():
                sx_setitem(obj, k, v)

        return g
    return native


def _set_method(obj, name):
    native = getattr(obj, name)
    if name in ("add", "discard", "remove"):

        def f(key):
            if (type(key) is str or _sym_key(key)) and _scan(obj, key):
                k = _lookup(obj, key)
                if name == "add":
                    if k is _NOTFOUND:
                        SymInt.constant_hash = isinstance(key, SymInt)
                        try:
                            native(key)
                        finally:
                            SymInt.constant_hash = False
                    return None
                if k is not _NOTFOUND:
                    return native(k)
                if name == "remove":
                    raise KeyError(key)
                return None
            return native(key)

        return f
    return native


def sx_fn(f):
    "Maps a callable that is about to be invoked to its symbolic counterpart."
    t = type(f)
    if t in _BUILTIN_METHODS:
        obj = f.__self__
        ot = type(obj)
        if ot is str:
            return _str_method(obj, f.__name__)
        if ot is bytes:
            return _bytes_method(obj, f)
        if isinstance(obj, dict):
            return _dict_method(obj, f.__name__)
        if isinstance(obj, set):
            return _set_method(obj, f.__name__)
        if ot is re.Pattern and f.__name__ in (
            "match",
            "fullmatch",
            "search",
            "finditer",
            "findall",
            "sub",
            "split",
        ):
            return rx.pattern_method(obj, f.__name__)
    try:
        g = _FN.get(f)
    except TypeError:
        return f
    return g if g is not None else f


def sx_strattr(cls, name):
    if cls is str and name in _STR_METHODS and name != "maketrans":
        sym = getattr(SymStr, name)
        native = getattr(str, name)

        def f(self, *args, **kwargs):
            if type(self) is SymStr or any(type(a) is SymStr for a in args):
                return sym(SymStr(self), *args, **kwargs)
            return wrap(native(self, *args, **kwargs))

        return f
    return getattr(cls, name)


RUNTIME = {
    "_SX_wrap": wrap,
    "_SX_in": sx_in,
    "_SX_notin": sx_notin,
    "_SX_is": sx_is,
    "_SX_isnot": sx_isnot,
    "_SX_fn": sx_fn,
    "_SX_getitem": sx_getitem,
    "_SX_setitem": sx_setitem,
    "_SX_delitem": sx_delitem,
    "_SX_strattr": sx_strattr,
}


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        data = self.get_data(path)
        tree = ast.parse(data, path)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(RUNTIME)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots
        self.loaded = []

    def find_spec(self, fullname, path, target=None):
        top = fullname.split(".")[0]
        if top not in self.roots:
            return None
        spec = importlib.machinery.PathFinder.find_spec(
            fullname, path if path is not None else [self.roots[top]]
        )
        if spec is None or spec.origin is None or not spec.origin.endswith(".py"):
            return spec
        loader = Loader(fullname, spec.origin)
        self.loaded.append(spec.origin)
        return importlib.util.spec_from_file_location(
            fullname, spec.origin, loader=loader, submodule_search_locations=spec.submodule_search_locations
        )


def install(roots):
    "Instruments top-level packages; `roots` maps a package name to the directory that holds it."
    _init_table()
    finder = Finder(roots)
    sys.meta_path.insert(0, finder)
    return finder
