"Symbolic byte strings, whose items are in the ASCII range, as far as the code needs them."

from . import strings
from .engine import SymBool


def text(b):
    "Byte strings as text that has a character for each byte."
    return b.text if type(b) is SymBytes else b.decode("latin-1")


def _opt(b):
    return None if b is None else text(b)


class SymBytes:
    __slots__ = ("text",)

    def __init__(self, value):
        self.text = strings.SymStr(value)

    def __len__(self):
        return len(self.text)

    def __bool__(self):
        return bool(self.text)

    def __eq__(self, other):
        if not isinstance(other, (bytes, bytearray, SymBytes)):
            return NotImplemented
        return self.text == strings.SymStr(text(other))

    def __ne__(self, other):
        r = self.__eq__(other)
        if r is NotImplemented:
            return r
        from .engine import sym_not

        return sym_not(r)

    def __hash__(self):
        return strings.SYM_HASH

    def __add__(self, other):
        return make(self.text + text(other))

    def __radd__(self, other):
        return make(strings.SymStr(text(other)) + self.text)

    def __iter__(self):
        from .rewrite import sx_ord

        return (sx_ord(c) for c in self.text)

    def __getitem__(self, key):
        if isinstance(key, slice):
            return make(self.text[key])
        from .rewrite import sx_ord

        return sx_ord(self.text[key])

    def __contains__(self, item):
        return self.text.find(text(item) if not isinstance(item, int) else chr(item)) >= 0

    def __repr__(self):
        return "SymBytes()"

    def decode(self, encoding="utf-8", errors="strict"):
        return self.text

    def strip(self, chars=None):
        return make(self.text.strip(text(chars) if chars is not None else _WS))

    def lstrip(self, chars=None):
        return make(self.text.lstrip(text(chars) if chars is not None else _WS))

    def rstrip(self, chars=None):
        return make(self.text.rstrip(text(chars) if chars is not None else _WS))

    def removesuffix(self, suffix):
        return make(self.text.removesuffix(text(suffix)))

    def removeprefix(self, prefix):
        return make(self.text.removeprefix(text(prefix)))

    def startswith(self, prefix):
        return self.text.startswith(tuple(text(p) for p in prefix) if isinstance(prefix, tuple) else text(prefix))

    def endswith(self, suffix):
        return self.text.endswith(tuple(text(p) for p in suffix) if isinstance(suffix, tuple) else text(suffix))

    def find(self, sub, *args):
        return self.text.find(text(sub), *args)

    def isspace(self):
        return bool(self) and not self.strip()

    def count(self, sub):
        return self.text.count(text(sub))

    def replace(self, old, new, count=-1):
        return make(self.text.replace(text(old), text(new), count))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise NotImplementedError("split at whitespace")
        return [make(s) for s in self.text.split(text(sep), maxsplit)]

    def splitlines(self, keepends=False):
        raise NotImplementedError("splitlines")

    def join(self, items):
        return join(self, items)


# whitespace in byte strings
_WS = " \t\n\r\x0b\x0c"


def make(s):
    return SymBytes(s)


def join(sep, items):
    r = None
    for i in items:
        r = i if r is None else r + sep + i
    return b"" if r is None else r


class SymBytesIO:
    "A stream in memory."

    def __init__(self, initial=b""):
        self.chunks = [initial] if len(initial) else []
        self.pos = 0

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False

    def write(self, data):
        self.chunks.append(data)
        return len(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def getvalue(self):
        return join(b"", self.chunks)

    getbuffer = getvalue

    def read(self, size=-1):
        value = self.getvalue()[self.pos :]
        if size is not None and size >= 0:
            value = value[:size]
        self.pos += len(value)
        return value

    def seek(self, pos, whence=0):
        self.pos = pos if whence == 0 else len(self.getvalue()) + pos
        return self.pos

    def tell(self):
        return self.pos

    def close(self):
        pass
