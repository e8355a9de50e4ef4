"A model of the native parser of tab-separated values, as far as types `str`, `int` and omitted values are concerned."

import tsv.helper
import tsv.parser

from . import rewrite, strings
from .strings import SymStr, wrap
from .symbytes import SymBytes


def as_text(b):
    return b.text if type(b) is SymBytes else b.decode("utf-8")


ESCAPES = {"\\": "\\", "0": "\0", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}


def unescape(s):
    out = ""
    k = s.find("\\")
    while k >= 0:
        out = out + s[:k]
        if k + 1 >= len(s):
            raise ValueError("invalid character escape sequence")
        c = s[k + 1]
        for e, r in ESCAPES.items():
            if c == e:
                out = out + r
                break
        else:
            raise ValueError("invalid character escape sequence")
        s = s[k + 2 :]
        k = s.find("\\")
    return wrap(out + s)


def escape(s):
    for c, r in ESCAPES.items():
        s = s.replace(r, "\\" + c)
    return s


def parse_value(kind, cell):
    s = SymStr(as_text(cell))
    if kind == "_":
        return None
    if s == "\\N":
        return None
    if kind == "s":
        return unescape(s)
    if kind == "i":
        return rewrite.sx_int(s)
    if strings.has_symbols(s):
        raise NotImplementedError(kind)
    # the native parser
    return tsv.parser.parse_record(kind, ("".join([str.__str__(s)]).encode("utf-8"),))[0]


class Parser:
    def __init__(self, fields):
        self._format = tsv.helper.types_to_format_str(fields)

    def parse_record(self, record):
        if len(record) != len(self._format):
            raise ValueError("invalid record")
        return tuple(parse_value(f, c) for f, c in zip(self._format, record))

    def parse_line(self, line):
        return self.parse_record(tuple(line.split(b"\t")))

    def parse_file(self, file):
        return [self.parse_line(line.rstrip(b"\n")) for line in file]


class AutoDetectParser(Parser):
    def __init__(self, names_to_types, header):
        self.columns = tuple(wrap(as_text(c)) for c in header.split(b"\t"))
        super().__init__(tuple(rewrite.sx_getitem(names_to_types, n) for n in self.columns))


class Generator:
    def generate_value(self, v):
        if type(v) is SymStr or type(v) is str:
            return escape(SymStr(v)).encode("utf-8")
        if rewrite.sx_isinstance(v, int) and not rewrite.sx_isinstance(v, bool):
            return SymBytes(rewrite.sx_str(v))
        return tsv.helper.generate_value(v)

    def generate_record(self, record):
        return tuple(self.generate_value(v) for v in record)

    def generate_line(self, record):
        from .symbytes import join

        return join(b"\t", self.generate_record(record))
