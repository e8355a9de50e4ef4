"""
Models of values that the C implementation of the standard library would read from the representation of a symbolic
value: a moment in time that is a symbolic number of seconds away from a fixed one, and a decimal number of symbolic
digits.
"""

import datetime
import decimal

from . import engine, strings
from .engine import Inconclusive, SymInt
from .strings import SymStr, has_symbols, wrap

DAY = 86400
EPOCH = datetime.datetime(1, 1, 1)


class SymDelta:
    "An interval of a symbolic number of seconds."

    def __init__(self, seconds):
        self.seconds_ = seconds

    def __radd__(self, other):
        if isinstance(other, datetime.datetime):
            return moment(other, self.seconds_)
        if isinstance(other, datetime.date):
            return day(other, self.seconds_)
        if isinstance(other, (SymDelta, datetime.timedelta)):
            return SymDelta(_seconds(other) + self.seconds_)
        return NotImplemented

    __add__ = __radd__

    def __rsub__(self, other):
        return SymDelta(-self.seconds_).__radd__(other)

    def __neg__(self):
        return SymDelta(-self.seconds_)

    def __mul__(self, n):
        return SymDelta(self.seconds_ * n)

    __rmul__ = __mul__

    def total_seconds(self):
        return self.seconds_

    @property
    def days(self):
        return self.seconds_ // DAY

    @property
    def seconds(self):
        return self.seconds_ % DAY


def _seconds(delta):
    if isinstance(delta, SymDelta):
        return delta.seconds_
    return delta.days * DAY + delta.seconds


def timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    parts = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
    if not any(isinstance(p, SymInt) for p in parts):
        return datetime.timedelta(*parts)
    if isinstance(microseconds, SymInt) or isinstance(milliseconds, SymInt) or microseconds or milliseconds:
        raise Inconclusive("an interval with fractions of a second")
    return SymDelta(((weeks * 7 + days) * 24 + hours) * 3600 + minutes * 60 + seconds)


class _Model:
    ALLOWED = ()

    def __getattribute__(self, name):
        if name.startswith("_") or name in type(self).ALLOWED:
            return object.__getattribute__(self, name)
        raise Inconclusive(f"no model of {name}() of a moment in time")

    def __hash__(self):
        return 0

    def __eq__(self, other):
        if type(other) is not type(self):
            return False
        return self._key() == other._key()

    def __ne__(self, other):
        return engine.sym_not(self == other)

    def _unordered(self, other):
        raise Inconclusive("order of moments in time")

    __lt__ = __le__ = __gt__ = __ge__ = _unordered


def _in_range(seconds, least, most):
    path = engine.current()
    e = engine.as_z3_int(seconds)
    if path.decide(e < least) or path.decide(e > most):
        raise OverflowError("date value out of range")


class SymMoment(_Model, datetime.datetime):
    ALLOWED = ("tzinfo", "timetz", "time", "date", "replace", "second", "microsecond", "minute", "hour")

    tzinfo = property(lambda self: self._base.tzinfo)
    microsecond = property(lambda self: self._base.microsecond)
    second = property(lambda self: self._since % 60)
    minute = property(lambda self: self._since // 60 % 60)
    hour = property(lambda self: self._since // 3600 % 24)

    def _key(self):
        return self._since

    def timetz(self):
        return time_of(self._since % DAY, self._base.timetz())

    def time(self):
        return time_of(self._since % DAY, self._base.time())

    def date(self):
        return day_of(self._since // DAY)

    def replace(self, tzinfo=True, microsecond=None):
        base = self._base
        if tzinfo is not True:
            base = base.replace(tzinfo=tzinfo)
        if microsecond is not None:
            base = base.replace(microsecond=microsecond)
        return moment_of(self._since, base)

    def __add__(self, other):
        return moment_of(self._since + _seconds(other), self._base)

    def __sub__(self, other):
        if isinstance(other, (SymDelta, datetime.timedelta)):
            return moment_of(self._since - _seconds(other), self._base)
        raise Inconclusive("difference of moments in time")


def moment_of(since, base):
    "A moment as a number of seconds since the first day of the calendar."

    _in_range(since, 0, int((datetime.datetime.max - EPOCH).total_seconds()))
    r = datetime.datetime.__new__(SymMoment, 1, 1, 1)
    r._since = since
    r._base = base
    return r


def moment(base, offset):
    return moment_of(_seconds(base.replace(tzinfo=None) - EPOCH) + offset, base)


class SymDay(_Model, datetime.date):
    ALLOWED = ()

    def _key(self):
        return self._days


def day_of(days):
    _in_range(days, 0, datetime.date.max.toordinal() - 1)
    r = datetime.date.__new__(SymDay, 1, 1, 1)
    r._days = days
    return r


def day(base, offset):
    return day_of(base.toordinal() - 1 + offset // DAY)


class SymTime(_Model, datetime.time):
    ALLOWED = ("tzinfo", "microsecond", "second", "minute", "hour", "replace")

    tzinfo = property(lambda self: self._base.tzinfo)
    microsecond = property(lambda self: self._base.microsecond)
    second = property(lambda self: self._since % 60)
    minute = property(lambda self: self._since // 60 % 60)
    hour = property(lambda self: self._since // 3600)

    def _key(self):
        return self._since

    def replace(self, tzinfo=True, microsecond=None):
        base = self._base
        if tzinfo is not True:
            base = base.replace(tzinfo=tzinfo)
        if microsecond is not None:
            base = base.replace(microsecond=microsecond)
        return time_of(self._since, base)


def time_of(since, base):
    r = datetime.time.__new__(SymTime)
    r._since = since
    r._base = base
    return r


class SymDecimal(decimal.Decimal):
    "A decimal number whose integer coefficient is symbolic; the exponent is not."

    def __getattribute__(self, name):
        if name.startswith("_") or name in ("scaleb", "coefficient", "exponent"):
            return object.__getattribute__(self, name)
        raise Inconclusive(f"no model of {name}() of a decimal number")

    def __hash__(self):
        return 0

    def __eq__(self, other):
        if type(other) is not SymDecimal or other.exponent != self.exponent:
            raise Inconclusive("comparison of decimal numbers")
        return self.coefficient == other.coefficient

    def __ne__(self, other):
        return engine.sym_not(self == other)

    def scaleb(self, n):
        return number(self.coefficient, self.exponent + int(n))

    def __neg__(self):
        return number(-self.coefficient, self.exponent)

    def _power(self, other):
        "The power of ten that another number is."
        if isinstance(other, int):
            other = decimal.Decimal(other)
        if type(other) is decimal.Decimal and other.as_tuple().digits in ((1,),) and other > 0:
            return other.as_tuple().exponent
        if type(other) is decimal.Decimal and other > 0:
            other = other.normalize()
            if other.as_tuple().digits == (1,):
                return other.as_tuple().exponent
        raise Inconclusive("arithmetic on a decimal number")

    def __truediv__(self, other):
        return number(self.coefficient, self.exponent - self._power(other))

    def __mul__(self, other):
        return number(self.coefficient, self.exponent + self._power(other))

    __rmul__ = __mul__


def number(coefficient, exponent):
    r = decimal.Decimal.__new__(SymDecimal)
    r.coefficient = coefficient
    r.exponent = exponent
    return r


def Decimal(value="0", *args):
    if isinstance(value, SymInt):
        return number(value, 0)
    if type(value) is not SymStr or not has_symbols(value):
        return decimal.Decimal(value, *args)
    sign = 1
    al = strings.text_of(value)
    if al and not strings.is_digit(al[0]):
        if strings.atom_eq(al[0], ord("-")):
            sign, al = -1, al[1:]
        elif strings.atom_eq(al[0], ord("+")):
            al = al[1:]
    digits, fraction = [], None
    for a in al:
        if strings.is_digit(a):
            digits.append(a)
            if fraction is not None:
                fraction += 1
        elif fraction is None and strings.atom_eq(a, ord(".")):
            fraction = 0
        else:
            raise decimal.InvalidOperation()
    if not digits:
        raise decimal.InvalidOperation()
    n = 0
    for a in digits:
        e = strings.atom_expr(a)
        n = n * 10 + (e - 48 if isinstance(e, int) else engine.mkint(e - 48))
    return number(sign * n, -(fraction or 0))
