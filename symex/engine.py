"""
Symbolic execution core: paths, decisions, symbolic booleans and integers.

A harness is re-executed once per feasible path. Every branch on a symbolic value goes through `Path.decide`, which
asks the SMT solver which outcomes are feasible under the constraints collected so far; alternatives are explored
depth-first until none remains. Assertions are discharged by asking the solver for an assignment that satisfies the path
constraint and the negated assertion.
"""

import time

import z3


class PathAbort(BaseException):
    "The current path is infeasible (an assumption is contradicted); not an error."


class Inconclusive(BaseException):
    "The engine cannot continue on this path (solver unknown or an unsupported operation)."


class Failure(BaseException):
    "An assertion has been shown to be violable on this path."

    def __init__(self, message, model_inputs, known=None):
        super().__init__(message)
        self.message = message
        self.inputs = model_inputs
        self.known = known


class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.assertions = 0
        self.assertion_queries = 0
        self.decisions = 0
        self.forks = 0
        self.realised = 0
        self.inconclusive = 0
        self.reached = 0
        self.functions = set()
        self.notes = {}

    def note(self, text):
        self.notes[text] = self.notes.get(text, 0) + 1


class Decision:
    __slots__ = ("value", "alternatives")

    def __init__(self, value, alternatives):
        self.value = value
        self.alternatives = alternatives


CHAR_BASE = 0xF0000
CHAR_LIMIT = 0xFFFFD
TOK_BASE = 0x100000
TOK_LIMIT = 0x10FFFD

_current = None


def current():
    return _current


def set_current(path):
    global _current
    _current = path


class Char:
    "A symbolic character: an integer term for the code point, and an over-approximation of its values."

    __slots__ = ("expr", "dom", "index", "unary")

    def __init__(self, expr, dom, index, unary):
        self.expr = expr
        self.dom = dom
        self.index = index
        # True when `dom` holds exactly the values allowed by the constraints that mention this character alone
        self.unary = unary


class Tok:
    "The decimal rendering of a non-negative symbolic integer, as a single pseudo-character."

    __slots__ = ("expr", "index")

    def __init__(self, expr, index):
        self.expr = expr
        self.index = index


class Path:
    def __init__(self, solver, prefix, stats, timeout_ms):
        self.solver = solver
        self.prefix = prefix
        self.pos = 0
        self.stats = stats
        self.model = None
        self.chars = []
        self.toks = []
        self.inputs = []  # (name, function from model to JSON value)
        self.fresh = 0
        self.known_active = []
        self.on_known = None
        self.timeout_ms = timeout_ms
        self.realise_budget = {}
        # values of hexadecimal digits, by identifier of the term for the character
        self.digits = {}

    # -- terms -------------------------------------------------------------------------------------------------------

    def fresh_int(self, hint="v"):
        self.fresh += 1
        return z3.Int(f"{hint}!{self.fresh}")

    def fresh_bool(self, hint="b"):
        self.fresh += 1
        return z3.Bool(f"{hint}!{self.fresh}")

    def new_char(self, expr, dom, unary=True):
        code = CHAR_BASE + len(self.chars)
        if code > CHAR_LIMIT:
            raise Inconclusive("too many symbolic characters")
        c = Char(expr, dom, len(self.chars), unary)
        self.chars.append(c)
        return chr(code)

    def new_tok(self, expr):
        code = TOK_BASE + len(self.toks)
        if code > TOK_LIMIT:
            raise Inconclusive("too many symbolic numbers")
        for t in self.toks:
            if t.expr.eq(expr):
                return chr(TOK_BASE + t.index)
        t = Tok(expr, len(self.toks))
        self.toks.append(t)
        return chr(code)

    # -- solver ------------------------------------------------------------------------------------------------------

    def add(self, e):
        self.solver.add(e)
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def check(self, *extra):
        start = time.monotonic()
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
        r = self.solver.check()
        model = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats.queries += 1
        self.stats.solver_s += time.monotonic() - start
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
            raise Inconclusive("solver returned unknown")
        return model

    def ensure_model(self):
        if self.model is None:
            self.model = self.check()
            if self.model is None:
                raise PathAbort()
        return self.model

    # -- decisions ---------------------------------------------------------------------------------------------------

    def decide(self, e):
        "Takes a branch on a boolean term; the other branch is scheduled when it is feasible."
        if e is True or e is False:
            return e
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.add(e if d.value else z3.Not(e))
            return d.value
        self.stats.decisions += 1
        m = self.ensure_model()
        v = z3.is_true(m.eval(e, model_completion=True))
        other = self.check(z3.Not(e) if v else e)
        d = Decision(v, [not v] if other is not None else [])
        if other is not None:
            self.stats.forks += 1
        self.prefix.append(d)
        self.pos += 1
        self.solver.add(e if v else z3.Not(e))
        return v

    def choose(self, name, n):
        "An n-way branch over a fresh integer input in [0, n)."
        x = z3.Int(name)
        self.inputs.append((name, lambda m: m.eval(x, model_completion=True).as_long()))
        self.solver.add(x >= 0, x < n)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            self.stats.decisions += 1
            self.stats.forks += n - 1
            d = Decision(0, list(range(1, n)))
            self.prefix.append(d)
        self.pos += 1
        self.model = None
        self.solver.add(x == d.value)
        return d.value

    def concretise(self, expr, limit=40):
        "Enumerates the values of an integer term by forking (exhaustive up to `limit` values)."
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        for k in range(limit):
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                v, taken = d.value
                self.add(expr == v if taken else expr != v)
                if taken:
                    return v
                continue
            m = self.ensure_model()
            v = m.eval(expr, model_completion=True).as_long()
            other = self.check(expr != v)
            d = Decision((v, True), [(v, False)] if other is not None and k + 1 < limit else [])
            if other is not None and k + 1 >= limit:
                self.stats.realised += 1
                self.stats.note("integer pinned after %d values" % limit)
            self.prefix.append(d)
            self.pos += 1
            self.solver.add(expr == v)
            return v
        raise PathAbort()

    def pin(self, expr):
        "Fixes an integer term to one value; the remaining values are not explored (recorded as realised)."
        return self.concretise(expr, 1)

    def assume(self, e):
        if e is True:
            return
        if e is False:
            raise PathAbort()
        self.add(e)
        self.ensure_model()

    def model_inputs(self, model):
        return {name: f(model) for name, f in self.inputs}

    def assert_(self, e, message):
        "Discharges an assertion: is there an assignment on this path that falsifies it?"
        self.stats.assertions += 1
        if e is True or (not isinstance(e, bool) and z3.is_true(e)):
            return
        if e is False or z3.is_false(e):
            negated = []
        else:
            negated = [z3.Not(e)]
        self.stats.assertion_queries += 1
        m = self.check(*negated, *self.outside_known())
        if m is not None:
            raise Failure(message, self.model_inputs(m))
        if self.known_active:
            for tag, k in self.known_active:
                if k is False:
                    continue
                m = self.check(*negated, *([] if k is True else [k]))
                if m is not None and self.on_known is not None:
                    self.on_known(Failure(message, self.model_inputs(m), tag))
        if not negated:
            # everything that is left on this path is attributed to a recorded finding
            raise PathAbort()
        self.solver.add(e)
        self.model = None
        self.ensure_model()

    def outside_known(self):
        "Excludes the regions of recorded findings."
        out = []
        for _, k in self.known_active:
            if k is False:
                continue
            out.append(z3.BoolVal(False) if k is True else z3.Not(k))
        return out


def as_z3_bool(v):
    if isinstance(v, SymBool):
        return v.expr
    return bool(v)


def as_z3_int(v):
    if isinstance(v, SymInt):
        return v.expr
    if isinstance(v, SymBool):
        return z3.If(v.expr, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, int):
        return z3.IntVal(int(v))
    return None


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymBool:
    __slots__ = ("expr",)

    def __init__(self, expr):
        self.expr = expr

    def __bool__(self):
        return current().decide(self.expr)

    def __eq__(self, other):
        if isinstance(other, SymBool):
            return mkbool(self.expr == other.expr)
        if isinstance(other, bool):
            return mkbool(self.expr if other else z3.Not(self.expr))
        if isinstance(other, (int, SymInt)):
            return mkbool(as_z3_int(self) == as_z3_int(other))
        return False

    def __ne__(self, other):
        return sym_not(self.__eq__(other))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, other):
        o = as_z3_bool(other)
        return mkbool(z3.And(self.expr, o))

    __rand__ = __and__

    def __or__(self, other):
        return mkbool(z3.Or(self.expr, as_z3_bool(other)))

    __ror__ = __or__

    def __xor__(self, other):
        return mkbool(z3.Xor(self.expr, z3.BoolVal(other) if isinstance(other, bool) else other.expr))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.expr))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return "True" if self else "False"

    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __add__(self, other):
        return SymInt(as_z3_int(self)) + other

    __radd__ = __add__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def sym_not(v):
    if isinstance(v, SymBool):
        return mkbool(z3.Not(v.expr))
    if v is NotImplemented:
        return v
    return not v


def sym_and(*vs):
    es = []
    for v in vs:
        if isinstance(v, SymBool):
            es.append(v.expr)
        elif not v:
            return False
    return mkbool(z3.And(*es)) if es else True


def sym_or(*vs):
    es = []
    for v in vs:
        if isinstance(v, SymBool):
            es.append(v.expr)
        elif v:
            return True
    return mkbool(z3.Or(*es)) if es else False


def mkint(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _arith(f):
    def op(self, other):
        o = as_z3_int(other)
        if o is None:
            return NotImplemented
        return mkint(f(self.expr, o))

    return op


def _rarith(f):
    def op(self, other):
        o = as_z3_int(other)
        if o is None:
            return NotImplemented
        return mkint(f(o, self.expr))

    return op


def _cmp(f):
    def op(self, other):
        o = as_z3_int(other)
        if o is None:
            if isinstance(other, float):
                return f(self.__index__(), other)
            return NotImplemented
        return mkbool(f(self.expr, o))

    return op


def _floordiv(a, b):
    # z3 `div` is Euclidean; Python rounds toward minus infinity
    q = a / b
    return z3.If(b > 0, q, z3.If(a % b == 0, q, q - 1))


def _mod(a, b):
    return a - b * _floordiv(a, b)


class SymInt:
    "A symbolic integer. Not a subclass of int, so that native code can never read a bogus value from it."

    __slots__ = ("expr",)

    def __init__(self, expr):
        self.expr = expr

    __add__ = _arith(lambda a, b: a + b)
    __radd__ = _rarith(lambda a, b: a + b)
    __sub__ = _arith(lambda a, b: a - b)
    __rsub__ = _rarith(lambda a, b: a - b)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __mul__(self, other):
        if isinstance(other, (str, bytes, list, tuple)):
            return other * self.__index__()
        o = as_z3_int(other)
        if o is None:
            return NotImplemented
        return mkint(self.expr * o)

    __rmul__ = __mul__

    def __eq__(self, other):
        o = as_z3_int(other)
        if o is None:
            if isinstance(other, float):
                return self.__index__() == other
            return False
        return mkbool(self.expr == o)

    def __ne__(self, other):
        return sym_not(self.__eq__(other))

    # whether to hash to a constant: in a container that only rewritten code accesses
    constant_hash = False

    def __hash__(self):
        if SymInt.constant_hash:
            return 0
        return hash(self.__index__())

    def __bool__(self):
        return current().decide(self.expr != 0)

    def __index__(self):
        return current().concretise(self.expr)

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __neg__(self):
        return mkint(-self.expr)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.expr >= 0, self.expr, -self.expr))

    def __floordiv__(self, other):
        o = as_z3_int(other)
        if o is None:
            return NotImplemented
        if current().decide(o == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        return mkint(_floordiv(self.expr, o))

    def __rfloordiv__(self, other):
        if current().decide(self.expr == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        return mkint(_floordiv(as_z3_int(other), self.expr))

    def __mod__(self, other):
        o = as_z3_int(other)
        if o is None:
            return NotImplemented
        if current().decide(o == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        return mkint(_mod(self.expr, o))

    def __rmod__(self, other):
        if isinstance(other, str):
            from .strings import str_percent

            return str_percent(other, self)
        return mkint(_mod(as_z3_int(other), self.expr))

    def __divmod__(self, other):
        return self // other, self % other

    def __truediv__(self, other):
        return self.__index__() / other

    def __rtruediv__(self, other):
        return other / self.__index__()

    def __pow__(self, other):
        return self.__index__() ** other

    def __rpow__(self, other):
        return other ** self.__index__()

    def __lshift__(self, other):
        if isinstance(other, int):
            return self * (1 << other)
        return self.__index__() << other

    def __rlshift__(self, other):
        return other << self.__index__()

    def __rshift__(self, other):
        return self // (1 << int(other))

    def __rrshift__(self, other):
        return other >> self.__index__()

    def __and__(self, other):
        return self.__index__() & other

    __rand__ = __and__

    def __or__(self, other):
        return self.__index__() | other

    __ror__ = __or__

    def bit_length(self):
        return self.__index__().bit_length()

    def __round__(self, n=None):
        return self

    def __str__(self):
        from .strings import render_int

        return render_int(self)

    __repr__ = __str__

    def __format__(self, spec):
        if spec in ("", "d"):
            return str(self)
        return format(self.__index__(), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class Explorer:
    "Depth-first exploration of all feasible paths of a harness."

    def __init__(self, max_paths=200000, deadline=None, timeout_ms=20000, seed=0):
        self.stats = Stats()
        self.max_paths = max_paths
        self.deadline = deadline
        self.timeout_ms = timeout_ms
        self.seed = seed
        self.complete = False

    def run(self, fn, on_failure, on_error, on_path=None, prefix=None):
        """
        Explores `fn(path)`.

        :param on_failure: Called with a `Failure`; returns True to continue exploration.
        :param on_error: Called with (exception, inputs, known) for an exception that escapes the harness; same contract.
        """

        prefix = prefix if prefix is not None else []
        base = len(prefix)
        while True:
            if self.stats.paths >= self.max_paths or (
                self.deadline is not None and time.monotonic() > self.deadline
            ):
                self.complete = False
                return
            solver = z3.SimpleSolver()
            solver.set("timeout", self.timeout_ms)
            solver.set("random_seed", self.seed)
            path = Path(solver, prefix, self.stats, self.timeout_ms)
            set_current(path)
            self.stats.paths += 1
            go_on = True
            try:
                try:
                    fn(path)
                    if on_path is not None:
                        on_path(path)
                finally:
                    pass
            except PathAbort:
                self.stats.infeasible += 1
            except Inconclusive as ex:
                self.stats.inconclusive += 1
                self.stats.note(f"inconclusive: {ex}")
            except Failure as ex:
                go_on = on_failure(ex)
            except Exception as ex:
                try:
                    m = path.check(*path.outside_known())
                    if m is not None:
                        go_on = on_error(ex, path.model_inputs(m), None)
                    else:
                        for tag, k in path.known_active:
                            if k is not False:
                                m = path.check(*([] if k is True else [k]))
                                if m is not None:
                                    on_error(ex, path.model_inputs(m), tag)
                except PathAbort:
                    self.stats.infeasible += 1
                except Inconclusive as ex2:
                    self.stats.inconclusive += 1
                    self.stats.note(f"inconclusive: {ex2}")
            finally:
                set_current(None)
            if not go_on:
                self.complete = False
                return
            # next path
            del prefix[path.pos :]
            while len(prefix) > base and not prefix[-1].alternatives:
                prefix.pop()
            if len(prefix) <= base:
                self.complete = True
                return
            prefix[-1] = Decision(prefix[-1].alternatives[0], prefix[-1].alternatives[1:])
