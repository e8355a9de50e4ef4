"The symbolic implementation of the harness interface."

import z3

from . import api, engine, strings
from .engine import SymBool, SymInt, mkbool, mkint, sym_and, sym_not, sym_or
from .strings import SymStr


class SymEnv:
    symbolic = True

    def __init__(self, path, tags=()):
        self.path = path
        self.tags = tags
        self.checks = 0

    def str(self, name, lo=0, hi=2, alphabet=api.TEXT):
        return strings.sym_str(self.path, name, lo, hi, tuple(alphabet))

    def int(self, name, lo=None, hi=None):
        x = z3.Int(name)
        if lo is not None:
            self.path.solver.add(x >= lo)
        if hi is not None:
            self.path.solver.add(x <= hi)
        self.path.model = None
        self.path.inputs.append((name, lambda m: m.eval(x, model_completion=True).as_long()))
        return SymInt(x)

    def bool(self, name):
        x = z3.Bool(name)
        self.path.inputs.append((name, lambda m: z3.is_true(m.eval(x, model_completion=True))))
        return SymBool(x)

    def choose(self, name, options):
        options = list(options)
        return options[self.path.choose(name, len(options))]

    def name(self, text):
        "A constant string that may be compared with symbolic ones within the same container."
        return SymStr(text)

    def concrete(self, v):
        if isinstance(v, str):
            return strings.realise(v)
        if isinstance(v, SymInt):
            return int(v)
        return v

    def eq(self, a, b):
        return a == b

    def all(self, vs):
        return sym_and(*vs)

    def any(self, vs):
        return sym_or(*vs)

    def not_(self, v):
        return sym_not(v)

    def implies(self, a, b):
        return sym_or(sym_not(a), b)

    def assume(self, cond):
        self.path.assume(cond.expr if isinstance(cond, SymBool) else bool(cond))

    def check(self, cond, message):
        self.checks += 1
        self.path.assert_(cond.expr if isinstance(cond, SymBool) else bool(cond), message)

    def fail(self, message):
        self.checks += 1
        self.path.assert_(False, message)

    def inconclusive(self, message):
        "The harness cannot tell what the code does on this path."
        raise engine.Inconclusive(message)

    def known(self, tag, cond=True):
        "Attributes violations from here on to a recorded finding, when the condition holds."
        if tag not in self.tags:
            return
        self.path.known_active.append((tag, cond.expr if isinstance(cond, SymBool) else bool(cond)))

    def unknown(self):
        self.path.known_active.clear()

    def render(self, v):
        return v
