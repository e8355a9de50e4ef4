"""
The interface between harnesses and the two ways to run them: symbolically (all values, through the solver) and
concretely (the values of one counterexample, against the unmodified code).
"""

import itertools

HARNESSES = {}


class Harness:
    def __init__(self, prop, name, fn, params, thorough_params, max_paths):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.params = params
        self.thorough_params = thorough_params
        self.max_paths = max_paths


def grid(**axes):
    keys = list(axes)
    return [dict(zip(keys, vs)) for vs in itertools.product(*axes.values())]


def harness(prop, params=None, thorough=None, max_paths=200000):
    """
    Registers a harness.

    :param params: A list of keyword arguments; each is explored separately (and in parallel).
    :param thorough: Like `params`, for the thorough tier.
    """

    def wrap(fn):
        HARNESSES[(prop, fn.__name__)] = Harness(
            prop, fn.__name__, fn, params or [{}], thorough or params or [{}], max_paths
        )
        return fn

    return wrap


class ReplayViolation(Exception):
    pass


class ReplayAssumption(BaseException):
    pass


# character classes available to harnesses without importing the solver
UNICODE = ((0, 0xD7FF), (0xE000, 0xEFFFF))
# excludes NUL, which no database accepts in an identifier or a string
TEXT = ((1, 0xD7FF), (0xE000, 0xEFFFF))
ASCII_TEXT = ((1, 0x7F),)
PRINTABLE = ((0x20, 0x7E),)
LOWER = ((97, 122),)
UPPER_LOWER = ((65, 90), (97, 122))
WORD = ((48, 57), (65, 90), (95, 95), (97, 122))


class ConcreteEnv:
    "Runs a harness with the values of a counterexample."

    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.used = []
        self.checks = 0

    def str(self, name, lo=0, hi=2, alphabet=TEXT):
        return self.inputs[name]

    def int(self, name, lo=None, hi=None):
        return self.inputs[name]

    def bool(self, name):
        return self.inputs[name]

    def choose(self, name, options):
        options = list(options)
        return options[self.inputs[name]]

    def name(self, text):
        return text

    def concrete(self, v):
        return v

    def eq(self, a, b):
        return a == b

    def all(self, vs):
        return all(vs)

    def any(self, vs):
        return any(vs)

    def not_(self, v):
        return not v

    def implies(self, a, b):
        return (not a) or b

    def assume(self, cond):
        if not cond:
            raise ReplayAssumption()

    def check(self, cond, message):
        self.checks += 1
        if not cond:
            raise ReplayViolation(message)

    def fail(self, message):
        raise ReplayViolation(message)

    def inconclusive(self, message):
        raise ReplayAssumption()

    def known(self, tag, cond=True):
        pass

    def unknown(self):
        pass

    def render(self, v):
        return v
