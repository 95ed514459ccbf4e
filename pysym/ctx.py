"""Harness contexts.

The same harness function runs symbolically (SymCtx: values are solver
variables, code under test is instrumented) and concretely (ConCtx: values
come from a solver model, code under test is the plain one)."""

import enum


class HarnessFailure(Exception):
    """Concrete check failure"""


class BaseCtx:

    symbolic = False

    def __init__(self, params):
        self.params = params
        self.labels = set()
        self.observations = []

    def reach(self, label):
        self.labels.add(label)

    def observe(self, name, value):
        self.observations.append((name, value))

    # --- derived inputs

    def pick(self, name, options):
        """One of concrete options (symbolic index, forked)"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        for k in range(len(options) - 1):
            if i == k:
                return options[k]
        return options[-1]

    def flag(self, name):
        """Concrete bool (forked)"""
        return bool(self.bool(name))

    def check_all(self, conds, msg):
        self.check(self.and_(*conds), msg)

    def raises(self, exc, f, *args, **kw):
        try:
            f(*args, **kw)
        except exc:
            return True
        return False

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        return self.and_(self.implies(a, b), self.implies(b, a))


class ConCtx(BaseCtx):

    def __init__(self, params, inputs, pools):
        super().__init__(params)
        self.inputs = inputs
        self.failure = None

    def int(self, name, lo=None, hi=None):
        return self.inputs[name]

    def float(self, name, p, lo, hi):
        return self.inputs[name] / 2 ** p

    def raw(self, name):
        return self.inputs[name]

    def bool(self, name):
        return bool(self.inputs[name])

    def text(self, name, pool, exclude=()):
        return pool[self.inputs[name]]

    def bytes_(self, name, n):
        return self.inputs[name].to_bytes(n, 'big') if n else b''

    def assume(self, cond):
        if not cond:
            raise HarnessFailure('assumption does not hold in replay')

    def check(self, cond, msg):
        if not cond:
            self.failure = self.failure or msg
            raise HarnessFailure(msg)

    def fail(self, msg):
        self.check(False, msg)

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not x

    def eq(self, a, b):
        return a == b

    def ite(self, c, a, b):
        return a if c else b

    def count(self, xs):
        return sum(1 for x in xs if x)


def jsonable(x):
    if isinstance(x, (str, int, float, type(None))):
        return x
    if isinstance(x, (bytes, bytearray, memoryview)):
        return {'__bytes__': bytes(x).hex()}
    if isinstance(x, enum.Enum):
        return str(x)
    if isinstance(x, dict):
        return [[jsonable(k), jsonable(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [jsonable(i) for i in x]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(i) for i in x), key=repr)
    return repr(x)
