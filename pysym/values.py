"""Symbolic proxy values."""

import z3

from . import engine as _eng
from .engine import Limitation


def eng():
    return _eng.current


def _limit(msg):
    raise eng()._err(Limitation(msg))


class _HashState:
    ok = 0    # >0 while a symbolic-aware container uses native hashing


def sym_hash(x):
    if not _HashState.ok:
        _limit('native hashing of symbolic value')
    return id(x) >> 4


class Sym:
    """Base of all symbolic values"""
    __slots__ = ()
    __hash__ = sym_hash

    def __reduce__(self):
        _limit('pickling of symbolic value')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# ---------------------------------------------------------------------------
# bool

class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    def __repr__(self):
        return f'SymBool({self.e})'

    __hash__ = sym_hash

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __eq__(self, other):
        if isinstance(other, SymBool):
            return mkbool(self.e == other.e)
        if isinstance(other, bool):
            return mkbool(self.e if other else z3.Not(self.e))
        if isinstance(other, (int, float, SymInt)):
            return self._int() == other
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else bnot(r)

    def _int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, other):
        b = bexpr(other)
        return NotImplemented if b is None else mkbool(z3.And(self.e, b))

    __rand__ = __and__

    def __or__(self, other):
        b = bexpr(other)
        return NotImplemented if b is None else mkbool(z3.Or(self.e, b))

    __ror__ = __or__

    def __xor__(self, other):
        b = bexpr(other)
        return NotImplemented if b is None else mkbool(z3.Xor(self.e, b))

    __rxor__ = __xor__

    def __add__(self, other):
        return self._int() + other

    def __radd__(self, other):
        return other + self._int()

    def __format__(self, spec):
        return f'<{self.e}>'


def bexpr(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return None


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bnot(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.e))
    return not x


def band(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not x:
            return False
    return mkbool(z3.And(*es)) if es else True


def bor(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif x:
            return True
    return mkbool(z3.Or(*es)) if es else False


# ---------------------------------------------------------------------------
# int

def iexpr(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return None


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _cmp(op):
    def f(self, other):
        o = iexpr(other)
        if o is None:
            if isinstance(other, float):
                return _cmp_float(op, self, other)
            return NotImplemented
        return mkbool(op(self.e, o))
    return f


def _cmp_float(op, a, f):
    # exact comparison of mathematical int with float (Python semantics)
    if f != f:
        return op is _ne
    if f in (float('inf'), float('-inf')):
        return bool(op(0.0, f))
    n, d = f.as_integer_ratio()
    return mkbool(op(a.e * d, z3.IntVal(n)))


def _lt(a, b): return a < b
def _le(a, b): return a <= b
def _gt(a, b): return a > b
def _ge(a, b): return a >= b
def _eq(a, b): return a == b
def _ne(a, b): return a != b


class SymInt(Sym):
    __slots__ = ('e', 'src')

    def __init__(self, e, src=None):
        self.e = e
        self.src = src    # (segment, byte index) provenance of a single byte

    def __repr__(self):
        return f'SymInt({self.e})'

    def __format__(self, spec):
        return f'<{self.e}>'

    __str__ = __repr__

    __hash__ = sym_hash

    __lt__ = _cmp(_lt)
    __le__ = _cmp(_le)
    __gt__ = _cmp(_gt)
    __ge__ = _cmp(_ge)
    __eq__ = _cmp(_eq)
    __ne__ = _cmp(_ne)

    def __bool__(self):
        return eng().branch(self.e != 0)

    def __index__(self):
        return eng().concretize(self.e)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def _arith(self, other, f):
        o = iexpr(other)
        if o is None:
            return NotImplemented
        return mkint(f(self.e, o))

    def __add__(self, other):
        if isinstance(other, float):
            return self._float(lambda a, b: a + b, other, True)
        return self._arith(other, lambda a, b: a + b)

    def __radd__(self, other):
        if isinstance(other, float):
            return self._float(lambda a, b: b + a, other, True)
        return self._arith(other, lambda a, b: b + a)

    def __sub__(self, other):
        if isinstance(other, float):
            return self._float(lambda a, b: a - b, other, True)
        return self._arith(other, lambda a, b: a - b)

    def __rsub__(self, other):
        if isinstance(other, float):
            return self._float(lambda a, b: b - a, other, True)
        return self._arith(other, lambda a, b: b - a)

    def __mul__(self, other):
        if isinstance(other, float):
            return self._float(lambda a, b: a * b, other)
        if isinstance(other, (int, SymInt, SymBool)):
            return self._arith(other, lambda a, b: a * b)
        if isinstance(other, (list, tuple, str, bytes)):
            return other * self.__index__()
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, other):
        return self._float(lambda a, b: a / b, other)

    def __rtruediv__(self, other):
        return self._float(lambda a, b: b / a, other)

    def _float(self, f, other, additive=False):
        from .floats import int_float_op
        return int_float_op(self, f, other, additive)

    @staticmethod
    def _fdiv(a, b):
        # Python floor division for constant divisor
        if not z3.is_int_value(b):
            b = z3.IntVal(eng().concretize(b))
        bv = b.as_long()
        if bv == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if bv > 0:
            return a / b
        return (-a) / z3.IntVal(-bv)

    @staticmethod
    def _fmod(a, b):
        return a - SymInt._fdiv(a, b) * b if not (
            z3.is_int_value(b) and b.as_long() > 0) else a % b

    def __floordiv__(self, other):
        return self._arith(other, self._fdiv)

    def __rfloordiv__(self, other):
        return self._arith(other, lambda a, b: self._fdiv(b, a))

    def __mod__(self, other):
        return self._arith(other, self._fmod)

    def __rmod__(self, other):
        if isinstance(other, (str, bytes)):
            return NotImplemented
        return self._arith(other, lambda a, b: self._fmod(b, a))

    def __divmod__(self, other):
        return self // other, self % other

    def __rdivmod__(self, other):
        return other // self, other % self

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e < 0, -self.e, self.e))

    def __lshift__(self, other):
        if isinstance(other, SymInt):
            other = other.__index__()
        return self * (1 << other)

    def __rlshift__(self, other):
        return other << self.__index__()

    def __rshift__(self, other):
        if isinstance(other, SymInt):
            other = other.__index__()
        return self // (1 << other)

    def __rrshift__(self, other):
        return other >> self.__index__()

    def __and__(self, other):
        if isinstance(other, int) and not isinstance(other, bool):
            # decompose mask into contiguous runs of ones
            if other >= 0:
                total, i, m = 0, 0, other
                while m:
                    if m & 1:
                        j = i
                        while m & 1:
                            m >>= 1
                            j += 1
                        part = (self // (1 << i)) % (1 << (j - i))
                        total = total + part * (1 << i)
                        i = j
                    else:
                        m >>= 1
                        i += 1
                return total
            return self - (self & ~other)
        if isinstance(other, (SymInt, SymBool, bool)):
            return self & other.__index__()
        return NotImplemented

    __rand__ = __and__

    def __or__(self, other):
        if isinstance(other, int) and not isinstance(other, bool):
            return self + other - (self & other)
        if isinstance(other, SymInt):
            # a | b == a + b when operands share no bits (common packing
            # idiom); otherwise concretize
            from . import packing
            return packing.or_(self, other)
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, other):
        if isinstance(other, int):
            return self + other - (self & other) * 2
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def bit_length(self):
        return self.__index__().bit_length()

    def is_integer(self):
        return True

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from .symbytes import int_to_bytes
        return int_to_bytes(self, length, byteorder, signed)

    def __reversed__(self):
        raise TypeError

    real = property(lambda self: self)
    numerator = real


# ---------------------------------------------------------------------------
# text: element of a finite pool of strings, identified by a code.  The pool
# is chosen by the harness large enough that equality patterns between all
# symbolic texts of the harness are unrestricted.

class Pool:

    def __init__(self, texts):
        self.texts = list(texts)
        self.codes = {t: i for i, t in enumerate(self.texts)}


class SymStr(Sym):
    __slots__ = ('e', 'pool')

    def __init__(self, e, pool):
        self.e = e
        self.pool = pool

    def __repr__(self):
        return f'SymStr({self.e})'

    __str__ = __repr__

    def __format__(self, spec):
        return f'<{self.e}>'

    __hash__ = sym_hash

    def concretize(self):
        return self.pool.texts[eng().concretize(self.e)]

    def __eq__(self, other):
        if isinstance(other, SymStr):
            if other.pool is not self.pool:
                return self.concretize() == other.concretize()
            return mkbool(self.e == other.e)
        if isinstance(other, str):
            c = self.pool.codes.get(other)
            if c is None:
                return False
            return mkbool(self.e == c)
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else bnot(r)

    def _c(self, other):
        return other.concretize() if isinstance(other, SymStr) else other

    def __lt__(self, other):
        return self.concretize() < self._c(other)

    def __le__(self, other):
        return self.concretize() <= self._c(other)

    def __gt__(self, other):
        return self.concretize() > self._c(other)

    def __ge__(self, other):
        return self.concretize() >= self._c(other)

    def __len__(self):
        return len(self.concretize())

    def __bool__(self):
        c = self.pool.codes.get('')
        if c is None:
            return True
        return eng().branch(self.e != c)

    def __iter__(self):
        return iter(self.concretize())

    def __contains__(self, x):
        return self._c(x) in self.concretize()

    def __getitem__(self, i):
        return self.concretize()[i]

    def __add__(self, other):
        return self.concretize() + self._c(other)

    def __radd__(self, other):
        return other + self.concretize()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.concretize(), name)


class OpaqueStr(Sym):
    """Text produced by an encoder known only by its inverse"""
    __slots__ = ('codec', 'data')

    def __init__(self, codec, data):
        self.codec = codec
        self.data = data

    def encode(self, encoding='utf-8', errors='strict'):
        from .symbytes import OpaqueBytes
        return OpaqueBytes(('text', encoding.lower().replace('-', '')), self)

    __hash__ = sym_hash

    def __eq__(self, other):
        if isinstance(other, OpaqueStr) and other.codec == self.codec:
            return deep_eq(self.data, other.data)
        _limit('comparison of opaque text')

    def __ne__(self, other):
        return bnot(self.__eq__(other))


# ---------------------------------------------------------------------------
# structural equality as a single formula (no forking)

def has_sym(x, depth=0):
    if isinstance(x, Sym):
        return True
    if isinstance(x, (str, bytes, int, float, type(None))):
        return False
    if isinstance(x, dict):
        return any(has_sym(k, depth + 1) or has_sym(v, depth + 1)
                   for k, v in dict.items(x))
    if isinstance(x, (tuple, list, set, frozenset)):
        return any(has_sym(i, depth + 1) for i in x)
    return False


def deep_eq(a, b):
    """Structural equality as bool/SymBool without forking if possible"""
    if a is b:
        return True
    if isinstance(a, Sym) or isinstance(b, Sym):
        r = a == b
        return r
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return band(*(deep_eq(i, j) for i, j in zip(a, b)))
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        return band(*(deep_eq(i, j) for i, j in zip(a, b)))
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        rs = []
        for k, v in dict.items(a):
            f = _dict_find(b, k)
            if f is None:
                return False
            rs.append(deep_eq(v, f[0]))
        return band(*rs)
    return a == b


def _dict_find(d, key):
    if not has_sym(key) and not any(has_sym(k) for k in dict.keys(d)):
        return (dict.__getitem__(d, key),) if dict.__contains__(d, key) \
            else None
    for k, v in dict.items(d):
        if deep_eq(k, key):
            return (v,)
    return None
