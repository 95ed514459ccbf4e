"""Symbolic IEEE doubles: a finite double is a Real term; every operation
computes the exact real result `a` and yields a fresh real `r` within the
rounding error of round-to-nearest (|r - a| <= |a| 2^-53).  This contains the
IEEE result, so what is proved holds for doubles.  Counterexamples are refined
(Engine.check): inputs are fixed, every `r` is replaced by the correctly
rounded `a`, and the assertion is asked again.

Outside: infinities, NaN, subnormals, products of two symbolic values."""

import fractions

import z3

from .values import (Sym, SymInt, SymBool, mkbool, mkint, bnot, eng, _limit,
                     sym_hash, iexpr)


def _rv(f):
    n, d = f.as_integer_ratio()
    return z3.Q(n, d)


def rexpr(x):
    if isinstance(x, SymFloat):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.ToReal(iexpr(x))
    if isinstance(x, (bool, int)):
        return z3.RealVal(int(x))
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            _limit('non-finite float')
        return _rv(x)
    return None


def _frac(v):
    if z3.is_int_value(v):
        return fractions.Fraction(v.as_long())
    return fractions.Fraction(v.numerator_as_long(), v.denominator_as_long())


def pow2(e):
    return z3.Q(2 ** e, 1) if e >= 0 else z3.Q(1, 2 ** -e)


def floor_log2(f):
    """Exponent e with 2^e <= f < 2^(e+1)"""
    e = f.numerator.bit_length() - f.denominator.bit_length()
    if fractions.Fraction(2) ** e > f:
        e -= 1
    return e


def to_int_expr(e):
    """Int expression of an integer valued linear Real expression or None"""
    e = z3.simplify(e, som=True, flat=True)
    if z3.is_rational_value(e):
        f = _frac(e)
        return z3.IntVal(f.numerator) if f.denominator == 1 else None
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return e.arg(0)
    if k == z3.Z3_OP_ADD:
        parts = [to_int_expr(c) for c in e.children()]
        return None if any(p is None for p in parts) else z3.Sum(*parts)
    if k == z3.Z3_OP_MUL and e.num_args() == 2:
        parts = [to_int_expr(c) for c in e.children()]
        if any(p is None for p in parts):
            return None
        return parts[0] * parts[1]
    if k == z3.Z3_OP_UMINUS:
        p = to_int_expr(e.arg(0))
        return None if p is None else -p
    return None


def exact_round(f):
    """Correctly rounded double (as Fraction) of Fraction"""
    return fractions.Fraction(f.numerator / f.denominator)


def exponent(a):
    """Smallest e, within limits, for which a <= 2^e always holds"""
    en = eng()
    lo, hi = -4, 64
    if not en.entails(a <= pow2(hi)):
        return None
    while lo < hi:
        e = (lo + hi) // 2
        if en.entails(a <= pow2(e)):
            hi = e
        else:
            lo = e + 1
    return hi


def round_double(x, g=None):
    """SymFloat nearest to exact Real x; g: x is a multiple of 2^-g"""
    en = eng()
    x = z3.simplify(x)
    if z3.is_rational_value(x):
        f = _frac(x)
        return f.numerator / f.denominator
    if g is not None:
        b = z3.Q(2 ** (53 - g), 1) if g <= 53 else z3.Q(1, 2 ** (g - 53))
        if en.entails(z3.And(x <= b, x >= -b)):
            return SymFloat(x, g)    # representable: no rounding
    a = z3.simplify(-x if en.branch(x < 0) else x)
    top = exponent(a)
    r = en.fresh_real('fr')
    bounds = [a * z3.Q(1, 2 ** 53)]
    if top is not None:
        # half of the distance between doubles below 2^top
        bounds.append(pow2(top - 54))
    en.assume_def(z3.And(*(c for b in bounds
                           for c in (r - x <= b, x - r <= b))))
    en.float_ops.append((x, r))
    return SymFloat(r)


class SymFloat(Sym):
    __slots__ = ('e', 'g')
    __hash__ = sym_hash

    def __init__(self, e, g=None):
        self.e = z3.simplify(e)
        self.g = g

    def __repr__(self):
        return f'SymFloat({self.e})'

    def __format__(self, spec):
        return f'<{self.e}>'

    def __bool__(self):
        return eng().branch(self.e != 0)

    def _cmp(self, other, op):
        o = rexpr(other)
        return NotImplemented if o is None else mkbool(op(self.e, o))

    def __lt__(self, other):
        return self._cmp(other, lambda a, b: a < b)

    def __le__(self, other):
        return self._cmp(other, lambda a, b: a <= b)

    def __gt__(self, other):
        return self._cmp(other, lambda a, b: a > b)

    def __ge__(self, other):
        return self._cmp(other, lambda a, b: a >= b)

    def __eq__(self, other):
        return self._cmp(other, lambda a, b: a == b)

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else bnot(r)

    def _op(self, other, f, additive=False):
        return float_op(self, other, f, additive)

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b, True)

    def __radd__(self, o):
        return self._op(o, lambda a, b: b + a, True)

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b, True)

    def __rsub__(self, o):
        return self._op(o, lambda a, b: b - a, True)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Sym):
            _limit('division by symbolic value')
        if o == 0:
            raise ZeroDivisionError('float division by zero')
        return self._op(o, lambda a, b: a / b)

    def __neg__(self):
        return SymFloat(-self.e, self.g)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(z3.If(self.e < 0, -self.e, self.e), self.g)

    def _floor(self):
        """Integer expression of floor"""
        n = self.num()
        if n is not None:
            return n / z3.IntVal(2 ** self.g)
        en = eng()
        k = en.fresh_int('ff')
        r = z3.ToReal(k)
        en.assume_def(z3.And(r <= self.e, self.e < r + 1))
        return k

    def num(self):
        """Integer n with value n / 2^g"""
        if self.g is None or self.g > 200:
            return None
        return to_int_expr(self.e * z3.Q(2 ** self.g, 1))

    def trunc(self):
        if eng().branch(self.e >= 0):
            return mkint(self._floor())
        return mkint(-SymFloat(-self.e, self.g)._floor())

    __trunc__ = trunc

    def __int__(self):
        return int(self.trunc())

    def __floor__(self):
        return mkint(self._floor())

    def __ceil__(self):
        return mkint(-SymFloat(-self.e, self.g)._floor())

    def __floordiv__(self, o):
        if isinstance(o, Sym) or o != 1:
            _limit('float floor division')
        return SymFloat(z3.ToReal(self._floor()), 0)

    def __mod__(self, o):
        # exact for modulus 1 except for tiny negative values (rounds to 1.0)
        if isinstance(o, Sym) or o != 1:
            _limit('float modulo')
        return round_double(self.e - z3.ToReal(self._floor()), self.g)

    def __divmod__(self, o):
        return self // o, self % o

    def is_integer(self):
        return mkbool(self.e == z3.ToReal(self._floor()))

    def __round__(self, n=None):
        if n is not None:
            _limit('round to digits')
        en = eng()
        k = en.fresh_int('fk')
        d = self.e - z3.ToReal(k)
        half = z3.Q(1, 2)
        en.assume_def(z3.And(d <= half, -d <= half,
                             z3.Implies(z3.Or(d == half, -d == half),
                                        k % 2 == 0)))
        return mkint(k)

    def __float__(self):
        _limit('native float conversion')


def gran(x):
    """g such that x is a multiple of 2^-g"""
    if isinstance(x, SymFloat):
        return x.g
    if isinstance(x, (int, SymInt, SymBool)):
        return 0
    d = x.as_integer_ratio()[1]
    return d.bit_length() - 1


def float_op(a, b, f, additive=False):
    x, y = rexpr(a), rexpr(b)
    if x is None or y is None:
        return NotImplemented
    if isinstance(a, SymInt) or isinstance(a, int):
        a = to_float(a)
        x = rexpr(a)
    if isinstance(b, SymInt) or isinstance(b, int):
        b = to_float(b)
        x, y = rexpr(a), rexpr(b)
    r = z3.simplify(f(x, y))
    g = None
    if additive and gran(a) is not None and gran(b) is not None:
        g = max(gran(a), gran(b))
    return round_double(r, g)


def int_float_op(a, f, b, additive=False):
    """SymInt op (int, float, SymInt, SymFloat) with float result"""
    if isinstance(b, (int, SymInt)) and not isinstance(b, bool):
        # int / int: correctly rounded quotient
        if isinstance(b, SymInt) and isinstance(a, SymInt):
            _limit('division of symbolic integers')
        x, y = rexpr(a), rexpr(b)
        probe = f(8, 2)
        if probe == 4.0:
            if y is not None and z3.is_rational_value(z3.simplify(y)) and \
                    _frac(z3.simplify(y)) == 0:
                raise ZeroDivisionError('division by zero')
            return round_double(f(x, y))
        _limit('division by symbolic value')
    return float_op(a, b, f, additive)


def to_float(x):
    if isinstance(x, (int, float)):
        return float(x)
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, (SymInt, SymBool)):
        e = iexpr(x)
        if eng().entails(z3.And(e >= -2 ** 53, e <= 2 ** 53)):
            return SymFloat(z3.ToReal(e), 0)
        return round_double(z3.ToReal(e), 0)
    _limit('float conversion')
