from .values import SymInt, mkint, eng
import z3


def or_(a, b):
    """a | b for symbolic non-negative operands"""
    e = eng()
    for k in (8, 16, 24, 32, 40, 48, 56, 64, 20, 30):
        for x, y in ((a, b), (b, a)):
            cond = z3.And(x.e % (1 << k) == 0, x.e >= 0, y.e >= 0,
                          y.e < (1 << k))
            if e.entails(cond):
                return mkint(x.e + y.e)
    return a.__index__() | b.__index__()
