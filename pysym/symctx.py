import z3

from . import values as V
from . import symbytes as B
from . import engine as E
from .ctx import BaseCtx
from .floats import SymFloat, _frac
from .dispatch import PDict, PSet


class SymCtx(BaseCtx):

    symbolic = True

    def __init__(self, params, engine, pools):
        super().__init__(params)
        self.engine = engine
        self.pools = pools

    def int(self, name, lo=None, hi=None):
        e = z3.Int(name)
        cons = []
        if lo is not None:
            cons.append(e >= lo)
        if hi is not None:
            cons.append(e <= hi)
        self.engine.declare(name, 'int', e, cons)
        return V.SymInt(e)

    def float(self, name, p, lo, hi):
        """Double k / 2^p with lo <= value <= hi"""
        from .floats import SymFloat
        k = self.int(name, lo * 2 ** p, hi * 2 ** p)
        assert abs(lo) * 2 ** p <= 2 ** 53 and abs(hi) * 2 ** p <= 2 ** 53
        return SymFloat(z3.ToReal(k.e) * z3.Q(1, 2 ** p), p)

    def raw(self, name):
        return V.SymInt(self.engine.inputs[name][1])

    def bool(self, name):
        e = z3.Bool(name)
        self.engine.declare(name, 'bool', e)
        return V.SymBool(e)

    def text(self, name, pool, exclude=()):
        key = tuple(pool)
        p = self.pools.get(key)
        if p is None:
            p = self.pools[key] = V.Pool(pool)
        e = z3.Int(name)
        cons = [e >= 0, e < len(pool)]
        cons += [e != p.codes[t] for t in exclude]
        self.engine.declare(name, 'int', e, cons)
        return V.SymStr(e, p)

    def bytes_(self, name, n):
        if not n:
            return b''
        e = z3.Int(name)
        self.engine.declare(name, 'int', e, [e >= 0, e < 256 ** n])
        return B.make([(B.Base(n, e), 0, n)])

    def assume(self, cond):
        if isinstance(cond, V.SymBool):
            self.engine.assume(cond.e)
        elif not cond:
            raise self.engine._err(E.PathAbort())

    def check(self, cond, msg):
        if isinstance(cond, V.SymBool):
            self.engine.check(cond.e, msg)
        elif not cond:
            self.engine.fail(msg)
        else:
            self.engine.stats.checks += 1
            self.engine.stats.checks_proved += 1
            self.engine.stats.checks_trivial += 1

    def fail(self, msg):
        self.engine.fail(msg)

    def and_(self, *xs):
        return V.band(*xs)

    def or_(self, *xs):
        return V.bor(*xs)

    def not_(self, x):
        return V.bnot(x)

    def eq(self, a, b):
        return V.deep_eq(a, b)

    def ite(self, c, a, b):
        if not isinstance(c, V.SymBool):
            return a if c else b
        if isinstance(a, V.SymStr):
            return V.SymStr(z3.If(c.e, a.e, b.e), a.pool)
        return V.mkint(z3.If(c.e, V.iexpr(a), V.iexpr(b)))

    def count(self, xs):
        r = 0
        for x in xs:
            if isinstance(x, V.SymBool):
                r = r + x._int()
            else:
                r = r + (1 if x else 0)
        return r


def evaluate(x, model):
    """Concrete value of possibly symbolic structure under a model"""
    if isinstance(x, V.SymBool):
        return z3.is_true(model.eval(x.e, model_completion=True))
    if isinstance(x, V.SymInt):
        return model.eval(x.e, model_completion=True).as_long()
    if isinstance(x, SymFloat):
        f = _frac(model.eval(x.e, model_completion=True))
        return f.numerator / f.denominator
    if isinstance(x, V.SymStr):
        return x.pool.texts[
            model.eval(x.e, model_completion=True).as_long()]
    if isinstance(x, B.SymBytes):
        out = b''
        for base, i, j in x.segs:
            v = model.eval(B._val(base, i, j), model_completion=True)
            out += v.as_long().to_bytes(j - i, 'big')
        return out
    if isinstance(x, (B.OpaqueBytes, V.OpaqueStr)):
        return '<opaque>'
    if isinstance(x, PDict):
        return {evaluate(k, model): evaluate(v, model)
                for k, v in dict.items(x)}
    if isinstance(x, (PSet, set, frozenset)):
        return set(evaluate(i, model) for i in x)
    if isinstance(x, dict):
        return {k: evaluate(v, model) for k, v in x.items()}
    if isinstance(x, tuple):
        if hasattr(x, '_fields'):
            return type(x)(*(evaluate(i, model) for i in x))
        return tuple(evaluate(i, model) for i in x)
    if isinstance(x, list):
        return [evaluate(i, model) for i in x]
    return x
