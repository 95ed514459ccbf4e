"""Memoized z3 term construction.

Paths of one harness build the same terms again and again.  z3 terms are hash
consed: the address identifies a live term, so that construction of terms can
be memoized by addresses of arguments (which are kept alive by the memo)."""

import z3
from z3 import z3core


class _Errors:
    code = 0


def _on_error(ctx, code):
    _Errors.code = code or -1


def check_errors():
    """Raised lazily instead of after every z3 call"""
    if _Errors.code:
        code, _Errors.code = _Errors.code, 0
        raise z3.Z3Exception(f'z3 error {code}')


LIMIT = 400_000
_memo = {}
_installed = False


def _cached(f, tag):
    memo = _memo
    ExprRef = z3.ExprRef

    def g(*args, **kw):
        if kw:
            return f(*args, **kw)
        key = [tag]
        for a in args:
            if isinstance(a, ExprRef):
                key.append(a.ast.value)
            elif type(a) is int:
                key.append((a,))
            elif type(a) is bool:
                key.append('T' if a else 'F')
            else:
                return f(*args)
        key = tuple(key)
        r = memo.get(key)
        if r is not None:
            return r[0]
        x = f(*args)
        if isinstance(x, ExprRef):
            if len(memo) > LIMIT:
                memo.clear()
            memo[key] = x, args
        return x
    return g


def install():
    global _installed
    if _installed:
        return
    _installed = True
    ctx = z3.main_ctx()
    ctx.eh = z3core.Z3_set_error_handler(ctx.ref(), _on_error)
    z3core.Elementaries.Check = lambda self, ctx: None

    for name in ('simplify', 'And', 'Or', 'Not', 'If', 'Xor', 'IntVal',
                 'BoolVal'):
        setattr(z3, name, _cached(getattr(z3, name), name))

    E, A, B = z3.ExprRef, z3.ArithRef, z3.BoolRef
    for cls, names in ((A, ('__lt__', '__le__', '__gt__', '__ge__',
                            '__add__', '__radd__', '__sub__', '__rsub__',
                            '__mul__', '__rmul__', '__truediv__', '__div__',
                            '__mod__', '__neg__', '__rmod__',
                            '__rtruediv__')),
                       (E, ('__eq__', '__ne__'))):
        for n in names:
            if n in cls.__dict__:
                setattr(cls, n, _cached(cls.__dict__[n], f'{cls}{n}'))

    true = z3.BoolVal(True)
    false = z3.BoolVal(False)
    tp, fp = true.ast.value, false.ast.value
    z3.is_true = lambda e: e.ast.value == tp
    z3.is_false = lambda e: e.ast.value == fp
    z3.AstRef.eq = lambda self, other: self.ast.value == other.ast.value
    z3.AstRef.get_id = lambda self: self.ast.value
    orig_is_int_value = z3.is_int_value
    memo = {}

    def is_int_value(e):
        k = e.ast.value
        r = memo.get(k)
        if r is None:
            if len(memo) > LIMIT:
                memo.clear()
            r = memo[k] = orig_is_int_value(e), e
        return r[0]

    z3.is_int_value = is_int_value
