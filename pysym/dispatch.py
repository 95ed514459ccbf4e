"""Runtime hooks called by instrumented code."""

import builtins
import collections
import datetime
import enum
import functools
import struct
import types

import z3

from . import values as V
from . import symbytes as B
from .values import Sym, SymBool, SymInt, SymStr, OpaqueStr
from .symbytes import SymBytes, OpaqueBytes


# --- containers --------------------------------------------------------------

_MISSING = object()


def _symkey(k):
    if isinstance(k, Sym):
        return True
    if isinstance(k, (tuple, frozenset)):
        return any(_symkey(i) for i in k)
    return False


def _norm_key(k):
    return k


def _native(f):
    """Native dict operation with a canonical (identity-stored) key"""
    def g(*args):
        V._HashState.ok += 1
        try:
            return f(*args)
        finally:
            V._HashState.ok -= 1
    return g


_n_get = _native(dict.get)
_n_getitem = _native(dict.__getitem__)
_n_setitem = _native(dict.__setitem__)
_n_delitem = _native(dict.__delitem__)
_n_pop = _native(dict.pop)
_n_popitem = _native(dict.popitem)


class PDict(dict):
    """dict which resolves symbolic keys by (forking) equality"""

    __slots__ = ('_nsym',)

    def __init__(self, *args, **kw):
        dict.__init__(self)
        self._nsym = 0
        self.update(*args, **kw)

    def _resolve(self, key):
        """(found, stored key)"""
        if not self._nsym and not _symkey(key):
            if dict.__contains__(self, key):
                return True, key
            return False, key
        for k in dict.keys(self):
            if k is key:
                return True, k
        for k in list(dict.keys(self)):
            if V.deep_eq(k, key):
                return True, k
        return False, key

    def __getitem__(self, key):
        found, k = self._resolve(key)
        if found:
            return _n_getitem(self, k)
        return self.__missing__(key)

    def __missing__(self, key):
        raise KeyError(key)

    def __setitem__(self, key, value):
        found, k = self._resolve(key)
        if not found and _symkey(k):
            self._nsym += 1
        _n_setitem(self, k, value)

    def __delitem__(self, key):
        found, k = self._resolve(key)
        if not found:
            raise KeyError(key)
        _n_delitem(self, k)
        if _symkey(k):
            self._nsym -= 1

    def __contains__(self, key):
        return self._resolve(key)[0]

    def get(self, key, default=None):
        found, k = self._resolve(key)
        return _n_getitem(self, k) if found else default

    def pop(self, key, *default):
        found, k = self._resolve(key)
        if found:
            if _symkey(k):
                self._nsym -= 1
            return _n_pop(self, k)
        if default:
            return default[0]
        raise KeyError(key)

    def popitem(self):
        k, v = _n_popitem(self)
        if _symkey(k):
            self._nsym -= 1
        return k, v

    def clear(self):
        self._nsym = 0
        dict.clear(self)

    def setdefault(self, key, default=None):
        found, k = self._resolve(key)
        if found:
            return _n_getitem(self, k)
        if _symkey(k):
            self._nsym += 1
        _n_setitem(self, k, default)
        return default

    def update(self, *args, **kw):
        if args:
            src = args[0]
            if isinstance(src, dict):
                for k, v in list(src.items()):
                    self[k] = v
            elif hasattr(src, 'keys'):
                for k in list(src.keys()):
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        return PDict(self)

    __copy__ = copy

    def __or__(self, other):
        r = PDict(self)
        r.update(other)
        return r

    def __ror__(self, other):
        r = PDict(other)
        r.update(self)
        return r

    def __ior__(self, other):
        self.update(other)
        return self

    def __eq__(self, other):
        if not isinstance(other, dict):
            return NotImplemented
        return bool(V.deep_eq(self, other))

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    __hash__ = None

    @classmethod
    def fromkeys(cls, it, value=None):
        r = cls()
        for k in it:
            r[k] = value
        return r


class PDefaultDict(PDict):

    __slots__ = ('default_factory',)

    def __init__(self, default_factory=None, *args, **kw):
        self.default_factory = default_factory
        PDict.__init__(self, *args, **kw)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        value = call(self.default_factory)
        self[key] = value
        return value

    def copy(self):
        return PDefaultDict(self.default_factory, self)


class PSet:
    """Insertion ordered set with symbolic membership"""

    __slots__ = ('_d', '__weakref__')

    def __init__(self, it=()):
        self._d = PDict()
        for i in it:
            self._d[i] = True

    def add(self, x):
        if x not in self._d:
            self._d[x] = True

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        del self._d[x]

    def pop(self):
        k = next(iter(dict.keys(self._d)))
        del self._d[k]
        return k

    def clear(self):
        self._d.clear()

    def copy(self):
        return type(self)(self)

    def update(self, *its):
        for it in its:
            for i in it:
                self.add(i)

    def difference_update(self, *its):
        for it in its:
            for i in list(it):
                self.discard(i)

    def intersection_update(self, *its):
        for it in its:
            it = PSet(it)
            for i in list(self):
                if i not in it:
                    self.discard(i)

    def union(self, *its):
        r = type(self)(self)
        for it in its:
            for i in it:
                if i not in r._d:
                    r._d[i] = True
        return r

    def difference(self, *its):
        r = PSet(self)
        r.difference_update(*its)
        return type(self)(r)

    def intersection(self, *its):
        r = PSet(self)
        r.intersection_update(*its)
        return type(self)(r)

    def symmetric_difference(self, other):
        return (self - PSet(other)) | (PSet(other) - self)

    def isdisjoint(self, other):
        return not any(i in self for i in other)

    def issubset(self, other):
        other = PSet(other)
        return all(i in other for i in self)

    def issuperset(self, other):
        return all(i in self for i in other)

    __or__ = __ror__ = lambda self, o: self.union(o)
    __and__ = __rand__ = lambda self, o: self.intersection(o)
    __xor__ = __rxor__ = lambda self, o: self.symmetric_difference(o)
    __sub__ = lambda self, o: self.difference(o)
    __rsub__ = lambda self, o: PSet(o).difference(self)
    __le__ = lambda self, o: self.issubset(o)
    __ge__ = lambda self, o: self.issuperset(o)
    __lt__ = lambda self, o: len(self) < len(o) and self.issubset(o)
    __gt__ = lambda self, o: len(self) > len(o) and self.issuperset(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __contains__(self, x):
        return x in self._d

    def __iter__(self):
        return iter(list(dict.keys(self._d)))

    def __len__(self):
        return dict.__len__(self._d)

    def __bool__(self):
        return len(self) > 0

    def __eq__(self, o):
        if not isinstance(o, (PSet, set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    __hash__ = None

    def __repr__(self):
        return f'PSet({list(self)})'


class PFrozenSet(PSet):

    __slots__ = ()

    def __hash__(self):
        return 0xF5E7


def mkdict(*parts):
    r = PDict()
    for k, v, unpack in parts:
        if unpack:
            r.update(v)
        else:
            r[k] = v
    return r


def mkdict_items(items):
    r = PDict()
    for k, v in items:
        r[k] = v
    return r


def mkset(items):
    return PSet(items)


# --- operators ---------------------------------------------------------------

def in_(a, b):
    if isinstance(a, Sym):
        if isinstance(b, (dict, set, frozenset)) and \
                not isinstance(b, PDict):
            for k in b:
                if V.deep_eq(k, a):
                    return True
            return False
        if isinstance(b, str) and isinstance(a, SymStr):
            return a.concretize() in b
        if isinstance(b, range):
            r = (a >= b.start) & (a < b.stop) if b.step > 0 else None
            if b.step == 1:
                return r
    elif isinstance(b, (set, frozenset, dict)) and not isinstance(b, PDict) \
            and _symkey(a):
        for k in b:
            if V.deep_eq(k, a):
                return True
        return False
    if isinstance(b, (tuple, list, collections.deque)) and (
            V.has_sym(a) or V.has_sym(b)):
        for k in b:
            if k is a or V.deep_eq(k, a):
                return True
        return False
    return a in b


def not_in(a, b):
    return V.bnot(in_(a, b))


def is_(a, b):
    if isinstance(a, SymBool) and isinstance(b, bool):
        return a == b
    if isinstance(b, SymBool) and isinstance(a, bool):
        return b == a
    return a is b


def is_not(a, b):
    return V.bnot(is_(a, b))


_plain_tuple_lt = tuple.__lt__
_plain_tuple_eq = tuple.__eq__


def _lex(a, b, strict):
    """a < b (or a <= b) of tuples as single formula; None if unsupported"""
    r = (len(a) < len(b)) if strict else (len(a) <= len(b))
    for x, y in reversed(list(zip(a, b))):
        tx, ty = type(x), type(y)
        if tx in (int, bool, SymInt) and ty in (int, bool, SymInt):
            l = x < y
        elif isinstance(x, tuple) and isinstance(y, tuple) and \
                tx.__lt__ is _plain_tuple_lt and \
                ty.__lt__ is _plain_tuple_lt:
            l = _lex(x, y, True)
            if l is None:
                return None
        elif not V.has_sym(x) and not V.has_sym(y):
            if x == y:
                continue
            l = x < y
        else:
            return None
        r = V.bor(l, V.band(V.deep_eq(x, y), r))
    return r


def _tuples(a, b):
    return (isinstance(a, tuple) and isinstance(b, tuple) and
            type(a).__lt__ is _plain_tuple_lt and
            type(b).__lt__ is _plain_tuple_lt and
            (V.has_sym(a) or V.has_sym(b)))


def lt(a, b):
    if _tuples(a, b):
        r = _lex(a, b, True)
        if r is not None:
            return r
    return a < b


def gt(a, b):
    if _tuples(a, b):
        r = _lex(b, a, True)
        if r is not None:
            return r
    return a > b


def le(a, b):
    if _tuples(a, b):
        r = _lex(a, b, False)
        if r is not None:
            return r
    return a <= b


def ge(a, b):
    if _tuples(a, b):
        r = _lex(b, a, False)
        if r is not None:
            return r
    return a >= b


def _eqable(a, b):
    return (isinstance(a, tuple) and isinstance(b, tuple) and
            type(a).__eq__ is _plain_tuple_eq and
            type(b).__eq__ is _plain_tuple_eq and
            (V.has_sym(a) or V.has_sym(b)))


def eq(a, b):
    if _eqable(a, b):
        return V.deep_eq(a, b)
    return a == b


def ne(a, b):
    if _eqable(a, b):
        return V.bnot(V.deep_eq(a, b))
    return a != b


# --- calls -------------------------------------------------------------------

_SYMTYPES = ((SymBool, bool), (SymInt, int), (SymStr, str), (OpaqueStr, str),
             (SymBytes, bytes), (OpaqueBytes, bytes))


def sym_type(x):
    for s, t in _SYMTYPES:
        if isinstance(x, s):
            return t
    from .floats import SymFloat
    if isinstance(x, SymFloat):
        return float
    from . import dtmodel
    if isinstance(x, dtmodel.SymDatetime):
        return datetime.datetime
    if isinstance(x, dtmodel.SymTimedelta):
        return datetime.timedelta
    return None


def _isinstance(x, t):
    if isinstance(x, Sym):
        st = sym_type(x)
        if st is None:
            return False
        if isinstance(t, tuple):
            return any(_isinstance(x, i) for i in t)
        if isinstance(t, types.UnionType):
            return any(_isinstance(x, i) for i in t.__args__)
        if t is bytes and isinstance(x, (SymBytes, OpaqueBytes)):
            return True
        if t in (bytearray, memoryview):
            return False
        try:
            return issubclass(st, t)
        except TypeError:
            return isinstance(st(), t)
    if isinstance(x, PSet):
        ts = t if isinstance(t, tuple) else (t,)
        if set in ts or frozenset in ts or \
                collections.abc.Set in ts:
            return True
    return isinstance(x, t)


def _type(*args):
    if len(args) == 1 and isinstance(args[0], Sym):
        return sym_type(args[0])
    return type(*args)


def _int(*args, **kw):
    if args and isinstance(args[0], Sym):
        x = args[0]
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x._int()
        if isinstance(x, SymStr):
            return int(x.concretize(), *args[1:], **kw)
        if hasattr(x, 'trunc'):
            return x.trunc()
    return int(*args, **kw)


def _bool(*args):
    if args and isinstance(args[0], SymBool):
        return args[0]
    if args and isinstance(args[0], SymInt):
        return args[0] != 0
    return bool(*args)


def _float(*args):
    if args and isinstance(args[0], Sym):
        from .floats import to_float
        return to_float(args[0])
    return float(*args)


def _str(*args, **kw):
    if args and isinstance(args[0], Sym):
        x = args[0]
        if isinstance(x, (SymStr, OpaqueStr)) and len(args) == 1 and not kw:
            return x
        if isinstance(x, (OpaqueBytes, SymBytes)) and (len(args) > 1 or kw):
            return x.decode(*args[1:], **kw)
        if isinstance(x, SymInt):
            return str(x.__index__())
    return str(*args, **kw)


def _repr(x):
    return repr(x)


def _bytes(*args, **kw):
    if not args or kw or len(args) > 1:
        if args and isinstance(args[0], SymStr):
            return bytes(args[0].concretize(), *args[1:], **kw)
        if args and isinstance(args[0], OpaqueStr):
            return args[0].encode(*args[1:], **kw)
        return bytes(*args, **kw)
    x = args[0]
    if isinstance(x, (SymBytes, OpaqueBytes)):
        return x
    if isinstance(x, SymInt):
        return bytes(x.__index__())
    if isinstance(x, (int, bytes, bytearray, memoryview, str)):
        return bytes(x)
    return B.from_iter(x)


def _bytearray(*args, **kw):
    if args and isinstance(args[0], (SymBytes, OpaqueBytes)):
        return args[0]
    if args and not isinstance(args[0], (int, bytes, bytearray, memoryview,
                                         str)):
        r = B.from_iter(args[0])
        if isinstance(r, SymBytes):
            return r
        return bytearray(r)
    return bytearray(*args, **kw)


def _memoryview(x):
    if isinstance(x, Sym):
        return x
    return memoryview(x)


def _len(x):
    return len(x)


def _round(x, *args):
    if isinstance(x, Sym) and hasattr(x, '__round__'):
        return x.__round__(*args)
    return round(x, *args)


def _minmax(sign):
    native = min if sign < 0 else max

    def f(*args, **kw):
        if set(kw) - {'key', 'default'}:
            return native(*args, **kw)
        items = list(args[0]) if len(args) == 1 else list(args)
        if not any(V.has_sym(i) for i in items) and 'key' not in kw:
            return native(items, **kw)
        if not items:
            return native(items, **kw)
        key = kw.get('key')
        if all(isinstance(i, (int, SymInt)) for i in items) and key is None:
            r = items[0]
            for i in items[1:]:
                c = (i < r) if sign < 0 else (i > r)
                if isinstance(c, bool):
                    r = i if c else r
                else:
                    r = V.mkint(z3.If(c.e, V.iexpr(i), V.iexpr(r)))
            return r
        best = items[0]
        bk = call(key, best) if key else best
        for i in items[1:]:
            k = call(key, i) if key else i
            if (k < bk) if sign < 0 else (k > bk):
                best, bk = i, k
        return best
    return f


def _set(it=()):
    return PSet(it)


def _frozenset(it=()):
    return PFrozenSet(it)


def _hash(x):
    return hash(x)


def _json_encode(data, *args, **kw):
    import hat.json
    if V.has_sym(data):
        return OpaqueStr('json', _plain(data))
    return hat.json.encode(data, *args, **kw)


def _json_decode(text, *args, **kw):
    import hat.json
    if isinstance(text, OpaqueStr):
        if text.codec != 'json':
            V._limit('decoding of opaque text')
        return _plain(text.data)
    if isinstance(text, SymStr):
        text = text.concretize()
    return hat.json.decode(text, *args, **kw)


def _plain(x):
    """JSON round-trip shape (lists, dicts)"""
    if isinstance(x, (list, tuple)):
        return [_plain(i) for i in x]
    if isinstance(x, dict):
        r = PDict()
        for k, v in x.items():
            r[k] = _plain(v)
        return r
    return x


def _int_from_bytes(data, byteorder='big', *, signed=False):
    return B.bytes_to_int(data, byteorder, signed)


def _struct_pack(fmt, *args):
    return B.struct_pack(fmt, *args)


def _struct_unpack(fmt, data):
    return B.struct_unpack(fmt, data)


def _struct_unpack_from(fmt, data, offset=0):
    if isinstance(data, Sym):
        return B.struct_unpack(fmt, data[offset:offset + struct.calcsize(fmt)])
    return struct.unpack_from(fmt, data, offset)


def _partial(f, *args, **kw):
    return functools.partial(call, f, *args, **kw)


def _sum(it, start=0):
    r = start
    for i in it:
        r = r + i
    return r


def _range(*args):
    return range(*(a.__index__() if isinstance(a, SymInt) else a
                   for a in args))


def _divmod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a // b, a % b
    return divmod(a, b)


def _any(it):
    for i in it:
        if i:
            return True
    return False


def _all(it):
    for i in it:
        if not i:
            return False
    return True


def _bytes_join(sep, it):
    items = list(it)
    if not any(isinstance(i, Sym) for i in items):
        return sep.join(items)
    segs = []
    for n, i in enumerate(items):
        if isinstance(i, OpaqueBytes):
            if len(items) == 1:
                return i
            V._limit('join of opaque bytes')
        if n and sep:
            segs.extend(B.to_segs(bytes(sep)))
        segs.extend(B.to_segs(i))
    return B.make(segs)


def _str_join(sep, it):
    return sep.join(i.concretize() if isinstance(i, SymStr) else i
                    for i in it)


def _map(f, *its):
    return map(functools.partial(call, f), *its)


def _filter(f, it):
    return filter(functools.partial(call, f) if f is not None else None, it)


def _sorted(it, *, key=None, reverse=False):
    if key is not None:
        key = functools.partial(call, key)
    return sorted(it, key=key, reverse=reverse)


def _deque_remove(d, x):
    for n, i in enumerate(d):
        if i is x or V.deep_eq(i, x):
            del d[n]
            return
    raise ValueError('deque.remove(x): x not in deque')


INTERCEPT = {
    isinstance: _isinstance,
    type: _type,
    int: _int,
    bool: _bool,
    float: _float,
    str: _str,
    bytes: _bytes,
    bytearray: _bytearray,
    memoryview: _memoryview,
    round: _round,
    min: _minmax(-1),
    max: _minmax(1),
    set: _set,
    frozenset: _frozenset,
    dict: PDict,
    sum: _sum,
    range: _range,
    divmod: _divmod,
    map: _map,
    filter: _filter,
    sorted: _sorted,
    collections.defaultdict: PDefaultDict,
    collections.OrderedDict: PDict,
    functools.partial: _partial,
    struct.pack: _struct_pack,
    struct.unpack: _struct_unpack,
    struct.unpack_from: _struct_unpack_from,
    struct.Struct: B.Struct,
}

# extra intercepts by identity of underlying function, registered by models
EXTRA = {}

# (class, builtin class method name) -> model
CLASSMETHODS = {}


def register(f, model):
    EXTRA[f] = model


def _math(name, native):
    def f(x, *args):
        if isinstance(x, SymInt) and name in ('floor', 'ceil', 'trunc'):
            return x
        if isinstance(x, Sym):
            from .floats import SymFloat, round_double
            if isinstance(x, SymFloat):
                if name == 'floor':
                    return x.__floor__()
                if name == 'ceil':
                    return x.__ceil__()
                if name == 'trunc':
                    return x.trunc()
                if name == 'fabs':
                    return abs(x)
                if name == 'modf':
                    t = x.trunc()
                    ti = SymFloat(z3.ToReal(V.iexpr(t)), 0)
                    return SymFloat(x.e - ti.e, x.g), ti
                if name == 'isfinite':
                    return True
                if name in ('isnan', 'isinf'):
                    return False
            V._limit(f'math.{name}')
        return native(x, *args)
    return f


def _late_init():
    import math
    for n in ('floor', 'ceil', 'trunc', 'fabs', 'modf', 'isfinite', 'isnan',
              'isinf'):
        EXTRA[getattr(math, n)] = _math(n, getattr(math, n))
    import hat.json
    EXTRA[hat.json.encode] = _json_encode
    EXTRA[hat.json.decode] = _json_decode
    from . import instrument
    EXTRA[hat.json.equals] = instrument.instrumented(hat.json.equals)


def _call_builtin_method(f, args, kw):
    s = f.__self__
    if isinstance(s, type):
        m = CLASSMETHODS.get((s, f.__name__))
        if m is not None:
            return m(*args, **kw)
    if s is int and f.__name__ == 'from_bytes':
        return _int_from_bytes(*args, **kw)
    if isinstance(s, (bytes, bytearray)) and f.__name__ == 'join':
        return _bytes_join(s, *args)
    if isinstance(s, str) and f.__name__ == 'join':
        return _str_join(s, *args)
    if isinstance(s, collections.deque) and f.__name__ == 'remove':
        return _deque_remove(s, *args)
    if f.__name__ == 'fromkeys' and s is dict:
        return PDict.fromkeys(*args)
    if args and isinstance(s, (str, bytes, dict, set)) and \
            any(isinstance(a, Sym) for a in args):
        if isinstance(s, str):
            args = [a.concretize() if isinstance(a, SymStr) else a
                    for a in args]
    m = EXTRA.get(f) if s is None or isinstance(s, types.ModuleType) else None
    if m is not None:
        return m(*args, **kw)
    return f(*args, **kw)


def call(f, /, *args, **kw):
    try:
        m = INTERCEPT.get(f)
    except TypeError:
        m = None
        if isinstance(f, types.MethodType):
            m = EXTRA.get(f.__func__)
            if m is not None:
                args = (f.__self__, *args)
        elif isinstance(f, types.BuiltinMethodType):
            return _call_builtin_method(f, args, kw)
        if m is None:
            return f(*args, **kw)
    if m is not None:
        return m(*args, **kw)
    if isinstance(f, types.FunctionType):
        m = EXTRA.get(f)
        if m is not None:
            return m(*args, **kw)
        return f(*args, **kw)
    if isinstance(f, types.MethodType):
        m = EXTRA.get(f.__func__)
        if m is not None:
            return m(f.__self__, *args, **kw)
        return f(*args, **kw)
    if isinstance(f, types.BuiltinMethodType):
        return _call_builtin_method(f, args, kw)
    if isinstance(f, enum.EnumMeta) and len(args) == 1 and not kw and \
            isinstance(args[0], Sym):
        for member in f:
            if V.deep_eq(member.value, args[0]):
                return member
        raise ValueError(f'not a valid {f.__name__}')
    if EXTRA:
        m = EXTRA.get(f)
        if m is not None:
            return m(*args, **kw)
    return f(*args, **kw)


def _bisect():
    # the C implementations of bisect use __lt__ and work with proxies
    pass


assert builtins
