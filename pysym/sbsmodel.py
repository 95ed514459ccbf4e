"""Summary of the SBS serializer (third party, C implementation).

encode: schema-guided validation; if the value has symbolic parts the result
is an opaque byte string remembering the value as the decoder would return
it; decode inverts it.  Wire-level round trip of the serializer itself is
trusted (stated as assumption)."""

from . import values as V
from . import symbytes as B
from . import dispatch as D


class _Bad(Exception):
    pass


def normalize(refs, t, value):
    from hat.sbs.serializer import common
    while isinstance(t, common.Ref) and t in refs:
        t = refs[t]
    isi = D._isinstance
    if isinstance(t, common.NoneType):
        return None
    if isinstance(t, common.BooleanType):
        return value if isi(value, bool) else bool(value)
    if isinstance(t, common.IntegerType):
        if not isi(value, int):
            raise TypeError('an integer is required')
        return value
    if isinstance(t, common.FloatType):
        if not isi(value, (int, float)):
            raise TypeError('must be real number')
        return value
    if isinstance(t, common.StringType):
        if not isi(value, str):
            raise TypeError('string expected')
        return value
    if isinstance(t, common.BytesType):
        if not isi(value, (bytes, bytearray, memoryview)):
            raise TypeError('a bytes-like object is required')
        if isinstance(value, (bytearray, memoryview)):
            value = bytes(value)
        return value
    if isinstance(t, common.ArrayType):
        return [normalize(refs, t.t, i) for i in value]
    if isinstance(t, common.RecordType):
        if not t.entries:
            raise ValueError('empty entries')
        r = {}
        for n, et in t.entries:
            r[n] = normalize(refs, et, value[n])
        return r
    if isinstance(t, common.ChoiceType):
        if not t.entries:
            raise ValueError('empty entries')
        for n, et in t.entries:
            if n == value[0]:
                return (n, normalize(refs, et, value[1]))
        raise Exception('invalid entry name')
    raise ValueError('invalid type')


def _ref(name):
    from hat.sbs import repository
    return repository._parse_name(name)


_schemas = {}


def schema(repo, name):
    """Type with names of referenced types resolved"""
    key = id(repo), name
    if key not in _schemas:
        _schemas[key] = repo, repr(_resolve(repo._refs, _ref(name), ()))
    return _schemas[key][1]


def _resolve(refs, t, path):
    from hat.sbs.serializer import common
    if isinstance(t, common.Ref) and t in refs:
        return ('rec', path.index(t)) if t in path else \
            _resolve(refs, refs[t], (*path, t))
    if isinstance(t, common.ArrayType):
        return 'array', _resolve(refs, t.t, path)
    if isinstance(t, (common.RecordType, common.ChoiceType)):
        return type(t).__name__, [(n, _resolve(refs, et, path))
                                  for n, et in t.entries]
    return type(t).__name__


def encode(repo, name, value, *args, **kw):
    n = normalize(repo._refs, _ref(name), value)
    if not V.has_sym(n):
        return type(repo).encode(repo, name, n)
    return B.OpaqueBytes(('sbs', schema(repo, name)), n)


def decode(repo, name, data, *args, **kw):
    if isinstance(data, B.OpaqueBytes):
        if data.codec[0] != 'sbs':
            V._limit('decoding of foreign opaque bytes')
        if data.codec != ('sbs', schema(repo, name)):
            raise Exception('decoding of data encoded by other schema')
        return copy(data.data)
    if isinstance(data, V.Sym):
        V._limit('sbs decoding of symbolic bytes')
    return type(repo).decode(repo, name, data)


def copy(x):
    if isinstance(x, list):
        return [copy(i) for i in x]
    if isinstance(x, tuple):
        return tuple(copy(i) for i in x)
    if isinstance(x, dict):
        return {k: copy(v) for k, v in x.items()}
    return x


def install():
    import hat.sbs
    D.register(hat.sbs.Repository.encode, encode)
    D.register(hat.sbs.Repository.decode, decode)
