"""Symbolic byte strings: concatenations of big-endian integer segments."""

import z3

from .values import (Sym, SymInt, mkbool, mkint, bnot, iexpr, eng, _limit,
                     deep_eq, SymStr, sym_hash)


class Base:
    """A run of `n` bytes holding the big-endian integer `e`"""
    __slots__ = ('n', 'e')

    def __init__(self, n, e):
        self.n = n
        self.e = e


class CBase:
    __slots__ = ('n', 'data')

    def __init__(self, data):
        self.n = len(data)
        self.data = data


def _val(base, i, j):
    """Integer expression of bytes [i:j) of base"""
    if isinstance(base, CBase):
        return z3.IntVal(int.from_bytes(base.data[i:j], 'big'))
    e = base.e
    if j < base.n:
        e = e / z3.IntVal(256 ** (base.n - j))
    if i > 0:
        e = e % z3.IntVal(256 ** (j - i))
    return e


def _norm(segs):
    out = []
    for base, i, j in segs:
        if i == j:
            continue
        if out:
            pb, pi, pj = out[-1]
            if pb is base and pj == i:
                out[-1] = (base, pi, j)
                continue
            if isinstance(pb, CBase) and isinstance(base, CBase):
                d = pb.data[pi:pj] + base.data[i:j]
                out[-1] = (CBase(d), 0, len(d))
                continue
        out.append((base, i, j))
    return out


def make(segs):
    segs = _norm(segs)
    if not segs:
        return b''
    if len(segs) == 1 and isinstance(segs[0][0], CBase):
        b, i, j = segs[0]
        return b.data[i:j]
    return SymBytes(segs)


def to_segs(x):
    if isinstance(x, SymBytes):
        return x.segs
    if isinstance(x, (bytes, bytearray, memoryview)):
        x = bytes(x)
        return [(CBase(x), 0, len(x))] if x else []
    return None


class SymBytes(Sym):
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = segs

    def __repr__(self):
        return f'SymBytes({self.segs})'

    __hash__ = sym_hash

    def __len__(self):
        return sum(j - i for _, i, j in self.segs)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        for base, i, j in self.segs:
            for k in range(i, j):
                if isinstance(base, CBase):
                    yield base.data[k]
                else:
                    yield SymInt(z3.simplify(_val(base, k, k + 1)),
                                 src=(base, k))

    def __getitem__(self, idx):
        if isinstance(idx, slice):
            start, stop, step = idx.indices(len(self))
            if step != 1:
                return from_iter([self[k] for k in range(start, stop, step)])
            out, pos = [], 0
            for base, i, j in self.segs:
                n = j - i
                a, b = max(start - pos, 0), min(stop - pos, n)
                if a < b:
                    out.append((base, i + a, i + b))
                pos += n
            return make(out)
        idx = idx.__index__()
        n = len(self)
        if idx < 0:
            idx += n
        if not 0 <= idx < n:
            raise IndexError('index out of range')
        for base, i, j in self.segs:
            if idx < j - i:
                if isinstance(base, CBase):
                    return base.data[i + idx]
                return SymInt(z3.simplify(_val(base, i + idx, i + idx + 1)),
                              src=(base, i + idx))
            idx -= j - i

    def __add__(self, other):
        o = to_segs(other)
        return NotImplemented if o is None else make(self.segs + o)

    def __radd__(self, other):
        o = to_segs(other)
        return NotImplemented if o is None else make(o + self.segs)

    def __eq__(self, other):
        o = to_segs(other)
        if o is None:
            if isinstance(other, OpaqueBytes):
                _limit('comparison with opaque bytes')
            return NotImplemented
        if len(other) != len(self):
            return False
        return mkbool(z3.And(*(a == b for a, b in _align(self.segs, o))))

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else bnot(r)

    def _lex(self, other, strict):
        o = to_segs(other)
        if o is None:
            return NotImplemented
        la, lb = len(self), len(other)
        n = min(la, lb)
        a = to_segs(self[:n])
        b = to_segs(make(o)[:n] if n != lb else other)
        e = z3.BoolVal(la < lb if la != lb else not strict)
        for x, y in reversed(_align(a, b)):
            e = z3.Or(x < y, z3.And(x == y, e))
        return mkbool(e)

    def __lt__(self, other):
        return self._lex(other, True)

    def __le__(self, other):
        return self._lex(other, False)

    def __gt__(self, other):
        r = self._lex(other, False)
        return r if r is NotImplemented else bnot(r)

    def __ge__(self, other):
        r = self._lex(other, True)
        return r if r is NotImplemented else bnot(r)

    def __contains__(self, x):
        return any(b == x for b in self)

    def startswith(self, prefix):
        if isinstance(prefix, tuple):
            return any(self.startswith(p) for p in prefix)
        n = len(prefix)
        return len(self) >= n and self[:n] == prefix

    def endswith(self, suffix):
        n = len(suffix)
        return len(self) >= n and self[len(self) - n:] == suffix

    def tobytes(self):
        return self

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    @property
    def nbytes(self):
        return len(self)

    def decode(self, encoding='utf-8', errors='strict'):
        return bytes(int(b) for b in self).decode(encoding, errors)

    def hex(self):
        return bytes(int(b) for b in self).hex()

    def value(self):
        """Big-endian integer value"""
        e = z3.IntVal(0)
        for base, i, j in self.segs:
            e = e * z3.IntVal(256 ** (j - i)) + _val(base, i, j)
        return mkint(e)


def _cuts(segs):
    pos, out = 0, [0]
    for _, i, j in segs:
        pos += j - i
        out.append(pos)
    return out


def _split(segs, cuts):
    """Split segments at absolute positions"""
    out, pos, ci = [], 0, 0
    for base, i, j in segs:
        end = pos + j - i
        inner = [c for c in cuts if pos < c < end]
        prev = pos
        for c in inner + [end]:
            out.append(_val(base, i + prev - pos, i + c - pos))
            prev = c
        pos = end
    return out


def _align(a, b):
    cuts = sorted(set(_cuts(a)) | set(_cuts(b)))
    xs, ys = _split(a, cuts), _split(b, cuts)
    assert len(xs) == len(ys)
    return list(zip(xs, ys))


class OpaqueBytes(Sym):
    """Bytes produced by an encoder known only by its inverse"""
    __slots__ = ('codec', 'data')

    def __init__(self, codec, data):
        self.codec = codec
        self.data = data

    def __repr__(self):
        return f'OpaqueBytes({self.codec})'

    __hash__ = sym_hash

    def __eq__(self, other):
        if isinstance(other, OpaqueBytes) and other.codec == self.codec:
            return deep_eq(self.data, other.data)
        _limit('comparison of opaque bytes')

    def __ne__(self, other):
        return bnot(self.__eq__(other))

    def __bool__(self):
        return True

    def __len__(self):
        _limit('length of opaque bytes')

    def __iter__(self):
        _limit('iteration of opaque bytes')

    def __getitem__(self, i):
        if isinstance(i, slice) and i == slice(None, None, None):
            return self
        _limit('indexing of opaque bytes')

    def tobytes(self):
        return self

    def release(self):
        pass

    def decode(self, encoding='utf-8', errors='strict'):
        if self.codec == ('text', encoding.lower().replace('-', '')):
            return self.data
        _limit('decoding of opaque bytes')


def from_iter(it):
    """bytes(iterable of ints)"""
    segs = []
    for b in it:
        if isinstance(b, SymInt):
            if b.src is not None:
                base, k = b.src
                segs.append((base, k, k + 1))
            else:
                if not ((b >= 0) and (b < 256)):
                    raise ValueError('bytes must be in range(0, 256)')
                segs.append((Base(1, b.e), 0, 1))
        else:
            d = bytes([b])
            segs.append((CBase(d), 0, 1))
    return make(segs)


def int_to_bytes(x, length, byteorder, signed):
    if isinstance(length, SymInt):
        length = length.__index__()
    if isinstance(x, int):
        return x.to_bytes(length, byteorder, signed=signed)
    n = 256 ** length
    if signed:
        ok = (x >= -(n // 2)) & (x < n // 2) if length else (x == 0)
    else:
        ok = (x >= 0) & (x < n)
    if not ok:
        if not signed and x < 0:
            raise OverflowError("can't convert negative int to unsigned")
        raise OverflowError('int too big to convert')
    if length == 0:
        return b''
    e = iexpr(x)
    if signed:
        e = z3.simplify(z3.If(e < 0, e + n, e))
    r = make([(Base(length, e), 0, length)])
    if byteorder == 'little':
        r = r[::-1]
    return r


def bytes_to_int(data, byteorder, signed):
    if isinstance(data, (bytes, bytearray, memoryview)):
        return int.from_bytes(data, byteorder, signed=signed)
    if not isinstance(data, SymBytes):
        data = from_iter(data)
        if isinstance(data, bytes):
            return int.from_bytes(data, byteorder, signed=signed)
    if byteorder == 'little':
        data = data[::-1]
    n = 256 ** len(data)
    v = data.value()
    if signed:
        e = iexpr(v)
        v = mkint(z3.If(e >= n // 2, e - n, e))
    return v


# --- struct -----------------------------------------------------------------

_SIZES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4,
          'q': 8, 'Q': 8, '?': 1, 'x': 1, 'c': 1, 's': 1}


def _parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = '@'
    if fmt and fmt[0] in '@=<>!':
        order, fmt = fmt[0], fmt[1:]
    items, num = [], ''
    for ch in fmt:
        if ch.isspace():
            continue
        if ch.isdigit():
            num += ch
            continue
        if ch not in _SIZES:
            return None
        n = int(num) if num else 1
        num = ''
        if ch == 's':
            items.append((ch, n))
        else:
            items.extend([(ch, _SIZES[ch])] * n)
    if order in '@=<' and order != '<':
        if any(c in 'bBx?cs' for c, _ in items) and order == '@' and \
                len(items) > 1:
            return None
        order = '<'
    return ('big' if order in '>!' else 'little'), items


def struct_pack(fmt, *args):
    import struct
    p = _parse_fmt(fmt)
    if p is None or not any(isinstance(a, Sym) for a in args):
        return struct.pack(fmt, *args)
    order, items = p
    args = list(args)
    if len(args) != sum(1 for c, _ in items if c != 'x'):
        raise struct.error('pack expected different number of items')
    out = []
    for c, n in items:
        if c == 'x':
            out.extend(to_segs(b'\0'))
            continue
        a = args.pop(0)
        if c in 's':
            if len(a) > n:
                a = a[:n]
            out.extend(to_segs(a) + to_segs(b'\0' * (n - len(a))))
            continue
        if c == '?':
            a = 1 if a else 0
        if not isinstance(a, (int, SymInt)):
            raise struct.error('required argument is not an integer')
        try:
            b = int_to_bytes(a, n, order, c.islower())
        except OverflowError as e:
            raise struct.error(str(e))
        out.extend(to_segs(b))
    return make(out)


def struct_size(fmt):
    import struct
    return struct.calcsize(fmt)


def struct_unpack(fmt, data):
    import struct
    p = _parse_fmt(fmt)
    if not isinstance(data, Sym):
        return struct.unpack(fmt, data)
    if isinstance(data, OpaqueBytes):
        _limit('unpack of opaque bytes')
    if p is None:
        return struct.unpack(fmt, bytes(int(b) for b in data))
    order, items = p
    if sum(n for _, n in items) != len(data):
        raise struct.error(
            f'unpack requires a buffer of {sum(n for _, n in items)} bytes')
    out, pos = [], 0
    for c, n in items:
        d = data[pos:pos + n]
        pos += n
        if c == 'x':
            continue
        if c == 's' or c == 'c':
            out.append(d)
            continue
        v = bytes_to_int(d, order, c.islower())
        if c == '?':
            v = v != 0
        out.append(v)
    return tuple(out)


class Struct:
    """Replacement of struct.Struct"""

    def __init__(self, fmt):
        self.format = fmt
        self.size = struct_size(fmt)

    def pack(self, *args):
        return struct_pack(self.format, *args)

    def unpack(self, data):
        return struct_unpack(self.format, data)

    def unpack_from(self, data, offset=0):
        return struct_unpack(self.format, data[offset:offset + self.size])
