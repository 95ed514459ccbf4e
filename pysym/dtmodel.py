"""Symbolic datetime (UTC or naive): total microseconds since epoch."""

import datetime

import z3

from . import dispatch as D
from . import values as V
from .values import Sym, SymInt, sym_hash, _limit
from .floats import round_double

EPOCH = datetime.datetime(1970, 1, 1)
MIN_US = (datetime.datetime.min - EPOCH) // datetime.timedelta(microseconds=1)
MAX_US = (datetime.datetime.max - EPOCH) // datetime.timedelta(microseconds=1)
DAY = 86400 * 10 ** 6
FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second')


class Field(Sym):
    """Calendar field of a symbolic datetime, usable only for rebuilding"""
    __slots__ = ('dt', 'name')
    __hash__ = sym_hash

    def __init__(self, dt, name):
        self.dt = dt
        self.name = name


class SymTimedelta(Sym):
    __slots__ = ('us',)
    __hash__ = sym_hash

    def __init__(self, us):
        self.us = us

    days = property(lambda self: self.us // DAY)
    seconds = property(lambda self: (self.us % DAY) // 10 ** 6)
    microseconds = property(lambda self: self.us % 10 ** 6)

    def total_seconds(self):
        return round_double(z3.ToReal(V.iexpr(self.us)) / 10 ** 6)

    def _us(self, o):
        if isinstance(o, SymTimedelta):
            return o.us
        if isinstance(o, datetime.timedelta):
            return o // datetime.timedelta(microseconds=1)
        return None

    def __floordiv__(self, o):
        u = self._us(o)
        if u is None:
            return SymTimedelta(self.us // o)
        return self.us // u

    def __mod__(self, o):
        return SymTimedelta(self.us % self._us(o))

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return round_double(z3.ToReal(V.iexpr(self.us)) / self._us(o))

    def __add__(self, o):
        if isinstance(o, (datetime.datetime, SymDatetime)):
            return add(o, self.us)
        return SymTimedelta(self.us + self._us(o))

    __radd__ = __add__

    def __sub__(self, o):
        return SymTimedelta(self.us - self._us(o))

    def __neg__(self):
        return SymTimedelta(-self.us)

    def __lt__(self, o):
        return self.us < self._us(o)

    def __le__(self, o):
        return self.us <= self._us(o)

    def __gt__(self, o):
        return self.us > self._us(o)

    def __ge__(self, o):
        return self.us >= self._us(o)

    def __eq__(self, o):
        return self.us == self._us(o)


def _total(dt):
    if isinstance(dt, SymDatetime):
        return dt.us, dt.tzinfo
    return ((dt.replace(tzinfo=None) - EPOCH) //
            datetime.timedelta(microseconds=1)), dt.tzinfo


def add(dt, us):
    t, tz = _total(dt)
    return mk(t + us, tz)


def mk(us, tz):
    if not ((us >= MIN_US) & (us <= MAX_US)):
        raise OverflowError('date value out of range')
    return SymDatetime(us, tz)


def _check_tz(tz):
    if tz is not None and tz.utcoffset(None) != datetime.timedelta(0):
        _limit('timezone other than UTC')


class SymDatetime(Sym):
    __slots__ = ('us', 'tzinfo')
    __hash__ = sym_hash

    def __init__(self, us, tzinfo):
        _check_tz(tzinfo)
        self.us = us
        self.tzinfo = tzinfo

    microsecond = property(lambda self: self.us % 10 ** 6)

    def __getattr__(self, name):
        if name in FIELDS:
            return Field(self, name)
        _limit(f'datetime attribute {name}')

    def timestamp(self):
        if self.tzinfo is None:
            _limit('timestamp of naive datetime')
        return round_double(z3.ToReal(V.iexpr(self.us)) / 10 ** 6)

    def utcoffset(self):
        return None if self.tzinfo is None else datetime.timedelta(0)

    def astimezone(self, tz=None):
        if self.tzinfo is None or tz is None:
            _limit('local timezone')
        return SymDatetime(self.us, tz)

    def replace(self, **kw):
        us, tz = self.us, self.tzinfo
        if 'tzinfo' in kw:
            tz = kw.pop('tzinfo')
        if 'microsecond' in kw:
            us = us - us % 10 ** 6 + _us_field(kw.pop('microsecond'))
        if kw:
            _limit('datetime.replace')
        return SymDatetime(us, tz)

    def __add__(self, o):
        if isinstance(o, SymTimedelta):
            return add(self, o.us)
        if isinstance(o, datetime.timedelta):
            return add(self, o // datetime.timedelta(microseconds=1))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, datetime.timedelta):
            return add(self, -(o // datetime.timedelta(microseconds=1)))
        if isinstance(o, SymTimedelta):
            return add(self, -o.us)
        t, tz = _total(o)
        if (tz is None) != (self.tzinfo is None):
            raise TypeError("can't subtract offset-naive and offset-aware "
                            "datetimes")
        return SymTimedelta(self.us - t)

    def __rsub__(self, o):
        return -(self - o)

    def __eq__(self, o):
        if not isinstance(o, (datetime.datetime, SymDatetime)):
            return NotImplemented
        t, tz = _total(o)
        if (tz is None) != (self.tzinfo is None):
            return False
        return self.us == t

    def __ne__(self, o):
        return V.bnot(self.__eq__(o))


def _us_field(us):
    if isinstance(us, SymInt):
        if not ((us >= 0) & (us < 10 ** 6)):
            raise ValueError('microsecond must be in 0..999999')
    return us


def _fromtimestamp(ts, tz=None):
    if isinstance(ts, Sym):
        if tz is None or not isinstance(ts, SymInt):
            _limit('fromtimestamp of symbolic float or local time')
        us = ts * 10 ** 6
        if not ((us >= MIN_US) & (us <= MAX_US)):
            raise ValueError('year is out of range')
        return SymDatetime(us, tz)
    return datetime.datetime.fromtimestamp(ts, tz)


def _utcfromtimestamp(ts):
    r = _fromtimestamp(ts, datetime.timezone.utc)
    return r.replace(tzinfo=None)


def _datetime(*args, **kw):
    names = FIELDS + ('microsecond', 'tzinfo')
    kw = {**dict(zip(names, args)), **kw}
    if not any(isinstance(v, Sym) for v in kw.values()):
        return datetime.datetime(**kw)
    us, tz = kw.pop('microsecond', 0), kw.pop('tzinfo', None)
    fields = [kw.get(n) for n in FIELDS]
    if set(kw) - set(FIELDS):
        _limit('datetime construction')
    if isinstance(fields[0], Field):
        if not all(isinstance(f, Field) and f.dt is fields[0].dt and
                   f.name == n for f, n in zip(fields, FIELDS)):
            _limit('datetime construction from mixed fields')
        base = fields[0].dt.us
        base = base - base % 10 ** 6
    else:
        if any(isinstance(f, Sym) for f in fields):
            _limit('datetime construction from symbolic fields')
        base, _ = _total(datetime.datetime(*[f for f in fields
                                             if f is not None]))
    return SymDatetime(base + _us_field(us), tz)


_UNITS = {'days': DAY, 'seconds': 10 ** 6, 'microseconds': 1,
          'milliseconds': 1000, 'minutes': 60 * 10 ** 6,
          'hours': 3600 * 10 ** 6, 'weeks': 7 * DAY}


def _timedelta(*args, **kw):
    kw = {**dict(zip(('days', 'seconds', 'microseconds', 'milliseconds',
                      'minutes', 'hours', 'weeks'), args)), **kw}
    if not any(isinstance(v, Sym) for v in kw.values()):
        return datetime.timedelta(**kw)
    us = 0
    for k, v in kw.items():
        if not isinstance(v, (int, SymInt)):
            _limit('timedelta from symbolic float')
        us = us + v * _UNITS[k]
    lim = 999999999 * DAY
    if not ((us >= -lim) & (us < lim + DAY)):
        raise OverflowError('days; must have magnitude <= 999999999')
    return SymTimedelta(us)


def install():
    D.INTERCEPT[datetime.datetime] = _datetime
    D.INTERCEPT[datetime.timedelta] = _timedelta
    D.CLASSMETHODS[datetime.datetime, 'fromtimestamp'] = _fromtimestamp
    D.CLASSMETHODS[datetime.datetime, 'utcfromtimestamp'] = _utcfromtimestamp
