import datetime

from hat.event import common

from pysym.job import Job


ASSUMPTIONS = [
    "timestamps are byte serializable: -2^63 <= s < 2^63, 0 <= us < 10^6",
    "doubles are finite and normal; IEEE 754 round to nearest even is "
    "encoded exactly over reals",
    "calendar fields of datetime are uninterpreted (only rebuilding a "
    "datetime from its own fields is modelled)"]

MIN_S, MAX_S = -2 ** 63, 2 ** 63 - 1


def ts(ctx, name, lo=MIN_S, hi=MAX_S):
    return common.Timestamp(ctx.int(f'{name}_s', lo, hi),
                            ctx.int(f'{name}_us', 0, 999_999))


def micros(t):
    return t.s * 10 ** 6 + t.us


def normalized(ctx, t):
    return ctx.and_(t.us >= 0, t.us < 10 ** 6)


def bytes_roundtrip(ctx):
    t = ts(ctx, 't')
    data = common.timestamp_to_bytes(t)
    ctx.check(len(data) == 12, 'not 12 bytes')
    ctx.observe('data', data)
    r = common.timestamp_from_bytes(data)
    ctx.check(ctx.eq(r, t), 'byte round trip changes timestamp')


def bytes_layout(ctx):
    t = ts(ctx, 't')
    data = bytes(common.timestamp_to_bytes(t))
    ctx.check(ctx.eq(int.from_bytes(data[:8], 'big'), t.s + 2 ** 63),
              'seconds are not big endian offset by 2^63')
    ctx.check(ctx.eq(int.from_bytes(data[8:], 'big'), t.us),
              'microseconds are not big endian')


def bytes_order(ctx):
    a, b = ts(ctx, 'a'), ts(ctx, 'b')
    da = bytes(common.timestamp_to_bytes(a))
    db = bytes(common.timestamp_to_bytes(b))
    lt = ctx.or_(a.s < b.s, ctx.and_(ctx.eq(a.s, b.s), a.us < b.us))
    ctx.check(ctx.iff(da < db, lt), 'byte order differs from time order')
    ctx.check(ctx.iff(ctx.eq(da, db), ctx.eq(a, b)), 'byte equality differs')
    if a < b:
        ctx.reach('lt')
        ctx.check(lt, 'timestamp comparison')
    else:
        ctx.reach('ge')
        ctx.check(ctx.not_(lt), 'timestamp comparison')


def bounds(ctx):
    t = ts(ctx, 't')
    ctx.check(ctx.or_(common.min_timestamp < t,
                      ctx.eq(common.min_timestamp, t)), 'min_timestamp')
    ctx.check(ctx.or_(t < common.max_timestamp,
                      ctx.eq(common.max_timestamp, t)), 'max_timestamp')
    common.timestamp_to_bytes(common.min_timestamp)
    common.timestamp_to_bytes(common.max_timestamp)


def add_int(ctx):
    t = ts(ctx, 't', -2 ** 62, 2 ** 62)
    x = ctx.int('x', -2 ** 40, 2 ** 40)
    r = t.add(x)
    ctx.observe('r', r)
    ctx.check(normalized(ctx, r), 'not normalized')
    ctx.check(ctx.eq(micros(r), micros(t) + x * 10 ** 6), 'wrong sum')


def add_float(ctx):
    p = ctx.params
    t = ts(ctx, 't', -2 ** 62, 2 ** 62)
    x = ctx.float('x', p.p, p.lo, p.hi)
    r = t.add(x)
    ctx.observe('r', r)
    ctx.check(normalized(ctx, r), 'not normalized')
    # error at most one microsecond
    k = ctx.raw('x')
    d = (micros(r) - micros(t)) * 2 ** p.p - k * 10 ** 6
    ctx.check(ctx.and_(d <= 2 ** p.p, -d <= 2 ** p.p),
              'sum is off by more than one microsecond')


def float_roundtrip(ctx):
    t = ts(ctx, 't', ctx.params.lo, ctx.params.hi)
    f = common.timestamp_to_float(t)
    r = common.timestamp_from_float(f)
    ctx.observe('r', r)
    ctx.check(ctx.eq(r, t), 'float round trip changes timestamp')


def float_monotone(ctx):
    a = ts(ctx, 'a', ctx.params.lo, ctx.params.hi)
    b = ts(ctx, 'b', ctx.params.lo, ctx.params.hi)
    ctx.assume(micros(a) < micros(b))
    ctx.check(common.timestamp_to_float(a) < common.timestamp_to_float(b),
              'float conversion does not preserve order')


def from_float(ctx):
    p = ctx.params
    x = ctx.float('x', p.p, p.lo, p.hi)
    r = common.timestamp_from_float(x)
    ctx.observe('r', r)
    ctx.check(normalized(ctx, r), 'not normalized')
    k = ctx.raw('x')
    d = micros(r) * 2 ** p.p - k * 10 ** 6
    ctx.check(ctx.and_(d <= 2 ** p.p, -d <= 2 ** p.p),
              'off by more than one microsecond')


# year 1 .. year 9999
DT_MIN, DT_MAX = -62135596800, 253402300799


def datetime_roundtrip(ctx):
    t = ts(ctx, 't', DT_MIN, DT_MAX)
    dt = common.timestamp_to_datetime(t)
    ctx.check(dt.tzinfo is not None and
              dt.utcoffset() == datetime.timedelta(0), 'not UTC')
    epoch = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
    ctx.check(ctx.eq((dt - epoch) // datetime.timedelta(microseconds=1),
                     micros(t)), 'datetime denotes other instant')
    r = common.timestamp_from_datetime(dt)
    ctx.observe('r', r)
    ctx.check(ctx.eq(r, t), 'datetime round trip changes timestamp')


def from_datetime(ctx):
    """Aware and naive (assumed UTC) datetimes"""
    us = ctx.int('us', DT_MIN * 10 ** 6, DT_MAX * 10 ** 6)
    dt = (datetime.datetime(1970, 1, 1,
                            tzinfo=(datetime.timezone.utc
                                    if ctx.params.aware else None)) +
          datetime.timedelta(microseconds=us))
    r = common.timestamp_from_datetime(dt)
    ctx.observe('r', r)
    ctx.check(normalized(ctx, r), 'not normalized')
    ctx.check(ctx.eq(micros(r), us), 'other instant')


def sbs_roundtrip(ctx):
    t = ts(ctx, 't')
    data = common.sbs_repo.encode('HatEventer.Timestamp',
                                  common.timestamp_to_sbs(t))
    r = common.timestamp_from_sbs(
        common.sbs_repo.decode('HatEventer.Timestamp', data))
    ctx.observe('r', r)
    ctx.check(ctx.eq(r, t), 'SBS round trip changes timestamp')


def jobs(tier):
    dom = 'complete domain of byte serializable timestamps'
    for f in (bytes_roundtrip, bytes_layout, bytes_order, bounds,
              sbs_roundtrip):
        yield Job(f.__name__, f, bounds=dom)
    yield Job('add-int', add_int, bounds='|x| <= 2^40, |s| <= 2^62')
    adds = [(20, -2 ** 20, 2 ** 20), (8, -2 ** 32, 2 ** 32)]
    adds += [(30, -2 ** 10, 2 ** 10), (0, -2 ** 45, 2 ** 45),
             (19, -2 ** 34, 2 ** 34)]
    if tier != 'quick':
        adds += [(40, -2 ** 6, 2 ** 6), (12, -2 ** 36, 2 ** 36),
                 (16, -2 ** 30, 2 ** 30), (24, -2 ** 24, 2 ** 24),
                 (50, -4, 4)]
    for p, lo, hi in adds:
        yield Job(f'add-float-{p}', add_float, dict(p=p, lo=lo, hi=hi),
                  bounds=f'x multiple of 2^-{p} in [{lo}, {hi}]')
        yield Job(f'from-float-{p}', from_float, dict(p=p, lo=lo, hi=hi),
                  bounds=f'x multiple of 2^-{p} in [{lo}, {hi}]')
    ends = [-2 ** 32, -3 * 2 ** 30, -2 ** 31 - 2, -2 ** 31, -2 ** 24, -2 ** 16,
            -2, 1, 2 ** 16, 2 ** 24, 2 ** 31, 2 ** 32]
    ranges = [(lo, hi - 1) for lo, hi in zip(ends, ends[1:])]
    for lo, hi in ranges:
        yield Job(f'float-roundtrip-{lo}-{hi}', float_roundtrip,
                  dict(lo=lo, hi=hi), bounds=f'{lo} <= s <= {hi}')
        yield Job(f'float-monotone-{lo}-{hi}', float_monotone,
                  dict(lo=lo, hi=hi), bounds=f'{lo} <= s <= {hi}')
    yield Job('datetime-roundtrip', datetime_roundtrip,
              bounds='years 1 to 9999')
    for aware in (True, False):
        yield Job(f'from-datetime-{aware}', from_datetime,
                  dict(aware=aware), bounds='years 1 to 9999')
