from hat.event.backends.lmdb import common

from pysym.job import Job
from . import lib


ASSUMPTIONS = [
    "identifiers are unsigned 64-bit, timestamps byte serializable",
    "SBS and JSON serializers are inverse pairs",
    "byte order of database keys is the order LMDB uses"]


def uint(ctx, name, hi=lib.U64):
    return ctx.int(name, 0, hi)


def uid(ctx, name):
    return common.EventId(uint(ctx, f'{name}_srv'), uint(ctx, f'{name}_ses'),
                          uint(ctx, f'{name}_ins'))


def tskey(ctx, name):
    return (uint(ctx, f'{name}_p'), lib.timestamp(ctx, f'{name}_t'),
            uid(ctx, name))


UINT_KEYS = [common.DbType.SYSTEM_LAST_EVENT_ID,
             common.DbType.SYSTEM_LAST_TIMESTAMP,
             common.DbType.LATEST_DATA,
             common.DbType.LATEST_TYPE,
             common.DbType.TIMESERIES_PARTITION,
             common.DbType.TIMESERIES_COUNT]


def make_key(ctx, db_type, name):
    if db_type in UINT_KEYS:
        return uint(ctx, name)
    if db_type == common.DbType.REF:
        return uid(ctx, name)
    if db_type == common.DbType.TIMESERIES_DATA:
        return tskey(ctx, name)
    return ctx.pick(name, list(common.SettingsId))


def key_lt(ctx, db_type, a, b):
    if db_type in UINT_KEYS:
        return a < b
    if db_type == common.DbType.REF:
        return lib.lt_id(ctx, a, b)
    return ctx.or_(
        a[0] < b[0],
        ctx.and_(ctx.eq(a[0], b[0]), ctx.or_(
            lib.lt_ts(ctx, a[1], b[1]),
            ctx.and_(ctx.eq(a[1], b[1]), lib.lt_id(ctx, a[2], b[2])))))


def key_roundtrip(ctx):
    t = common.DbType[ctx.params.db]
    d = common.db_defs[t]
    a = make_key(ctx, t, 'a')
    data = d.encode_key(a)
    ctx.observe('data', data)
    r = d.decode_key(data)
    ctx.check(ctx.eq(r, a), 'key changed by encoding')


def key_order(ctx):
    t = common.DbType[ctx.params.db]
    d = common.db_defs[t]
    a, b = make_key(ctx, t, 'a'), make_key(ctx, t, 'b')
    da, db = d.encode_key(a), d.encode_key(b)
    ctx.check(ctx.iff(da < db, key_lt(ctx, t, a, b)),
              'order of encoded keys differs from order of keys')
    ctx.check(ctx.iff(da == db, ctx.eq(a, b)), 'encoded keys collide')


def value_event_id(ctx):
    d = common.db_defs[common.DbType.SYSTEM_LAST_EVENT_ID]
    a = uid(ctx, 'a')
    ctx.check(ctx.eq(d.decode_value(d.encode_value(a)), a), 'event id')


def value_timestamp(ctx):
    d = common.db_defs[common.DbType.SYSTEM_LAST_TIMESTAMP]
    a = lib.timestamp(ctx, 'a')
    ctx.check(ctx.eq(d.decode_value(d.encode_value(a)), a), 'timestamp')


def value_count(ctx):
    d = common.db_defs[common.DbType.TIMESERIES_COUNT]
    a = uint(ctx, 'a')
    ctx.check(ctx.eq(d.decode_value(d.encode_value(a)), a), 'count')


def value_event_type(ctx):
    d = common.db_defs[common.DbType.LATEST_TYPE]
    a = lib.event_type(ctx, 'a', ctx.params.n, wild=True)
    r = d.decode_value(d.encode_value(a))
    ctx.check(isinstance(r, tuple), 'event type is not a tuple')
    ctx.check(ctx.eq(r, a), 'event type')


def value_event(ctx):
    d = common.db_defs[common.DbType[ctx.params.db]]
    a = common.Event(
        id=lib.event_id(ctx, 'a'),
        type=lib.event_type(ctx, 'e', ctx.pick('n', [0, 2]), wild=True),
        timestamp=lib.timestamp(ctx, 'at'),
        source_timestamp=lib.opt_timestamp(ctx, 'ast'),
        payload=lib.payload(ctx, 'ap'))
    r = d.decode_value(d.encode_value(a))
    ctx.check(isinstance(r, common.Event), 'not an event')
    ctx.check(type(r.payload) is type(a.payload), 'payload type')
    if isinstance(a.payload, common.EventPayloadBinary):
        ctx.check(isinstance(r.payload.data, bytes), 'payload data type')
    ctx.check(ctx.eq(r, a), 'event changed by encoding')


def value_json(ctx):
    d = common.db_defs[common.DbType[ctx.params.db]]
    a = lib.json_data(ctx, 'a')
    r = d.decode_value(d.encode_value(a))
    ctx.check(ctx.eq(r, a), 'json data')


def value_refs(ctx):
    """Sets of event references of all kinds"""
    d = common.db_defs[common.DbType.REF]
    refs = []
    for i, kind in enumerate(ctx.params.kinds):
        if kind == 'l':
            refs.append(common.LatestEventRef(uint(ctx, f'r{i}')))
        else:
            refs.append(common.TimeseriesEventRef(tskey(ctx, f'r{i}')))
    for i, a in enumerate(refs):
        for b in refs[:i]:
            if type(a) is type(b):
                ctx.assume(ctx.not_(ctx.eq(a, b)))
    r = d.decode_value(d.encode_value(set(refs)))
    ctx.check(len(r) == len(refs), 'number of references')
    for a in refs:
        ctx.check(ctx.or_(*(ctx.eq(a, b) for b in r
                            if type(a) is type(b))), 'reference lost')


def jobs(tier):
    for t in common.DbType:
        yield Job(f'key-{t.name}', key_roundtrip, dict(db=t.name),
                  bounds='all keys')
        if t != common.DbType.SYSTEM_SETTINGS:
            yield Job(f'order-{t.name}', key_order, dict(db=t.name),
                      bounds='all pairs of keys')
    yield Job('value-event-id', value_event_id, bounds='all values')
    yield Job('value-timestamp', value_timestamp, bounds='all values')
    yield Job('value-count', value_count, bounds='all values')
    for n in range(4):
        yield Job(f'value-type-{n}', value_event_type, dict(n=n),
                  bounds=f'{n} subtypes')
    for t in ('LATEST_DATA', 'TIMESERIES_DATA'):
        yield Job(f'value-{t}', value_event, dict(db=t),
                  bounds='all field combinations')
    for t in ('SYSTEM_SETTINGS', 'TIMESERIES_PARTITION'):
        yield Job(f'value-{t}', value_json, dict(db=t), bounds='six shapes')
    kinds = ['', 'l', 't', 'lt', 'tl', 'tt', 'ltt', 'ttt']
    if tier != 'quick':
        kinds += ['tttt', 'tltt']
    for k in kinds:
        yield Job(f'refs-{k}', value_refs, dict(kinds=k),
                  bounds=f'{len(k)} references, all keys')
