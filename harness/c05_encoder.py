import enum

from hat.event import common

from pysym.job import Job
from . import lib


ASSUMPTIONS = [
    "integers are 64-bit signed, texts are from a pool of 16",
    "JSON payloads: six shapes with symbolic leafs; binary data of 4 bytes",
    "hat.sbs and hat.json encoders are replaced by schema-validating inverse "
    "pairs (the wire layer of hat.sbs is third party and trusted)"]


def wire(name, data):
    """Through the SBS schema"""
    return common.sbs_repo.decode(name, common.sbs_repo.encode(name, data))


def norm(x):
    """bytes-like data of binary payload as bytes"""
    if isinstance(x, common.EventPayloadBinary):
        return x._replace(data=bytes(x.data))
    return x


def check_event(ctx, a, b):
    ctx.check(type(b) is type(a), 'type')
    ctx.check(isinstance(b.type, tuple), 'event type is not tuple')
    ctx.check_all(
        [ctx.eq(x, y) for x, y in zip(a[:-1], b[:-1])] +
        [type(a.payload) is type(b.payload),
         ctx.eq(norm(a.payload), norm(b.payload))],
        'event changed by round trip')


def make_event(ctx, name, n=None, kinds=('none', 'json', 'binary')):
    n = ctx.pick(f'{name}_n', [0, 1, 3]) if n is None else n
    return common.Event(
        id=lib.event_id(ctx, name, lo=-2 ** 63),
        type=lib.event_type(ctx, name, n, wild=True),
        timestamp=lib.timestamp(ctx, f'{name}_t'),
        source_timestamp=lib.opt_timestamp(ctx, f'{name}_st'),
        payload=lib.payload(ctx, name, kinds))


def make_register(ctx, name, n=None, kinds=('none', 'json', 'binary')):
    n = ctx.pick(f'{name}_n', [0, 1, 3]) if n is None else n
    return common.RegisterEvent(
        type=lib.event_type(ctx, name, n, wild=True),
        source_timestamp=lib.opt_timestamp(ctx, f'{name}_st'),
        payload=lib.payload(ctx, name, kinds))


def event(ctx):
    e = make_event(ctx, 'e')
    r = common.event_from_sbs(wire('HatEventer.Event',
                                   common.event_to_sbs(e)))
    check_event(ctx, e, r)


def register_event(ctx):
    e = make_register(ctx, 'e')
    r = common.register_event_from_sbs(
        wire('HatEventer.RegisterEvent', common.register_event_to_sbs(e)))
    check_event(ctx, e, r)


def _opt(ctx, name, f):
    return None if ctx.flag(f'{name}_none') else f()


def _types(ctx):
    k = ctx.pick('types', [-1, 0, 1, 2])
    if k < 0:
        return None
    return [lib.event_type(ctx, f'q{i}', i + 1, wild=True) for i in range(k)]


def _same_types(ctx, a, b):
    if a is None or b is None:
        return a is b
    b = list(b)
    return ctx.and_(all(isinstance(i, tuple) for i in b),
                    ctx.eq([tuple(i) for i in a], b))


def _params(ctx, p):
    return common.query_params_from_sbs(
        wire('HatEventer.QueryParams', common.query_params_to_sbs(p)))


def query_latest(ctx):
    p = common.QueryLatestParams(event_types=_types(ctx))
    r = _params(ctx, p)
    ctx.check(type(r) is common.QueryLatestParams, 'type')
    ctx.check(_same_types(ctx, p.event_types, r.event_types), 'event types')


def query_timeseries(ctx):
    which = ctx.params.which
    kw = dict(event_types=None, t_from=None, t_to=None, source_t_from=None,
              source_t_to=None, max_results=None, last_event_id=None)
    for n in kw:
        if n in which:
            if n == 'event_types':
                kw[n] = _types(ctx)
            elif n == 'max_results':
                kw[n] = _opt(ctx, n, lambda: ctx.int(n, -2 ** 63, lib.I64))
            elif n == 'last_event_id':
                kw[n] = _opt(ctx, n, lambda: lib.event_id(ctx, n))
            else:
                kw[n] = lib.opt_timestamp(ctx, n)
    p = common.QueryTimeseriesParams(
        **kw, order=ctx.pick('order', list(common.Order)),
        order_by=ctx.pick('order_by', list(common.OrderBy)))
    r = _params(ctx, p)
    ctx.check(type(r) is common.QueryTimeseriesParams, 'type')
    ctx.check(_same_types(ctx, p.event_types, r.event_types), 'event types')
    for n in p._fields[1:]:
        ctx.check(ctx.eq(getattr(p, n), getattr(r, n)), f'{n} changed')


def query_server(ctx):
    p = common.QueryServerParams(
        server_id=ctx.int('server', -2 ** 63, lib.I64),
        persisted=ctx.flag('persisted'),
        max_results=_opt(ctx, 'max', lambda: ctx.int('max', -2 ** 63,
                                                     lib.I64)),
        last_event_id=_opt(ctx, 'last', lambda: lib.event_id(ctx, 'last')))
    r = _params(ctx, p)
    ctx.check(type(r) is common.QueryServerParams, 'type')
    ctx.check(ctx.eq(p, r), 'parameters changed')


def query_result(ctx):
    k = ctx.params.k
    events = [make_event(ctx, f'e{i}', n=i % 3,
                         kinds=('none', 'binary') if i else ('json',))
              for i in range(k)]
    p = common.QueryResult(events=events, more_follows=ctx.flag('more'))
    r = common.query_result_from_sbs(
        wire('HatEventer.QueryResult', common.query_result_to_sbs(p)))
    ctx.check(ctx.eq(r.more_follows, p.more_follows), 'more_follows')
    got = list(r.events)
    ctx.check(len(got) == k, 'number of events')
    for a, b in zip(events, got):
        check_event(ctx, a, b)


def status(ctx):
    s = ctx.pick('status', list(common.Status))
    r = common.status_from_sbs(wire('HatEventer.Status',
                                    common.status_to_sbs(s)))
    ctx.check(r is s, 'status changed')
    ctx.check(set(i.value for i in common.Status) ==
              {'standby', 'starting', 'operational', 'stopping'}, 'values')


def payload(ctx):
    p = lib.payload(ctx, 'p', kinds=('json', 'binary'))
    r = common.event_payload_from_sbs(
        wire('HatEventer.EventPayload', common.event_payload_to_sbs(p)))
    ctx.check(type(p) is type(r), 'type')
    ctx.check(ctx.eq(norm(p), norm(r)), 'payload changed')


def injective(ctx):
    """Different events have different encodings (as data)"""
    a = make_event(ctx, 'a', n=2, kinds=('none', 'binary'))
    b = make_event(ctx, 'b', n=2, kinds=('none', 'binary'))
    da, db = common.event_to_sbs(a), common.event_to_sbs(b)
    ctx.check(ctx.implies(ctx.eq(da, db), ctx.eq(a, b)),
              'different events with the same encoding')


assert enum


def jobs(tier):
    b = 'event type of 0, 1 or 3 segments, all optional parts present or not'
    yield Job('event', event, bounds=b)
    yield Job('register-event', register_event, bounds=b)
    yield Job('payload', payload, bounds=b)
    yield Job('injective', injective, bounds='event types of 2 segments')
    yield Job('query-latest', query_latest, bounds='up to 2 event types')
    groups = [('event_types',), ('t_from', 't_to'),
              ('source_t_from', 'source_t_to'),
              ('max_results', 'last_event_id'), ('t_from', 'source_t_to'),
              ('event_types', 'last_event_id')]
    if tier != 'quick':
        groups.append(('event_types', 't_from', 't_to', 'source_t_from',
                       'source_t_to', 'max_results', 'last_event_id'))
    for g in groups:
        yield Job('query-timeseries-' + '-'.join(g), query_timeseries,
                  dict(which=g), bounds=f'present or absent: {g}')
    yield Job('query-server', query_server, bounds='all parameters')
    for k in range(0, 4):
        yield Job(f'query-result-{k}', query_result, dict(k=k),
                  bounds=f'{k} events')
    yield Job('status', status, bounds='all statuses')
