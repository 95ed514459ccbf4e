from hat import aio

from hat.event import common

from pysym import simloop
from pysym.job import Job
from . import lib, lmdbenv
from .c10_timeseries import ASC, DESC, TS, STS, POOL, query_params


ASSUMPTIONS = [
    "events of one server are registered in order of their identifiers; "
    "order of events of different servers with equal timestamps is "
    "arbitrary but the same for all pages",
    "dictionary of event types, deque, sorting: the real Python ones"]


class Log(list):

    def cb(self, name):
        async def f(events):
            self.append((name, list(events)))
        return f


async def create(name, ctx, log=None, cbs=True):
    info = common.import_backend_info(f'hat.event.backends.{name}')
    log = Log() if log is None else log
    return await aio.call(info.create, {},
                          log.cb('registered') if cbs else None,
                          log.cb('flushed') if cbs else None)


def make(ctx, p, ordered=True):
    events = []
    for i in range(p.k):
        source = None
        if p.sources == 'all' or (p.sources == 'some' and
                                  not ctx.flag(f'nosource{i}')):
            source = lib.timestamp(ctx, f'src{i}')
        events.append(lmdbenv.event(ctx, f'e{i}', servers=p.servers,
                                    types=p.types, source=source))
    for i, a in enumerate(events):
        for b in events[:i]:
            same = ctx.eq(a.id.server, b.id.server)
            ctx.assume(ctx.implies(same, lib.lt_id(ctx, b.id, a.id)))
            if p.clock:
                ctx.assume(ctx.implies(same, ctx.not_(
                    lib.lt_ts(ctx, a.timestamp, b.timestamp))))
    return events


async def fill(ctx, db, events, p):
    i = 0
    for n in p.batches:
        batch = events[i:i + n]
        i += n
        result = await db.register(batch)
        ctx.check(list(result) == batch, 'result of register')
    assert i == len(events)


def key(params, e):
    return e.timestamp if params.order_by == TS else e.source_timestamp


def selected(ctx, events, params):
    def le(a, b):
        return ctx.not_(lib.lt_ts(ctx, b, a))

    out = []
    for e in events:
        s = e.source_timestamp
        if params.order_by == STS and s is None:
            continue
        c = []
        if params.event_types is not None:
            c.append(lib.spec_any(ctx, e.type, params.event_types))
        if params.t_from is not None:
            c.append(le(params.t_from, e.timestamp))
        if params.t_to is not None:
            c.append(le(e.timestamp, params.t_to))
        if params.source_t_from is not None:
            c.append(s is not None and le(params.source_t_from, s))
        if params.source_t_to is not None:
            c.append(s is not None and le(s, params.source_t_to))
        if ctx.and_(*c):
            out.append(e)
    return out


def check_order(ctx, got, params):
    got = list(got)
    if params.order == DESC:
        got = got[::-1]
    for i, b in enumerate(got):
        for a in got[:i]:
            x, y = key(params, a), key(params, b)
            ctx.check(ctx.not_(lib.lt_ts(ctx, y, x)), 'order')
            ctx.check(ctx.implies(
                ctx.and_(ctx.eq(x, y), ctx.eq(a.id.server, b.id.server)),
                lib.lt_id(ctx, a.id, b.id)), 'order of equal timestamps')


async def _timeseries(ctx, loop):
    p = ctx.params
    db = await create('memory', ctx)
    events = make(ctx, p)
    await fill(ctx, db, events, p)
    params = query_params(ctx, p)
    expected = selected(ctx, events, params)
    r = await db.query(params)
    lmdbenv.same_set(ctx, r.events, expected, 'timeseries')
    check_order(ctx, r.events, params)
    ctx.check(not r.more_follows, 'more follows')
    ctx.reach(f'result{len(expected)}')
    full = list(r.events)
    if p.page:
        size = ctx.pick('size', p.page)
        last, pos = None, 0
        while True:
            r = await db.query(params._replace(max_results=size,
                                               last_event_id=last))
            lmdbenv.same_list(ctx, r.events, full[pos:pos + size], 'page')
            pos += size
            ctx.check(r.more_follows == (pos < len(full)), 'more follows')
            if not r.more_follows:
                break
            ctx.reach('pages')
            last = list(r.events)[-1].id
    if p.other:
        # identifier of event which is not part of result
        other = common.EventId(ctx.int('o_srv', 0, 9), ctx.int('o_ses', 0, 9),
                               ctx.int('o_ins', 0, 9))
        r = await db.query(params._replace(last_event_id=other))
        n = None
        for i, e in enumerate(full):
            if ctx.eq(e.id, other):
                n = i
        lmdbenv.same_list(ctx, r.events, [] if n is None else full[n + 1:],
                          'after other')
        ctx.reach('unknown' if n is None else 'known')
    await db.async_close()


def timeseries(ctx):
    simloop.run(ctx, _timeseries)


async def _latest(ctx, loop):
    p = ctx.params
    db = await create('memory', ctx)
    events = make(ctx, p)
    m = lmdbenv.Model(ctx)
    await fill(ctx, db, events, p)
    for e in events:
        m.add_latest(e)
    types = None
    if p.query is not None:
        types = [lib.query_type(ctx, f'q{i}', n, POOL)
                 for i, n in enumerate(p.query)]
    expected = [e for e in m.latest
                if types is None or lib.spec_any(ctx, e.type, types)]
    r = await db.query(common.QueryLatestParams(types))
    lmdbenv.same_set(ctx, r.events, expected, 'latest')
    ctx.check(not r.more_follows, 'more follows')
    ctx.reach(f'result{len(expected)}')
    await db.async_close()


def latest(ctx):
    simloop.run(ctx, _latest)


async def _server(ctx, loop):
    p = ctx.params
    log = Log()
    cbs = ctx.flag('callbacks')
    db = await create('memory', ctx, log, cbs)
    events = make(ctx, p)
    await fill(ctx, db, events, p)
    i = 0
    for n in p.batches if cbs else ():
        ctx.check(log[0][0] == 'registered' and log[1][0] == 'flushed',
                  'callbacks')
        for _, x in log[:2]:
            lmdbenv.same_list(ctx, x, events[i:i + n], 'notified')
        del log[:2]
        i += n
    ctx.check(not log, 'callbacks')
    server = ctx.int('server', 0, 9)
    own = [e for e in events if ctx.eq(e.id.server, server)]
    last = await db.get_last_event_id(server)
    ctx.check(ctx.eq(last, own[-1].id if own else
                     common.EventId(server, 0, 0)), 'last event id')
    after = None
    if ctx.flag('after'):
        after = common.EventId(server, ctx.int('a_ses', 0, 2 ** 63 - 1),
                               ctx.int('a_ins', 0, 2 ** 63 - 1))
        own = [e for e in own if lib.lt_id(ctx, after, e.id)]
    size = ctx.pick('size', (None, 1, 2))
    persisted = ctx.flag('persisted')
    n = size or len(own)
    r = await db.query(common.QueryServerParams(
        server_id=server, persisted=persisted, max_results=size,
        last_event_id=after))
    lmdbenv.same_list(ctx, r.events, own[:n], 'server')
    ctx.check(r.more_follows == (len(own) > n), 'more follows')
    ctx.reach(f'result{len(own)}')
    await db.flush()
    ctx.check(db.is_open, 'open')
    await db.async_close()
    ctx.check(db.is_closed, 'closed')


def server(ctx):
    simloop.run(ctx, _server)


async def _dummy(ctx, loop):
    p = ctx.params
    log = Log()
    cbs = ctx.flag('callbacks')
    db = await create('dummy', ctx, log, cbs)
    events = make(ctx, p)
    result = await db.register(events)
    lmdbenv.same_list(ctx, result, events, 'result')
    ctx.check([i for i, _ in log] == (['registered', 'flushed'] if cbs
                                      else []), 'callbacks')
    for _, x in log:
        lmdbenv.same_list(ctx, x, events, 'notified')
    s = ctx.int('server', 0, 9)
    ctx.check(ctx.eq(await db.get_last_event_id(s), common.EventId(s, 0, 0)),
              'last event id')
    for params in (common.QueryLatestParams(), common.QueryTimeseriesParams(),
                   common.QueryServerParams(s)):
        r = await db.query(params)
        ctx.check(not r.events and not r.more_follows, 'query')
    await db.flush()
    await db.async_close()
    ctx.check(db.is_closed, 'closed')
    ctx.reach('end')


def dummy(ctx):
    simloop.run(ctx, _dummy)


def jobs(tier):
    quick = tier == 'quick'
    base = dict(k=3, servers=None, types=('a', 'b'), sources='none',
                clock=False, batches=(1, 2), order=ASC, order_by=TS,
                intervals=(), query=None, page=(), other=False)
    results = tuple(f'result{i}' for i in range(4))

    def job(name, f, bounds, require=(), **kw):
        return Job(name, f, {**base, **kw}, require=require, bounds=bounds)

    for by in (TS, STS):
        for order in (ASC, DESC):
            n = f'{by.name.lower()}-{order.name.lower()[:3]}'
            src = 'none' if by == TS else 'some'
            yield job(f'interval-{n}', timeseries,
                      f'{2 if quick else 3} events of any servers; time '
                      f'interval', results[:3],
                      intervals=('t_from', 't_to'), k=2 if quick else 3,
                      batches=(1, 1) if quick else (1, 2), sources=src,
                      order=order, order_by=by)
            yield job(f'source-{n}', timeseries,
                      '2 events, some without source timestamp; source time '
                      'interval', results[:3], sources='some', k=2,
                      batches=(2,), order=order, order_by=by,
                      intervals=('source_t_from', 'source_t_to'))
            yield job(f'page-{n}', timeseries,
                      f'{3 if quick else 4} events of 2 servers, pages of 1 '
                      'or 2', ('pages',), servers=(1, 2), types=('a',),
                      sources=src if quick else 'all',
                      k=3 if quick else 4,
                      batches=(1, 2) if quick else (1, 1, 1, 1),
                      order=order, order_by=by, page=(1, 2))
            yield job(f'after-{n}', timeseries,
                      '2 events; any last event id', ('known', 'unknown'),
                      sources='all', k=2, batches=(2,), types=('a',),
                      order=order, order_by=by, other=True)
        for q in ((1,), (2, 1)):
            yield job(f'types-{by.name.lower()}-{len(q)}', timeseries,
                      f'2 events; query types of {q} subtypes',
                      results[:3], sources='all', k=2, batches=(2,), query=q,
                      order_by=by)
    yield job('ties', timeseries, '4 events with 2 timestamps',
              servers=(1, 2), types=('a',), k=4, batches=(1, 1, 1, 1),
              order=DESC, clock=True)
    yield job('latest', latest, '3 events of any servers and types',
              results[1:], types=('a', 'b', 'c'))
    if not quick:
        yield job('latest-4', latest, '4 events of any servers and types',
                  results[1:], types=('a', 'b', 'c'), k=4, batches=(1, 3))
    yield job('latest-types', latest, '2 events; 2 query types', results[:3],
              k=2, batches=(2,), query=(1, 2))
    yield job('server', server, '3 events of any servers; any last event id',
              results, types=('a',))
    yield job('dummy', dummy, 'dummy backend, 2 events', ('end',), k=2)
