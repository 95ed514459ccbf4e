from hat.event import common

from pysym.job import Job
from . import lib, lmdbenv
from .c08_registration import ASSUMPTIONS  # noqa


POOL = ['?', '*', 'a', 'b']
ASC, DESC = common.Order.ASCENDING, common.Order.DESCENDING
TS, STS = common.OrderBy.TIMESTAMP, common.OrderBy.SOURCE_TIMESTAMP


def spec(ctx, events, params):
    """Events satisfying query parameters, in requested order"""

    def le(a, b):
        return ctx.not_(lib.lt_ts(ctx, b, a))

    def key(e):
        return (e.timestamp if params.order_by == TS else e.source_timestamp)

    out = []
    for e in events:
        if params.order_by == STS and e.source_timestamp is None:
            continue
        c = []
        if params.event_types is not None:
            c.append(lib.spec_any(ctx, e.type, params.event_types))
        if params.t_from is not None:
            c.append(le(params.t_from, e.timestamp))
        if params.t_to is not None:
            c.append(le(e.timestamp, params.t_to))
        if params.source_t_from is not None:
            c.append(False if e.source_timestamp is None else
                     le(params.source_t_from, e.source_timestamp))
        if params.source_t_to is not None:
            c.append(False if e.source_timestamp is None else
                     le(e.source_timestamp, params.source_t_to))
        if ctx.and_(*c):
            out.append(e)
    out = lmdbenv.Model(ctx).sorted(out, key)
    return out[::-1] if params.order == DESC else out


async def fill(ctx, db, p, sources):
    """Register p.k arbitrary events, with flush at arbitrary place"""
    events = []
    for i in range(p.k):
        source = None
        if sources == 'all' or (sources == 'some' and
                                not ctx.flag(f'nosource{i}')):
            source = lib.timestamp(ctx, f'src{i}')
        events.append(lmdbenv.event(ctx, f'e{i}', servers=p.servers,
                                    types=p.types, source=source))
    lmdbenv.ordered(ctx, events)
    flush = ctx.pick('flush', range(-1, p.k)) if p.flush is None else p.flush
    for i, e in enumerate(events):
        await db.register([e])
        if i == flush:
            await db.flush()
    return events


PARTITION = {TS: 'TIMESTAMP', STS: 'SOURCE_TIMESTAMP'}


def query_params(ctx, p):
    args = {}
    for i in p.intervals:
        args[i] = lib.timestamp(ctx, i)
    if p.query is not None:
        args['event_types'] = [lib.query_type(ctx, f'q{i}', n, POOL)
                               for i, n in enumerate(p.query)]
    return common.QueryTimeseriesParams(
        order=p.order, order_by=p.order_by, **args)


async def _filter(ctx, loop, path):
    p = ctx.params
    db = await lmdbenv.create(lmdbenv.conf(path, timeseries=[
        {'order_by': PARTITION[p.order_by], 'subscriptions': [['*']]}]))
    events = await fill(ctx, db, p, p.sources)
    params = query_params(ctx, p)
    expected = spec(ctx, events, params)
    for n in range(2 if p.reopen else 1):
        r = await db.query(params)
        lmdbenv.same_list(ctx, r.events, expected, f'query {n}')
        ctx.check(not r.more_follows, 'more follows')
        if p.reopen and not n:
            await db.async_close()
            db = await lmdbenv.create(lmdbenv.conf(path, timeseries=[
                {'order_by': PARTITION[p.order_by],
                 'subscriptions': [['*']]}]))
    ctx.reach(f'result{len(expected)}')
    await db.async_close()


def filter_(ctx):
    lmdbenv.run(ctx, _filter)


async def _paging(ctx, loop, path):
    """Pages are consecutive parts of the complete result"""
    p = ctx.params
    limit = ctx.pick('limit', p.limits)
    db = await lmdbenv.create(lmdbenv.conf(
        path,
        timeseries=[{'order_by': PARTITION[p.order_by],
                     'subscriptions': [['*']]}],
        **({} if limit is None else {'timeseries_max_results': limit})))
    events = await fill(ctx, db, p, p.sources)
    params = query_params(ctx, p)
    expected = spec(ctx, events, params)
    # 0 stands for unlimited
    size = ctx.pick('size', p.sizes) or None
    page = min((i for i in (size, limit) if i is not None),
               default=len(expected) + 1)
    last = None
    pos = 0
    while True:
        r = await db.query(params._replace(max_results=size,
                                           last_event_id=last))
        exp = expected[pos:pos + page]
        lmdbenv.same_list(ctx, r.events, exp, 'page')
        ctx.check(r.more_follows == (pos + page < len(expected)),
                  'more follows')
        if not r.more_follows:
            break
        ctx.reach('pages')
        pos += page
        last = list(r.events)[-1].id
        if ctx.flag(f'flush_page{pos}'):
            await db.flush()
    await db.async_close()


def paging(ctx):
    lmdbenv.run(ctx, _paging)


async def _partitions(ctx, loop, path):
    """Event is kept in every partition it is subscribed to; query is
    answered from the first partition which can answer it, also when
    partitions are configured in another order afterwards"""
    p = ctx.params
    confs = [{'order_by': 'TIMESTAMP', 'subscriptions': [['a', '*']]},
             {'order_by': 'TIMESTAMP', 'subscriptions': [['b', '*'],
                                                         ['?', 'c']]},
             {'order_by': 'SOURCE_TIMESTAMP', 'subscriptions': [['*']]},
             {'order_by': 'SOURCE_TIMESTAMP', 'subscriptions': [['d']]}]
    order = ctx.pick('order', p.orders)
    # caching of partitions of event types does not change anything
    db = await lmdbenv.create(lmdbenv.conf(
        path, timeseries=[confs[i] for i in order],
        timeseries_event_type_cache_size=p.cache))
    events = []
    for i in range(p.k):
        events.append(lmdbenv.event(
            ctx, f'e{i}', servers=[1],
            type_=(ctx.text(f'e{i}_ty0', ['a', 'b', 'd']),
                   ctx.text(f'e{i}_ty1', ['a', 'c'])),
            source=(lib.timestamp(ctx, f'src{i}')
                    if ctx.flag(f'source{i}') else None)))
    lmdbenv.ordered(ctx, events)
    await db.register(events)
    for n in range(2):
        for cids, qts in (((0, 1), [('a', '*')]), ((0,), [('a', 'a')]),
                          ((1,), [('b', '?')]), ((2,), [('a', '?')]),
                          ((1,), [('d', '?')]), ((2, 3), [('d',)]),
                          ((2, 3), None), ((0, 1), [('?', 'c')])):
            # those with some event type in common with the query
            cid = next((i for i in order if i in cids), None)
            if cid is None:
                continue
            q = common.QueryTimeseriesParams(
                event_types=qts, order=p.order,
                order_by=TS if cid < 2 else STS)
            sub = [tuple(i) for i in confs[cid]['subscriptions']]
            stored = [e for e in events if lib.spec_any(ctx, e.type, sub)]
            r = await db.query(q)
            lmdbenv.same_list(ctx, r.events, spec(ctx, stored, q),
                              f'partition {cid} query {qts} {n}')
        if not n:
            await db.async_close()
            order = ctx.pick('order2', p.orders)
            # listed in other order
            for c in confs:
                c['subscriptions'].reverse()
            db = await lmdbenv.create(lmdbenv.conf(
                path, timeseries=[confs[i] for i in order]))
    await db.async_close()


def partitions(ctx):
    lmdbenv.run(ctx, _partitions)


def jobs(tier):
    quick = tier == 'quick'
    base = dict(k=2, servers=[1, 2], types=['a', 'b'], flush=None,
                sources='some', order=DESC, order_by=TS, intervals=(),
                query=None, reopen=False, limits=(None, 1, 2),
                sizes=(0, 1, 2, 3))

    def job(name, f, require=(), bounds='', **kw):
        return Job(name, f, {**base, **kw}, require=require, bounds=bounds)

    for order in (ASC, DESC):
        for order_by in (TS, STS):
            tag = f'{order.name[0]}{"TS"[order_by == STS]}'
            yield job(f'order-{tag}', filter_, k=3, order=order,
                      order_by=order_by, types=['a'],
                      servers=[1, 2], reopen=True,
                      sources='all' if order_by == STS else 'no',
                      require=('result3',),
                      bounds='3 events of 2 servers, any flush')
            for iv in (('t_from', 't_to'), ('source_t_from', 'source_t_to')):
                yield job(f'interval-{tag}-{iv[0]}', filter_, order=order,
                          order_by=order_by, intervals=iv, types=['a'],
                          servers=[1, 2],
                          require=('result0', 'result1', 'result2'),
                          bounds='2 events, any interval')
            for q in ((1,), (2, 1)):
                yield job(f'types-{tag}-{q}', filter_, order=order,
                          order_by=order_by, query=q,
                          servers=[1], sources='all',
                          require=('result0', 'result1', 'result2'),
                          bounds=f'2 events, query types of {q} subtypes')
            yield job(f'paging-{tag}', paging, k=3, order=order,
                      order_by=order_by, types=['a'], servers=[1],
                      sources='all', require=('pages',),
                      bounds='3 events, any page size and limit, any flush')
            iv = (('t_from', 't_to'), ('source_t_from', 'source_t_to'))
            yield job(f'paging-interval-{tag}', paging,
                      k=2 if quick else 3, order=order,
                      order_by=order_by, types=['a'], servers=[1],
                      sources='all', require=('pages',), limits=(None,),
                      intervals=iv[order_by == STS], sizes=(1,) if quick
                      else (1, 2),
                      bounds='2 (thorough 3) events, any interval, pages')
            if not quick:
                yield job(f'paging-any-{tag}', paging, k=3, order=order,
                          order_by=order_by, types=['a'], servers=[1, 2],
                          sources='all', require=('pages',), query=(1,),
                          bounds='3 events of 2 servers with filter')
                yield job(f'all-{tag}', filter_, k=3, order=order,
                          order_by=order_by, servers=[1, 2],
                          intervals=('t_from', 'source_t_to'), query=(1,),
                          reopen=True, require=('result3',),
                          bounds='3 events, combined filters')
    for order in (ASC, DESC):
        yield job(f'partitions-{order.name}', partitions,
                  k=1 if quick and order is ASC else 2,
                  order=order, cache=int(order is DESC),
                  orders=[(0, 1, 2, 3), (2, 1, 0)] if quick else
                  [(0, 1, 2, 3), (1, 0, 2), (2, 1, 0), (2, 0, 3, 1), (1, 2)],
                  bounds='2 events, 4 partitions in different orders')
