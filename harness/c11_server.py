import asyncio
import contextlib
import inspect

from hat.event import common
from hat.event.backends.lmdb import refdb

from pysym.job import Job
from . import lib, lmdbenv
from .c08_registration import ASSUMPTIONS  # noqa


# configurations: query types of latest, of timeseries and of timeseries
# ordered by source timestamp
CONFS = {'both': ([['*']], [['*']], None),
         'latest': ([['*']], None, None),
         'timeseries': ([], [['*']], None),
         'source': ([], None, [['*']]),
         'mixed': ([['a']], [['b']], None)}


def conf(path, name, **kw):
    latest, ts, sts = CONFS[name]
    return lmdbenv.conf(
        path, latest=latest,
        timeseries=[*([{'order_by': 'TIMESTAMP', 'subscriptions': ts}]
                      if ts else []),
                    *([{'order_by': 'SOURCE_TIMESTAMP', 'subscriptions': sts}]
                      if sts else [])], **kw)


class Retained:
    """Accepted events with mark if they are kept in timeseries"""

    def __init__(self, ctx, name):
        self.ctx = ctx
        self.latest, self.ts, self.sts = CONFS[name]
        self.m = lmdbenv.Model(ctx)
        self.items = []      # (event, timeseries, latest)
        self.persisted = []

    def register(self, e):
        ctx = self.ctx
        latest = bool(lib.spec_any(ctx, e.type,
                                   [tuple(i) for i in self.latest]))
        series = bool(ctx.or_(
            self.ts and lib.spec_any(ctx, e.type,
                                     [tuple(i) for i in self.ts]),
            self.sts and e.source_timestamp is not None and
            lib.spec_any(ctx, e.type, [tuple(i) for i in self.sts])))
        latest = True if latest else False
        series = True if series else False
        if not self.m.acceptable(e):
            return
        if not latest and not series:
            # not stored at all
            return
        i = self.m.last_of(e.id.server)
        if i is None:
            self.m.last.append((e.id.server, e.id, e.timestamp))
        else:
            self.m.last[i] = (e.id.server, e.id, e.timestamp)
        if latest:
            for n, (p, ts, la) in enumerate(self.items):
                if la and ctx.eq(p.type, e.type):
                    if self.m.newer(p, e):
                        latest = False
                    else:
                        self.items[n] = p, ts, False
                    break
        self.items.append((e, series, latest))

    def all(self, server):
        """All ever stored"""
        return [e for e, _, __ in self.items
                if self.ctx.eq(e.id.server, server)]

    def retained(self, server):
        return [e for e, ts, la in self.items
                if (ts or la) and self.ctx.eq(e.id.server, server)]


def check_result(ctx, events, must, may, msg):
    """Ascending, contains all `must`, nothing but `may`"""
    events = list(events)
    for a, b in zip(events, events[1:]):
        ctx.check(lib.lt_id(ctx, a.id, b.id), f'{msg}: order of events')
    for e in must:
        ctx.check(ctx.or_(*(ctx.eq(e, i) for i in events)),
                  f'{msg}: event missing')
    for i in events:
        ctx.check(ctx.or_(*(ctx.eq(e, i) for e in may)),
                  f'{msg}: unexpected event')


def _event(ctx, p, i):
    return lmdbenv.event(
        ctx, f'e{i}', servers=p.servers, types=p.types,
        source=(lib.timestamp(ctx, f'src{i}')
                if p.conf == 'source' and ctx.flag(f'source{i}') else None))


async def _query(ctx, loop, path):
    p = ctx.params
    db = await lmdbenv.create(conf(path, p.conf))
    r = Retained(ctx, p.conf)
    server = p.servers[0] if p.servers else ctx.int('server', 0, lib.I64)
    persisted = []
    events = []
    for i in range(p.k):
        e = _event(ctx, p, i)
        events.append(e)
        if p.ordered:
            lmdbenv.ordered(ctx, events)
        await db.register([e])
        r.register(e)
        step = p.steps[i]
        if step == '?':
            step = ctx.pick(f'step{i}', '-fr')
        if step == 'f':
            await db.flush()
        elif step == 'r':
            await db.async_close()
            db = await lmdbenv.create(conf(path, p.conf))
        if step in 'fr':
            persisted = r.retained(server)
    must, may = r.retained(server), r.all(server)
    ctx.reach(f'retained{len(must)}')
    # everything
    res = await db.query(common.QueryServerParams(server_id=server))
    check_result(ctx, res.events, must, may, 'query')
    ctx.check(not res.more_follows, 'more follows')
    everything = list(res.events)
    # only persisted
    res = await db.query(common.QueryServerParams(server_id=server,
                                                  persisted=True))
    lmdbenv.same_list(ctx, res.events, persisted, 'persisted')
    ctx.check(not res.more_follows, 'more follows (persisted)')
    # part of it
    flag = ctx.flag('persisted')
    src = persisted if flag else everything
    last = None
    if ctx.flag('last'):
        last = common.EventId(server, ctx.int('last_ses', 0, lib.I64),
                              ctx.int('last_ins', 0, lib.I64))
        src = [e for e in src if lib.lt_id(ctx, last, e.id)]
    n = ctx.pick('max', (None, 0, 1, 2))
    res = await db.query(common.QueryServerParams(
        server_id=server, persisted=flag, max_results=n, last_event_id=last))
    lmdbenv.same_list(ctx, res.events, src if n is None else src[:n], 'page')
    ctx.check(res.more_follows == (n is not None and n < len(src)),
              'more follows (page)')
    await db.async_close()


def query(ctx):
    lmdbenv.run(ctx, _query)


async def _paging(ctx, loop, path):
    """Pages, with further events registered and flushed between, give each
    event once"""
    p = ctx.params
    db = await lmdbenv.create(conf(path, 'both'))
    events = []
    last = None
    got = []
    for i in range(p.k):
        e = lmdbenv.event(ctx, f'e{i}', servers=[1], types=['a', 'b'])
        events.append(e)
        lmdbenv.ordered(ctx, events)
        await db.register([e])
        if ctx.flag(f'flush{i}'):
            await db.flush()
        if ctx.flag(f'query{i}'):
            r = await db.query(common.QueryServerParams(
                server_id=1, max_results=1, last_event_id=last))
            got.extend(r.events)
            if r.events:
                last = list(r.events)[-1].id
    while True:
        r = await db.query(common.QueryServerParams(
            server_id=1, max_results=1, last_event_id=last))
        got.extend(r.events)
        if not r.more_follows:
            break
        last = list(r.events)[-1].id
    lmdbenv.same_list(ctx, got, events, 'pages')
    await db.async_close()


def paging(ctx):
    lmdbenv.run(ctx, _paging)


@contextlib.contextmanager
def result_limit(n):
    """Backend with lower limit of results (which is 4096)

    False if there is no such limit."""
    cls = refdb.RefDb
    args = inspect.signature(cls.__init__).parameters
    p = args.get('max_results')
    if p is None or not isinstance(p.default, int):
        yield False
        return
    init = cls.__init__

    def replacement(self, *a, **kw):
        bound = inspect.signature(init).bind(self, *a, **kw)
        bound.arguments['max_results'] = n
        init(*bound.args, **bound.kwargs)

    cls.__init__ = replacement
    try:
        yield True
    finally:
        cls.__init__ = init


async def _limit(ctx, loop, path):
    """Number of results is limited also when client doesn't limit it - pages
    of such queries are complete"""
    p = ctx.params
    with result_limit(p.limit) as limited:
        db = await lmdbenv.create(conf(path, 'both'))
    if not limited:
        ctx.reach('pages')
        return
    events = []
    for i in range(p.k):
        e = lmdbenv.event(ctx, f'e{i}', servers=[1, 2], types=['a'])
        events.append(e)
        lmdbenv.ordered(ctx, events)
        await db.register([e])
        if ctx.flag(f'flush{i}'):
            await db.flush()
    events = [e for e in events if e.id.server == 1]
    size = ctx.pick('size', (None, 1, 2, 3))
    page = p.limit if size is None else min(size, p.limit)
    last = None
    pos = 0
    while True:
        r = await db.query(common.QueryServerParams(
            server_id=1, max_results=size, last_event_id=last))
        lmdbenv.same_list(ctx, r.events, events[pos:pos + page], 'limit')
        pos += page
        ctx.check(r.more_follows == (pos < len(events)),
                  'limit: more follows')
        if not r.more_follows:
            break
        ctx.reach('pages')
        last = list(r.events)[-1].id
    await db.async_close()


def limit(ctx):
    lmdbenv.run(ctx, _limit)


COND = {'subscriptions': [['*']],
        'condition': {'type': 'json', 'data_type': 'number'}}


async def _conf_change(ctx, loop, path):
    """Configuration changes between runs: events remain available, each
    once"""
    p = ctx.params
    events = []
    series = []
    for i in range(p.opens):
        sub = ctx.pick(f'sub{i}', p.subs)
        ts = ctx.pick(f'ts{i}', p.series)
        cond = p.cond and ctx.flag(f'cond{i}')
        db = await lmdbenv.create(lmdbenv.conf(
            path, latest=sub, conditions=[COND] if cond else [],
            timeseries=[{'order_by': 'TIMESTAMP', 'subscriptions': t}
                        for t in ts]))
        e = lmdbenv.event(
            ctx, f'e{i}', servers=[1], types=['a', 'b'],
            payload=common.EventPayloadJson(
                'x' if p.cond and ctx.flag(f'pay{i}') else 1))
        events.append(e)
        lmdbenv.ordered(ctx, events)
        await db.register([e])
        if not (cond and e.payload.data == 'x'):
            for t in ts:
                if lib.spec_any(ctx, e.type, [tuple(j) for j in t]):
                    series.append(e)
                    break
        for n in range(2):
            r = await db.query(common.QueryServerParams(server_id=1))
            check_result(ctx, r.events, series, events, f'{i} {n}')
            # the newest of each type in latest, too
            r2 = await db.query(common.QueryLatestParams())
            check_result(ctx, r.events, r2.events, events, f'latest {i} {n}')
            await db.flush()
        await db.async_close()


def conf_change(ctx):
    lmdbenv.run(ctx, _conf_change)


async def _delay(ctx, loop, i):
    """Some iterations of event loop, or until nothing is left to do"""
    n = ctx.pick(f's{i}', ctx.params.delays)
    if n is None:
        await loop.settle()
    else:
        await loop.steps(n)


async def _concurrent(ctx, loop, path):
    """Query concurrent with registration and flush: contains everything
    registered before it, and nothing not registered before its end"""
    p = ctx.params
    db = await lmdbenv.create(conf(path, p.conf))
    events = [lmdbenv.event(ctx, f'e{i}', servers=[1], types=['a'])
              for i in range(p.k)]
    lmdbenv.ordered(ctx, events)
    todo = list(events)
    done = []
    flushed = []
    tasks = []
    loop.hold = True
    query = None
    if p.kind == 'server':
        params = common.QueryServerParams(server_id=1)
    elif p.kind == 'persisted':
        params = common.QueryServerParams(server_id=1, persisted=True)
    else:
        params = common.QueryTimeseriesParams(
            order=common.Order.ASCENDING if p.kind == 'asc' else
            common.Order.DESCENDING)
    must = []
    persisted = []

    async def flush():
        before = list(done)
        await db.flush()
        flushed[:] = before if len(before) > len(flushed) else flushed

    for i in range(p.steps):
        actions = ['job'] if loop.jobs else []
        if todo:
            actions.append('register')
        actions.append('flush')
        if query is None:
            actions.append('query')
        a = ctx.pick(f'a{i}', actions)
        if a == 'register':
            e = todo.pop(0)
            await db.register([e])
            done.append(e)
        elif a == 'flush':
            tasks.append(asyncio.ensure_future(flush()))
            await _delay(ctx, loop, i)
        elif a == 'query':
            must = list(done)
            persisted = list(flushed)
            query = asyncio.ensure_future(db.query(params))
            await _delay(ctx, loop, i)
        else:
            loop.run_job()
            await _delay(ctx, loop, i)
    if query is None:
        must = list(done)
        persisted = list(flushed)
        query = asyncio.ensure_future(db.query(params))
    else:
        ctx.reach('concurrent')
    loop.release()
    r = await query
    await asyncio.gather(*tasks)
    events = list(r.events)
    if p.kind == 'desc':
        events = events[::-1]
    if p.kind == 'persisted':
        must = persisted
    check_result(ctx, events, must, done, 'concurrent query')
    ctx.check(not r.more_follows, 'more follows')
    await db.async_close()


def concurrent(ctx):
    lmdbenv.run(ctx, _concurrent)


def jobs(tier):
    quick = tier == 'quick'
    for c in CONFS:
        yield Job(f'query-{c}', query,
                  dict(k=2, steps='??', servers=[1, 2], conf=c,
                       types=['a', 'b', 'c'] if c == 'mixed' else ['a', 'b'],
                       ordered=True), require=('retained1',),
                  bounds='2 events of 2 servers, flush or reopening after '
                         'each, any page')
        yield Job(f'query-one-{c}', query,
                  dict(k=3, steps='???' if not quick else '-?-',
                       servers=[1], conf=c,
                       types=['a', 'b'],
                       ordered=True),
                  require=('retained2' if c == 'latest' else 'retained3',),
                  bounds='3 events of a server, any page')
    for c in ('both', 'latest'):
        yield Job(f'query-any-{c}', query,
                  dict(k=2, steps='??', servers=None, conf=c,
                       types=['a', 'b'], ordered=False),
                  require=('retained2',),
                  bounds='2 arbitrary events, valid or not')
    yield Job('paging', paging, dict(k=2 if quick else 3),
              bounds='2 (thorough 3) events, any flushes and queries between')
    for n in (2,) if quick else (1, 2, 3):
        yield Job(f'limit-{n}', limit, dict(k=3, limit=n),
                  require=('pages',),
                  bounds='3 events of 2 servers, limit of results lowered '
                         'to 1 and 2')
    alls = [[['*']]]
    for cond in (False, True):
        yield Job(f'conf-{cond}', conf_change,
                  dict(opens=2 if quick or cond else 3, cond=cond,
                       subs=[[], [['*']], [['a']]],
                       series=[[], alls]
                       if quick else [[], alls, [[['b']], [['a']]]]),
                  bounds='2 (thorough 3) openings with changing '
                         'configuration, an event in each')
    for c, kinds in (('both', ('server', 'persisted', 'asc', 'desc')),):
        for kind in kinds:
            yield Job(f'concurrent-{kind}', concurrent,
                      dict(conf=c, k=2, steps=4 if quick else 5,
                           delays=(None, 0, 2) if quick else
                           (None, 0, 1, 2, 4, 6),
                           kind=kind),
                      require=('concurrent',),
                      bounds='2 events, 4 (thorough 5) steps of '
                             'registrations, flushes, query and executor '
                             'jobs with 0-6 or all loop iterations between')
