import asyncio

from hat.event import common
from hat.event.backends.lmdb import backend as _backend

from pysym.job import Job
from . import lib, lmdbenv
from .c08_registration import ASSUMPTIONS as _A
from .c11_server import check_result


ASSUMPTIONS = [*_A,
               "database data fits single 4096 byte page (size limit)"]

HI = 2 ** 40


def minus(ctx, t, duration):
    """Timestamp t - duration (whole microseconds)"""
    us = t.us - round(duration * 1e6)
    s = t.s
    n, us = us // 10 ** 6, us % 10 ** 6
    return common.Timestamp(s + n, us)


class Part:
    """Expected content of partition"""

    def __init__(self, ctx, limit, key):
        self.ctx = ctx
        self.limit = limit
        self.key = key
        self.events = []     # oldest first

    def add(self, events):
        self.events = lmdbenv.Model(self.ctx).sorted(
            [*self.events, *events], self.key)

    def cleanup(self, now, total):
        """total - number of entries in the database"""
        ctx = self.ctx
        li = self.limit
        if li is None:
            return 0
        mx = li.get('max_entries')
        if li.get('size') is not None and total:
            n = int(li['size'] * total / 4096)
            mx = n if mx is None else min(mx, n)
        removed = 0
        while len(self.events) > li.get('min_entries', 0):
            if mx is not None and len(self.events) > mx:
                pass
            elif li.get('duration') is not None and lib.lt_ts(
                    ctx, self.key(self.events[0]),
                    minus(ctx, now, li['duration'])):
                pass
            else:
                break
            self.events.pop(0)
            removed += 1
        return removed


async def _cleanup(ctx, loop, path, clock):
    p = ctx.params
    saved = _backend.cleanup_max_results
    if p.chunk:
        _backend.cleanup_max_results = p.chunk
    try:
        await _cleanup2(ctx, loop, path, clock, p)
    finally:
        _backend.cleanup_max_results = saved


async def _cleanup2(ctx, loop, path, clock, p):
    limit = {}
    for name, options in p.limit.items():
        v = ctx.pick(name, options)
        if v is not None:
            limit[name] = v
    other = p.other
    c = lmdbenv.conf(
        path, cleanup_period=100, latest=p.latest,
        timeseries=[{'order_by': p.order_by, 'subscriptions': [['a']],
                     'limit': limit},
                    *([other] if other else [])])

    def key(e):
        return e.timestamp if p.order_by == 'TIMESTAMP' else e.source_timestamp

    part = Part(ctx, limit, key)
    rest = Part(ctx, other.get('limit') if other else None,
                lambda e: e.timestamp)
    db = await lmdbenv.create(c)
    now = clock[0]

    events = []
    pending = []
    removed = 0

    def flushed():
        nonlocal pending
        part.add([e for e in pending if ctx.eq(e.type, ('a',))])
        if other:
            rest.add([e for e in pending if lib.spec_any(
                ctx, e.type, [tuple(i) for i in other['subscriptions']])])
        pending = []

    async def check(msg):
        if pending:
            return
        r = await db.query(common.QueryTimeseriesParams(
            event_types=[('a',)], order=common.Order.ASCENDING,
            order_by=common.OrderBy[p.order_by]))
        lmdbenv.same_list(ctx, r.events, part.events, f'{msg}: partition')
        if other:
            r = await db.query(common.QueryTimeseriesParams(
                event_types=[('b',)], order=common.Order.ASCENDING))
            lmdbenv.same_list(ctx, r.events,
                              [e for e in rest.events
                               if ctx.eq(e.type, ('b',))],
                              f'{msg}: other partition')
        r = await db.query(common.QueryLatestParams())
        latest = list(r.events)
        if p.latest:
            lmdbenv.same_set(ctx, latest, m.latest, f'{msg}: latest')
        keep = [e for e in events
                if ctx.or_(*(ctx.eq(e, i) for i in
                             (*part.events, *rest.events, *latest)))]
        r = await db.query(common.QueryServerParams(server_id=1))
        lmdbenv.same_list(ctx, r.events, keep, f'{msg}: server query')

    async def clean():
        nonlocal removed
        now = common.Timestamp(ctx.int(f'now{len(events)}_s', 0, HI),
                               ctx.int(f'now{len(events)}_us', 0, 999999))
        clock[0] = now
        await asyncio.sleep(100.5)
        n = len(part.events) + len(rest.events)
        a = part.cleanup(now, n)
        removed += a
        removed += rest.cleanup(now, n - a)

    m = lmdbenv.Model(ctx)
    for i in range(p.k):
        e = lmdbenv.event(
            ctx, f'e{i}', servers=[1], types=p.types, small=True,
            source=(lib.timestamp(ctx, f'src{i}', 0, HI)
                    if p.order_by != 'TIMESTAMP' else None))
        events.append(e)
        lmdbenv.ordered(ctx, events)
        await db.register([e])
        m.register(e)
        pending.append(e)
        step = p.steps[i]
        if step == '?':
            step = ctx.pick(f'step{i}', '-fFcr')
        if step == 'c':      # cleanup before flush
            await clean()
            await db.flush()
            flushed()
        elif step == 'f':
            await db.flush()
            flushed()
        elif step == 'F':    # flush and cleanup
            await db.flush()
            flushed()
            await clean()
        elif step == 'r':    # reopen (cleanup at the beginning)
            await db.async_close()
            flushed()
            now = clock[0]
            db = await lmdbenv.create(c)
            await loop.settle()
            n = len(part.events) + len(rest.events)
            a = part.cleanup(now, n)
            removed += a + rest.cleanup(now, n - a)
        await check(f'step {i}')
    ctx.reach('removed' if removed else 'kept')
    await db.async_close()


def cleanup(ctx):
    t0 = common.Timestamp(ctx.int('now_s', 0, HI), 0)
    clock = [t0]
    lmdbenv.run(ctx, lambda ctx, loop, path: _cleanup(ctx, loop, path, clock),
                now=lambda: clock[0])


def jobs(tier):
    quick = tier == 'quick'
    base = dict(k=2, steps='?F', order_by='TIMESTAMP', latest=[], other=None,
                types=['a'], chunk=None, limit={})

    def job(name, bounds, **kw):
        return Job(name, cleanup, {**base, **kw}, require=('removed', 'kept'),
                   bounds=bounds)

    counts = {'min_entries': (None, 1, 2), 'max_entries': (None, 0, 1, 2)}
    for order in ('TIMESTAMP', 'SOURCE_TIMESTAMP'):
        t = order[0]
        yield job(f'entries-{t}', '3 events, limits of entries',
                  order_by=order, k=3, steps='-?F', limit=counts)
        yield job(f'duration-{t}', '2 events, duration and minimum',
                  order_by=order,
                  limit={'duration': (0, 1.5, 100), 'min_entries': (None, 1)})
        yield job(f'chunk-{t}', '3 events, cleanup one by one',
                  order_by=order, k=3, steps='-fF', chunk=1,
                  limit={'max_entries': (0, 1, 3), 'min_entries': (None, 1),
                         'duration': (None, 10)})
    yield job('latest', '2 events with latest', latest=[['*']],
              types=['a', 'b'], steps='?F' if quick else '??',
              limit={'max_entries': (0, 1), 'duration': (None, 5)})
    yield job('other', '2 events in two partitions',
              types=['a', 'b', 'c'], steps='?F',
              other={'order_by': 'TIMESTAMP',
                     'subscriptions': [['b'], ['c']]},
              limit={'max_entries': (0, 1), 'duration': (None, 5)})
    yield job('both', '2 events in two limited partitions',
              types=['a', 'b'], steps='?F', chunk=1,
              other={'order_by': 'TIMESTAMP', 'subscriptions': [['b']],
                     'limit': {'max_entries': 1}},
              limit={'max_entries': (0, 1)})
    yield job('size', '3 events, limit of size', k=3, steps='-?F',
              limit={'size': (0, 1000, 1366, 4095, 4096, 10000),
                     'min_entries': (None, 2), 'max_entries': (None, 2)})
    if not quick:
        yield job('all', '3 events, all limits', k=3, steps='??F',
                  limit={**counts, 'duration': (None, 1.5)})
        yield job('all-source', '3 events, all limits', k=3, steps='?FF',
                  order_by='SOURCE_TIMESTAMP', latest=[['*']],
                  types=['a', 'b'],
                  limit={**counts, 'duration': (None, 1.5)})


assert check_result
