import asyncio
import contextlib

import lmdb

from hat.event import common

from pysym import lmdbmodel
from pysym.job import Job
from . import lib, lmdbenv
from .c08_registration import ASSUMPTIONS as _A


ASSUMPTIONS = [
    *_A,
    "LMDB transactions are atomic and durable on commit (its documented "
    "guarantee); a crash or fault can occur before any operation with effect "
    "on the database"]


class Faults:
    """Fault at arbitrary database operation"""

    def __init__(self, ctx, n, crash):
        self.at = ctx.int('at', 0, n)
        self.n = n
        self.count = 0
        self.crash = crash
        self.hit = False

    def __call__(self, op):
        if self.hit:
            if self.crash and op != 'env_close':
                raise lmdb.Error('crashed')
            return
        if op == 'env_close':
            return
        if self.count < self.n:
            i = self.count
            self.count += 1
            if self.at == i:
                self.hit = True
                raise lmdb.Error('fault')


def conf(path, **kw):
    return lmdbenv.conf(path, **kw)


async def content(ctx, db, events, lo, hi, msg):
    """Database contains what is expected after registration of first n of
    events, for some lo <= n <= hi"""
    r = await db.query(common.QueryTimeseriesParams(
        order=common.Order.ASCENDING))
    n = len(list(r.events))
    ctx.check(lo <= n, f'{msg}: flushed event lost ({n} of {lo})')
    ctx.check(n <= hi, f'{msg}: event not registered ({n} of {hi})')
    m = lmdbenv.Model(ctx)
    for e in events[:n]:
        m.register(e)
    lmdbenv.same_list(ctx, r.events,
                      m.sorted(events[:n], lambda e: e.timestamp),
                      f'{msg}: timeseries')
    r = await db.query(common.QueryLatestParams())
    lmdbenv.same_set(ctx, r.events, m.latest, f'{msg}: latest')
    for server in (1, 2):
        i = await db.get_last_event_id(server)
        ctx.check(ctx.eq(i, m.last_event_id(server)),
                  f'{msg}: last event id')
        r = await db.query(common.QueryServerParams(server_id=server))
        lmdbenv.same_list(ctx, r.events, m.of_server(server),
                          f'{msg}: server query')
        r = await db.query(common.QueryServerParams(server_id=server,
                                                    persisted=True))
        lmdbenv.same_list(ctx, r.events, m.of_server(server),
                          f'{msg}: persisted server query')
    return n


async def _close(db):
    with contextlib.suppress(Exception):
        await db.async_close()


async def _fault(ctx, loop, path):
    p = ctx.params
    log = []
    f = Faults(ctx, p.ops, p.crash)
    if not p.create:
        db = await lmdbenv.create(conf(path))
        await db.async_close()
    # creation and opening are subject to faults, too
    lmdbmodel.hook = f
    registered = []
    flushed = 0
    tasks = []

    def registered_cb(events):
        pass

    def flushed_cb(events):
        log.extend(events)

    events = [lmdbenv.event(ctx, f'e{i}', servers=p.servers, types=p.types)
              for i in range(p.k)]
    lmdbenv.ordered(ctx, events)
    todo = list(events)
    try:
        db = await lmdbenv.create(conf(path), registered_cb, flushed_cb)
    except Exception:
        db = None
        ctx.reach('create failed')
    if db is not None:
        await loop.settle()     # initial cleanup

        async def flush(n):
            nonlocal flushed
            await db.flush()
            flushed = max(flushed, n)

        loop.hold = True
        for i in range(p.steps):
            actions = []
            if loop.jobs:
                actions.append('job')
            if todo:
                actions.append('register')
            if registered:
                actions.append('flush')
            a = ctx.pick(f'a{i}', actions)
            if a == 'register':
                e = todo[0]
                try:
                    await db.register([e])
                except common.BackendClosedError:
                    ctx.check(f.hit, 'registration refused')
                    break
                todo.pop(0)
                registered.append(e)
            elif a == 'flush':
                tasks.append(asyncio.ensure_future(flush(len(registered))))
                await loop.settle()
            else:
                loop.run_job()
                await loop.settle()
        loop.release()
        if p.close and not f.hit:
            await loop.settle()
            await _close(db)
            if not f.hit:
                flushed = len(registered)
        await loop.settle()
        rs = await asyncio.wait_for(
            asyncio.gather(*tasks, return_exceptions=True), 1000)
        failed = [r for r in rs if r is not None]
        if f.hit and not p.close:
            # no more changes are accepted after failure of database
            if failed:
                ctx.reach('flush failed')
                await loop.settle()
                ctx.check(not db.is_open, 'open after failed flush')
        else:
            ctx.check(not failed or f.hit, 'flush failed')
        # callbacks of flushed events: consecutive registered ones
        if not f.hit or f.crash:
            lmdbenv.same_list(ctx, log, events[:len(log)], 'flushed callback')
        await _close(db)
    ctx.reach('fault' if f.hit else 'no fault')
    lmdbmodel.hook = None
    try:
        db = await lmdbenv.create(conf(path))
    except Exception as e:
        ctx.fail(f'can not be opened afterwards: {e!r}')
    n = await content(ctx, db, events, flushed, len(registered), 'reopened')
    for i, e in enumerate(log):
        ctx.check(ctx.or_(*(ctx.eq(e, x) for x in events[:n])),
                  'event reported as flushed is lost')
    if n < len(registered):
        ctx.reach('lost')
    # registration goes on: events which were lost can be registered again
    for e in events[n:]:
        await db.register([e])
    await db.flush()
    await content(ctx, db, events, len(events), len(events), 'continued')
    await db.async_close()


def fault(ctx):
    lmdbenv.run(ctx, _fault)


async def _cleanup_fault(ctx, loop, path):
    """Fault during removal of old events: all or nothing"""
    p = ctx.params
    c = conf(path, cleanup_period=100, latest=p.latest, timeseries=[
        {'order_by': 'TIMESTAMP', 'subscriptions': [['*']],
         'limit': {'max_entries': p.max_entries}}])
    db = await lmdbenv.create(c)
    events = [lmdbenv.event(ctx, f'e{i}', servers=[1], types=p.types)
              for i in range(p.k)]
    lmdbenv.ordered(ctx, events)
    m = lmdbenv.Model(ctx)
    for e in events:
        await db.register([e])
        m.register(e)
    await db.flush()
    f = Faults(ctx, p.ops, p.crash)
    lmdbmodel.hook = f
    await asyncio.sleep(101)
    await _close(db)
    lmdbmodel.hook = None
    ctx.reach('fault' if f.hit else 'no fault')

    async def check(n, msg):
        r = await db.query(common.QueryTimeseriesParams(
            order=common.Order.ASCENDING))
        got = list(r.events)
        lmdbenv.same_list(ctx, got, events[len(events) - n:],
                          f'{msg}: timeseries')
        r = await db.query(common.QueryLatestParams())
        latest = list(r.events)
        if p.latest:
            lmdbenv.same_set(ctx, latest, m.latest, f'{msg}: latest')
        r = await db.query(common.QueryServerParams(server_id=1))
        lmdbenv.same_list(
            ctx, r.events,
            [e for e in events
             if ctx.or_(*(ctx.eq(e, i) for i in (*got, *latest)))],
            f'{msg}: server query')

    # without limit: nothing is removed on opening
    c2 = conf(path, latest=p.latest)
    db = await lmdbenv.create(c2)
    r = await db.query(common.QueryTimeseriesParams())
    n = len(list(r.events))
    ctx.check(n in (p.k, p.max_entries), 'incomplete cleanup')
    if not f.hit:
        ctx.check(n == p.max_entries, 'no cleanup')
    await check(n, 'after fault')
    await db.async_close()
    # next cleanup: exactly what should be left (count of entries is right)
    db = await lmdbenv.create(c)
    await loop.settle()
    await check(min(n, p.max_entries), 'next cleanup')
    await db.async_close()


def cleanup_fault(ctx):
    lmdbenv.run(ctx, _cleanup_fault)


async def _periodic(ctx, loop, path):
    """Changes are persisted within flush period without explicit flush"""
    log = []
    db = await lmdbenv.create(conf(path, flush_period=10), None, log.extend)
    events = [lmdbenv.event(ctx, f'e{i}', servers=[1, 2], types=['a', 'b'])
              for i in range(2)]
    lmdbenv.ordered(ctx, events)
    for e in events:
        await db.register([e])
        await asyncio.sleep(ctx.pick(f'wait{e is events[0]}', (0, 4, 11)))
    await asyncio.sleep(10.5)
    lmdbenv.same_list(ctx, log, events, 'flushed callback')
    # killed: nothing can be written any more
    f = Faults(ctx, 1, True)
    f.hit = True
    lmdbmodel.hook = f
    await _close(db)
    lmdbmodel.hook = None
    db = await lmdbenv.create(conf(path))
    await content(ctx, db, events, 2, 2, 'reopened')
    await db.async_close()


def periodic(ctx):
    lmdbenv.run(ctx, _periodic)


def jobs(tier):
    quick = tier == 'quick'
    for crash in (True, False):
        tag = 'crash' if crash else 'error'
        yield Job(f'create-{tag}', fault,
                  dict(k=1, steps=1, ops=24, crash=crash, close=False,
                       create=True, servers=[1], types=['a']),
                  require=('fault', 'create failed'),
                  bounds='fault at any operation of first creation')
        yield Job(f'open-{tag}', fault,
                  dict(k=1, steps=1, ops=16, crash=crash, close=False,
                       create=False, servers=[1], types=['a']),
                  require=('fault', 'create failed'),
                  bounds='fault at any operation of opening')
        for close in (False, True):
            yield Job(f'flush-{tag}-{"close" if close else "leave"}', fault,
                      dict(k=2, steps=5 if quick else 6, ops=44, crash=crash,
                           close=close, create=False, servers=[1],
                           types=['a', 'b']),
                      require=('fault', 'no fault'),
                      bounds='2 events; 5-6 steps of registration, flush and '
                             'executor jobs; fault at any operation')
        yield Job(f'cleanup-{tag}', cleanup_fault,
                  dict(k=3, max_entries=1, latest=[['*']], types=['a', 'b'],
                       ops=24, crash=crash),
                  require=('fault', 'no fault'),
                  bounds='3 events, 2 removed; fault at any operation')
    if not quick:
        yield Job('flush-crash-3', fault,
                  dict(k=3, steps=6, ops=60, crash=True, close=False,
                       create=False, servers=[1, 2], types=['a']),
                  require=('fault', 'no fault', 'lost'),
                  bounds='3 events of 2 servers; 6 steps; crash anywhere')
    yield Job('periodic', periodic, bounds='2 events, flush period')


assert lib
