import contextlib

from hat.event import common

from pysym.job import Job
from . import lib, lmdbenv


ASSUMPTIONS = [
    "LMDB is modelled as a set of ordered maps with atomic transactions "
    "(concrete runs use the real library)",
    "executor jobs run in order of submission, one at a time (single worker "
    "thread), atomically with regard to the event loop",
    "identifiers below 2^63"]


async def check_content(ctx, db, m, msg):
    r = await db.query(common.QueryTimeseriesParams(
        order=common.Order.ASCENDING))
    lmdbenv.same_list(ctx, r.events,
                      m.sorted(m.accepted, lambda e: e.timestamp),
                      f'{msg}: timeseries')
    r = await db.query(common.QueryLatestParams())
    lmdbenv.same_set(ctx, r.events, m.latest, f'{msg}: latest')
    for server, last_id, _ in m.last:
        i = await db.get_last_event_id(server)
        ctx.check(ctx.eq(i, last_id), f'{msg}: last event id')
        r = await db.query(common.QueryServerParams(server_id=server))
        lmdbenv.same_list(ctx, r.events, m.of_server(server),
                          f'{msg}: server query')


async def _register(ctx, loop, path):
    p = ctx.params
    c = lmdbenv.conf(path)
    db = await lmdbenv.create(c)
    m = lmdbenv.Model(ctx)
    events = [lmdbenv.event(ctx, f'e{i}', servers=p.servers, types=p.types)
              for i in range(p.k)]
    accepted = []
    if p.batch:
        r = await db.register(events)
        lmdbenv.same_list(ctx, r, events, 'result of register')
        accepted = [m.register(e) for e in events]
    else:
        for i, e in enumerate(events):
            await db.register([e])
            accepted.append(m.register(e))
            if p.steps[i:i + 1] == 'f':
                await db.flush()
            elif p.steps[i:i + 1] == 'r':
                await db.async_close()
                db = await lmdbenv.create(c)
    ctx.observe('accepted', accepted)
    ctx.reach('accepted' if all(accepted) else 'rejected')
    if 'q' in p.steps:
        await check_content(ctx, db, m, 'at once')
    await db.async_close()
    db = await lmdbenv.create(c)
    await check_content(ctx, db, m, 'reopened')
    await db.async_close()


def register(ctx):
    lmdbenv.run(ctx, _register)


async def _unknown(ctx, loop, path):
    """Last event id of server without events"""
    db = await lmdbenv.create(lmdbenv.conf(path))
    s = ctx.int('s', 0, lib.I64)
    e = lmdbenv.event(ctx, 'e')
    ctx.assume(ctx.not_(ctx.eq(e.id.server, s)))
    await db.register([e])
    for _ in range(2):
        i = await db.get_last_event_id(s)
        ctx.check(ctx.eq(i, common.EventId(s, 0, 0)), 'unknown server')
        await db.async_close()
        db = await lmdbenv.create(lmdbenv.conf(path))
    await db.async_close()


def unknown(ctx):
    lmdbenv.run(ctx, _unknown)


async def _identifier(ctx, loop, path):
    """Database is opened only with its identifier"""
    pool = ['', 'x', 'y', 'X', 'null']
    ids = [None if ctx.flag(f'none{i}') else ctx.text(f'id{i}', pool)
           for i in range(ctx.params.k)]
    e = lmdbenv.event(ctx, 'e')
    ctx.assume(e.id.session > 0)
    current = None
    for n, i in enumerate(ids):
        ok = (i is None or current is None or
              bool(ctx.eq(i, current)))
        try:
            db = await lmdbenv.create(lmdbenv.conf(path, identifier=i))
        except Exception:
            ctx.reach('refused')
            ctx.check(not ok, 'database with right identifier refused')
            continue
        ctx.check(ok, 'database with wrong identifier opened')
        if i is not None:
            current = i
        if n == 0:
            await db.register([e])
        else:
            r = await db.query(common.QueryTimeseriesParams())
            lmdbenv.same_list(ctx, r.events, [e], 'content')
        await db.async_close()


def identifier(ctx):
    lmdbenv.run(ctx, _identifier)


async def _closed(ctx, loop, path):
    db = await lmdbenv.create(lmdbenv.conf(path))
    e = lmdbenv.event(ctx, 'e')
    ctx.assume(e.id.session > 0)
    await db.register([e])
    await db.async_close()
    for f in (lambda: db.register([e]),
              lambda: db.get_last_event_id(e.id.server),
              lambda: db.query(common.QueryLatestParams()),
              lambda: db.flush()):
        try:
            await f()
            ctx.fail('operation on closed backend succeeded')
        except common.BackendClosedError:
            pass


def closed(ctx):
    lmdbenv.run(ctx, _closed)


async def _cbs(ctx, loop, path):
    """Callbacks get registered collections, in order, each once; flushed
    ones only after they are persisted"""
    log = []
    c = lmdbenv.conf(path)
    db = await lmdbenv.create(c, lambda es: log.append(('reg', list(es))),
                              lambda es: log.append(('flush', list(es))))
    es = [lmdbenv.event(ctx, f'e{i}', servers=[1]) for i in range(3)]
    lmdbenv.ordered(ctx, es)
    groups = [[es[0]], [es[1], es[2]]]
    expected = []
    pending = []
    for i, g in enumerate(groups):
        await db.register(g)
        expected.append(('reg', g))
        pending.append(g)
        if ctx.flag(f'flush{i}'):
            await db.flush()
            await loop.settle()
            expected.extend(('flush', x) for x in pending)
            pending = []
    await db.async_close()
    expected.extend(('flush', x) for x in pending)
    ctx.check(len(log) == len(expected), 'number of callbacks')
    for a, b in zip(log, expected):
        ctx.check(a[0] == b[0], 'order of callbacks')
        lmdbenv.same_list(ctx, a[1], b[1], 'callback')


def callbacks(ctx):
    lmdbenv.run(ctx, _cbs)


def jobs(tier):
    quick = tier == 'quick'
    for servers in ((1,), None):
        tag = 'one' if servers else 'any'
        for batch in (True, False):
            for k, steps in ((2, 'fq'), (2, 'rq'), (2, '-q'), (3, '-fq')):
                if batch and steps[0] != '-':
                    continue
                if servers is None and k > 2 and quick:
                    continue
                yield Job(f'register-{tag}-{"batch" if batch else "single"}-'
                          f'{k}{steps}', register,
                          dict(k=k, servers=servers, batch=batch, steps=steps,
                               types=('a', 'b') if k < 3 else ('a',)),
                          require=('accepted', 'rejected'),
                          bounds=f'{k} events of {tag} server; steps {steps}')
    yield Job('unknown', unknown, bounds='any server')
    yield Job('identifier', identifier, dict(k=2 if quick else 3),
              require=('refused',), bounds='2-3 openings')
    yield Job('closed', closed, bounds='any event')
    yield Job('callbacks', callbacks, bounds='2 registrations, any flushes')


assert contextlib
