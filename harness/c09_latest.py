from hat.event import common

from pysym.job import Job
from . import lib, lmdbenv
from .c08_registration import ASSUMPTIONS  # noqa


POOL = ['?', '*', 'a', 'b']


def _type(ctx, name, n, types):
    return tuple(ctx.text(f'{name}_{i}', types) for i in range(n))


async def _query(ctx, loop, path):
    """Latest events of arbitrary events filtered by arbitrary query types"""
    p = ctx.params
    sub = [[['*']]] if p.sub is None else \
        [[list(lib.query_type(ctx, 'sub', p.sub, POOL))]]
    c = lmdbenv.conf(path, latest=sub[0])
    db = await lmdbenv.create(c)
    m = lmdbenv.Model(ctx)
    events = [lmdbenv.event(ctx, f'e{i}', servers=p.servers,
                            type_=_type(ctx, f'e{i}', n, p.types))
              for i, n in enumerate(p.lens)]
    if p.ordered:
        lmdbenv.ordered(ctx, events)
    steps = p.steps
    for e, step in zip(events, steps):
        await db.register([e])
        if m.acceptable(e):
            # events are accepted, and are candidates for latest if
            # subscribed
            m.register(e)
        if step == 'f':
            await db.flush()
        elif step == 'r':
            await db.async_close()
            db = await lmdbenv.create(c)
    expected = [e for e in m.latest
                if lib.spec_any(ctx, e.type, [tuple(i) for i in sub[0]])]
    ctx.reach(f'latest{len(expected)}')
    r = await db.query(common.QueryLatestParams())
    lmdbenv.same_set(ctx, r.events, expected, 'all')
    ctx.check(not r.more_follows, 'more follows')
    if p.query is not None:
        qts = [lib.query_type(ctx, f'q{i}', n, POOL) for i, n in enumerate(p.query)]
        r = await db.query(common.QueryLatestParams(event_types=qts))
        exp = [e for e in expected if lib.spec_any(ctx, e.type, qts)]
        lmdbenv.same_set(ctx, r.events, exp, 'queried')
        ctx.check(not r.more_follows, 'more follows')
        ctx.reach(f'queried{len(exp)}')
    await db.async_close()


def query(ctx):
    lmdbenv.run(ctx, _query)


COND = {'subscriptions': [['*']],
        'condition': {'type': 'json', 'data_type': 'number'}}


async def _conf_change(ctx, loop, path):
    """Configuration of subscription and conditions changed on reopening"""
    p = ctx.params
    stored = []      # one of each type
    visible = []
    ts = 0
    events = []
    for i in range(p.opens):
        sub = ctx.pick(f'sub{i}', [[['*']], [['a']], [['b']]])
        cond = p.conds and ctx.flag(f'cond{i}')

        def shown(e):
            return ctx.and_(
                lib.spec_any(ctx, e.type, [tuple(j) for j in sub]),
                not cond if isinstance(e.payload.data, str) else True)

        db = await lmdbenv.create(lmdbenv.conf(
            path, latest=sub, conditions=[COND] if cond else [],
            timeseries=[] if p.latest_only else None))
        visible = [e for e in stored if shown(e)]
        r = await db.query(common.QueryLatestParams())
        lmdbenv.same_set(ctx, r.events, visible, f'latest after open {i}')
        n = p.events[i]
        for j in range(n):
            e = lmdbenv.event(
                ctx, f'e{i}{j}', servers=[1], types=['a', 'b'],
                payload=common.EventPayloadJson(
                    'x' if p.conds and ctx.flag(f'pay{i}{j}') else 1))
            events.append(e)
            lmdbenv.ordered(ctx, events)
            await db.register([e])
            if ctx.and_(shown(e)):
                for k, s in enumerate(stored):
                    if ctx.eq(s.type, e.type):
                        stored[k] = e
                        break
                else:
                    stored.append(e)
                visible = [x for x in stored if shown(x)]
        r = await db.query(common.QueryLatestParams())
        lmdbenv.same_set(ctx, r.events, visible, f'latest after events {i}')
        await db.async_close()
    ctx.reach('stored' if stored else 'empty')
    if len(visible) < len(stored):
        ctx.reach('hidden')


def conf_change(ctx):
    lmdbenv.run(ctx, _conf_change)


def jobs(tier):
    quick = tier == 'quick'
    two = ['a', 'b']
    for lens, q in (((1, 1), (1,)), ((1, 2), (2,)), ((2, 2), (1, 2)),
                    ((0, 1), (1, 1)), ((1, 1), (0,)), ((1, 1), ())):
        for steps in ('--', 'fr'):
            yield Job(f'query-{lens}-{q}-{steps}', query,
                      dict(lens=lens, query=q, steps=steps, servers=[1],
                           types=two, ordered=True, sub=None),
                      bounds=f'2 events with types of {lens} subtypes, query '
                             f'types of {q} subtypes')
    for sub in (1, 2):
        for lens in ((1, 1), (1, 2), (2, 2)):
            yield Job(f'sub-{sub}-{lens}', query,
                      dict(lens=lens, query=None, steps='-r', servers=[1],
                           types=two, ordered=True, sub=sub),
                      bounds=f'2 events with types of {lens} subtypes, '
                             f'configured query type of {sub} subtypes')
    for servers in ([1, 2], None):
        for steps in ('---', '-fr', 'rrr'):
            yield Job(f'greatest-{"two" if servers else "any"}-{steps}', query,
                      dict(lens=(1, 1, 1) if servers or not quick else (1, 1),
                           query=None, steps=steps,
                           servers=servers,
                           types=['a'] if quick or servers is None
                           else ['a', 'b'],
                           ordered=False, sub=None),
                      require=('latest1',),
                      bounds='3 events (2 of arbitrary servers) in any order')
    for latest_only in (True, False):
        yield Job(f'conf-{latest_only}', conf_change,
                  dict(opens=2 if quick else 3,
                       events=(1, 1) if quick else (1, 1, 1),
                       latest_only=latest_only, conds=True), require=('hidden',),
                  bounds='2 (thorough 3) openings with changing '
                         'configuration, an event in each')
    yield Job('conf-three', conf_change,
              dict(opens=3, events=(1, 1, 1) if not quick else (1, 1, 0),
                   latest_only=True, conds=False),
              require=('hidden',),
              bounds='3 openings with changing subscriptions')
    yield Job('conf-two', conf_change,
              dict(opens=2, events=(2, 1), latest_only=False, conds=True),
              require=('hidden',),
              bounds='2 openings with changing configuration')
