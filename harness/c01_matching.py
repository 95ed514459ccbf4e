from hat.event import common

from pysym.job import Job
from . import lib


ASSUMPTIONS = [
    "'*' occurs in a query type only as last subtype (documented)",
    "segments range over a pool of 16 texts (wildcards, empty text, texts "
    "with wildcard characters, ordinary ones)"]


def query_match(ctx):
    n, m = ctx.params.n, ctx.params.m
    et = lib.event_type(ctx, 'e', n, wild=True)
    qt = lib.query_type(ctx, 'q', m)
    result = common.matches_query_type(et, qt)
    ctx.observe('result', result)
    expected = lib.spec_matches(ctx, et, qt)
    if result:
        ctx.reach('match')
        ctx.check(expected, 'query type matched contrary to the rules')
    else:
        ctx.reach('nomatch')
        ctx.check(ctx.not_(expected), 'query type not matched')


def subscription_match(ctx):
    et = lib.event_type(ctx, 'e', ctx.params.n, wild=True)
    qts = [lib.query_type(ctx, f'q{i}', m)
           for i, m in enumerate(ctx.params.m)]
    sub = common.create_subscription(qts)
    result = sub.matches(et)
    ctx.observe('result', result)
    expected = lib.spec_any(ctx, et, qts)
    if result:
        ctx.reach('match')
        ctx.check(expected, 'subscription matched contrary to the rules')
    else:
        ctx.reach('nomatch')
        ctx.check(ctx.not_(expected), 'subscription missed event type')


def invalid(ctx):
    """Query type with '*' before its end is refused"""
    qts = [tuple(ctx.text(f'q{i}_{j}', lib.SEGS) for j in range(m))
           for i, m in enumerate(ctx.params.m)]
    bad = ctx.or_(*(ctx.eq(s, '*') for q in qts for s in q[:-1]))
    star = ctx.or_(*(ctx.eq(q[0], '*') for q in qts if q))
    try:
        common.create_subscription(qts)
    except ValueError:
        ctx.reach('refused')
        ctx.check(bad, 'valid query types refused')
        return
    # everything is matched in any case if '*' is one of query types
    ctx.check(ctx.or_(ctx.not_(bad), star if len(qts) > 1 else False),
              'invalid query type accepted')
    ctx.reach('accepted')


def jobs(tier):
    import itertools
    N = 4 if tier == 'quick' else 6
    for n in range(N + 1):
        for m in range(N + 1):
            req = set()
            yield Job(f'query-{n}-{m}', query_match, dict(n=n, m=m),
                      require=tuple(req),
                      bounds=f'event type of {n}, query type of {m} '
                             f'segments, all segments symbolic', validate=1)
    lens = [(0,), (1,), (3,), (0, 1), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3),
            (3, 2), (1, 1, 1), (2, 1, 2), (3, 3)]
    if tier != 'quick':
        lens += [(2, 2, 2), (4, 4), (3, 2, 1), (1, 2, 3), (3, 3, 2)]
    for m in lens:
        for n in range(0, max(m) + 2):
            if tier == 'quick' and len(m) > 2 and n > 2:
                continue
            yield Job(f'sub-{n}-{"".join(map(str, m))}', subscription_match,
                      dict(n=n, m=m),
                      bounds=f'event type of {n}, query types of {m} '
                             f'segments', validate=1)
    for m in [(2,), (3,), (1, 2), (2, 2)]:
        yield Job(f'invalid-{"".join(map(str, m))}', invalid, dict(m=m),
                  require=('refused', 'accepted'),
                  bounds=f'query types of {m} segments', validate=1)
