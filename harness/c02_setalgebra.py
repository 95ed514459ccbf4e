from hat.event import common

from pysym.job import Job
from . import lib


ASSUMPTIONS = [
    "'*' occurs in a query type only as last subtype (documented)",
    "segments range over a pool of 16 texts"]


class Foreign(common.Subscription):
    """Other implementation of the Subscription interface"""

    def __init__(self, query_types):
        self._query_types = list(query_types)

    def get_query_types(self):
        return self._query_types

    def matches(self, event_type):
        raise NotImplementedError()

    union = intersection = isdisjoint = matches


def _subs(ctx):
    sets = [[lib.query_type(ctx, f'q{i}_{j}', m) for j, m in enumerate(ms)]
            for i, ms in enumerate(ctx.params.m)]
    subs = [common.create_subscription(sets[0])]
    for qts in sets[1:]:
        subs.append(Foreign(qts) if ctx.params.get('foreign')
                    else common.create_subscription(qts))
    return sets, subs


def _overlap(ctx, a, b):
    """Does an event type matching both query types exist"""
    def compat(n):
        return ctx.and_(*(ctx.or_(a[i] == '?', b[i] == '?', a[i] == b[i])
                          for i in range(n)))
    n, m = len(a), len(b)
    sa = ctx.eq(a[-1], '*') if n else False
    sb = ctx.eq(b[-1], '*') if m else False
    cases = []
    if n == m:
        cases.append(ctx.and_(ctx.not_(sa), ctx.not_(sb), compat(n)))
    if n and m >= n - 1:
        cases.append(ctx.and_(sa, ctx.not_(sb), compat(n - 1)))
    if m and n >= m - 1:
        cases.append(ctx.and_(sb, ctx.not_(sa), compat(m - 1)))
    if n and m:
        cases.append(ctx.and_(sa, sb, compat(min(n, m) - 1)))
    return ctx.or_(*cases)


def _judge(ctx, result, expected, what):
    if result:
        ctx.reach('match')
        ctx.check(expected, f'{what}: event type wrongly included')
    else:
        ctx.reach('nomatch')
        ctx.check(ctx.not_(expected), f'{what}: event type missing')


def union(ctx):
    sets, subs = _subs(ctx)
    et = lib.event_type(ctx, 'e', ctx.params.n)
    r = subs[0].union(*subs[1:])
    _judge(ctx, r.matches(et),
           ctx.or_(*(lib.spec_any(ctx, et, s) for s in sets)), 'union')


def intersection(ctx):
    sets, subs = _subs(ctx)
    et = lib.event_type(ctx, 'e', ctx.params.n)
    r = subs[0].intersection(*subs[1:])
    _judge(ctx, r.matches(et),
           ctx.and_(*(lib.spec_any(ctx, et, s) for s in sets)),
           'intersection')


def query_types(ctx):
    """get_query_types describes the same set, after any operation"""
    sets, subs = _subs(ctx)
    et = lib.event_type(ctx, 'e', ctx.params.n)
    if ctx.params.op == 'init':
        r = subs[0]
        expected = lib.spec_any(ctx, et, sets[0])
    elif ctx.params.op == 'union':
        r = subs[0].union(*subs[1:])
        expected = ctx.or_(*(lib.spec_any(ctx, et, s) for s in sets))
    else:
        r = subs[0].intersection(*subs[1:])
        expected = ctx.and_(*(lib.spec_any(ctx, et, s) for s in sets))
    qts = [tuple(i) for i in r.get_query_types()]
    for q in qts:
        for s in q[:-1]:
            ctx.check(s != '*', 'invalid query type')
    ctx.reach('types')
    ctx.check(ctx.iff(lib.spec_any(ctx, et, qts), expected),
              'query types describe other set')


def isdisjoint(ctx):
    sets, subs = _subs(ctx)
    expected = ctx.not_(ctx.or_(*(_overlap(ctx, a, b)
                                  for a in sets[0] for b in sets[1])))
    r = subs[0].isdisjoint(subs[1])
    ctx.observe('isdisjoint', r)
    if r:
        ctx.reach('disjoint')
        ctx.check(expected, 'isdisjoint true for overlapping subscriptions')
    else:
        ctx.reach('overlap')
        ctx.check(ctx.not_(expected),
                  'isdisjoint false for disjoint subscriptions')


def operands(ctx):
    """Operations don't change operands, which can be the same object"""
    sets, subs = _subs(ctx)
    et = lib.event_type(ctx, 'e', ctx.params.n)
    a, b = subs
    first, second = (lib.spec_any(ctx, et, s) for s in sets)
    r = getattr(a, ctx.params.op)(b)
    both = (ctx.or_ if ctx.params.op == 'union' else ctx.and_)(first, second)
    again = getattr(r, ctx.params.op)(a)
    same = [getattr(i, ctx.params.op)(i) for i in subs]
    ctx.check(a.isdisjoint(a) == (not sets[0]),
              'isdisjoint of subscription and itself')
    ctx.reach('operands')
    for sub, expected, what in [(a, first, 'first operand changed'),
                                (b, second, 'second operand changed'),
                                (r, both, 'result changed'),
                                (again, both, 'wrong repeated operation'),
                                (same[0], first, 'operation with itself'),
                                (same[1], second, 'operation with itself')]:
        ctx.check(ctx.iff(sub.matches(et), expected), what)


def disjoint_derived(ctx):
    """Subscriptions obtained by set operations behave like others"""
    sets, subs = _subs(ctx)
    et = lib.event_type(ctx, 'e', ctx.params.n)
    r = subs[0].intersection(subs[1])
    rest = subs[2]
    if r.isdisjoint(rest):
        ctx.reach('disjoint')
        ctx.check(ctx.not_(ctx.and_(
            *(lib.spec_any(ctx, et, s) for s in sets))),
            'isdisjoint true for overlapping subscriptions')
    else:
        ctx.reach('overlap')
        # an event type common to all exists
        exists = ctx.or_(*(_triple(ctx, a, b, c) for a in sets[0]
                           for b in sets[1] for c in sets[2]))
        ctx.check(exists, 'isdisjoint false for disjoint subscriptions')


def _triple(ctx, a, b, c):
    """Event type matching all three query types exists"""
    qs = (a, b, c)
    cases = []
    for n in range(0, max(len(q) for q in qs) + 1):
        conds = []
        for q in qs:
            m = len(q)
            star = ctx.eq(q[-1], '*') if m else False
            conds.append(ctx.or_(
                ctx.and_(star, n >= m - 1),
                ctx.and_(ctx.not_(star), n == m)))
        for i in range(n):
            # segment i of all (non exhausted, non star) agree
            for x in range(3):
                for y in range(x):
                    p, q = qs[x], qs[y]
                    conds.append(ctx.or_(_free(ctx, p, i), _free(ctx, q, i),
                                         (p[i] == q[i]) if i < len(p) and
                                         i < len(q) else True))
        cases.append(ctx.and_(*conds))
    return ctx.or_(*cases)


def _free(ctx, q, i):
    if i >= len(q):
        return True
    return ctx.or_(q[i] == '?', q[i] == '*')


def jobs(tier):
    quick = tier == 'quick'
    two = [((0,), (1,)), ((1,), (1,)), ((2,), (1,)), ((1,), (2,)),
           ((2,), (2,)), ((3,), (2,)), ((2,), (3,)), ((3,), (3,)),
           ((1, 1), (1,)), ((1,), (1, 1)), ((2, 1), (2,)), ((2,), (2, 1)),
           ((1, 2), (2,)), ((0, 2), (2,)), ((2, 2), (2,)),
           ((), (1,)), ((1,), ()), ((2,), ()), ((), ())]
    if not quick:
        two += [((2, 2), (1, 2)), ((2, 2), (2, 2)), ((3, 2), (3,)),
                ((1, 1), (1, 1)), ((3,), (2, 3)), ((4,), (4,))]
    for ms in two:
        tag = '_'.join(''.join(map(str, m)) for m in ms)
        big = max(j for m in ms for j in (*m, 0))
        for n in range(0, big + 1):
            for f in (union, intersection):
                yield Job(f'{f.__name__}-{n}-{tag}', f, dict(n=n, m=ms),
                          bounds=f'event type {n} segments, query types '
                                 f'{ms} segments', validate=1)
        yield Job(f'isdisjoint-{tag}', isdisjoint, dict(m=ms),
                  bounds=f'query types {ms} segments', validate=1)
        if sum(map(len, ms)) <= 3:
            for n in (max(0, big - 1), big):
                for op in ('union', 'intersection'):
                    yield Job(f'types-{op}-{n}-{tag}', query_types,
                              dict(n=n, m=ms, op=op), require=('types',),
                              bounds=f'event type {n}, query types {ms}',
                              validate=1)
    for ms in [((1,),), ((2, 1),), ((2, 2),), ((2, 3),), ((1, 2, 1),)]:
        tag = ''.join(map(str, ms[0]))
        for n in range(0, max(ms[0]) + 1):
            yield Job(f'types-init-{n}-{tag}', query_types,
                      dict(n=n, m=ms, op='init'), require=('types',),
                      bounds=f'event type {n}, query types {ms}', validate=1)
    for ms in [((1,), (1,)), ((1,), ()), ((), (1,)), ((0,), (1,)),
               ((1,), (0,)), ((2,), (1,)), ((1, 1), (1,))]:
        tag = '_'.join(''.join(map(str, m)) for m in ms)
        for op in ('union', 'intersection'):
            for n in (0, 1, 2)[:2 + ((2,) in ms)]:
                yield Job(f'operands-{op}-{n}-{tag}', operands,
                          dict(n=n, m=ms, op=op), require=('operands',),
                          bounds=f'event type {n}, query types {ms}',
                          validate=1)
    for f in (union, intersection):
        for n in (0, 1, 2):
            yield Job(f'foreign-{f.__name__}-{n}', f,
                      dict(n=n, m=((2,), (1, 2)) if n else ((1,), (0, 1)),
                           foreign=True),
                      bounds='other implementation of the interface',
                      validate=1)
            yield Job(f'three-{f.__name__}-{n}', f,
                      dict(n=n, m=((1,), (2,), (1,)) if n < 2 else
                           ((2,), (2,), (2,))),
                      bounds='three operands', validate=1)
    for ms in [((1,), (1,), (1,)), ((2,), (2,), (1,)), ((2,), (2,), (2,))]:
        tag = '_'.join(str(m[0]) for m in ms)
        for n in range(0, 3):
            yield Job(f'derived-{n}-{tag}', disjoint_derived,
                      dict(n=n, m=ms), bounds=f'query types {ms}',
                      validate=1)
