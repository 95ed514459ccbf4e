from hat.event import common
from hat.event.common.collection.pylist import PyListEventTypeCollection

from pysym.job import Job
from . import lib


ASSUMPTIONS = [
    "'*' occurs in a query type only as last subtype (documented)",
    "segments range over a pool of 16 texts",
    "Python implementations; the C implementation is decided by C30"]

IMPL = {'default': lambda items: common.create_event_type_collection(items),
        'list': lambda items: PyListEventTypeCollection(items)}


def history(ctx):
    """add/remove history, then lookup"""
    values = ['v0', 'v1']
    model = {v: [] for v in values}
    coll = None
    items = []
    for i, m in enumerate(ctx.params.m):
        op = ctx.pick(f'op{i}', ['add0', 'add1', 'remove0', 'remove1']
                      if i else ['add0'])
        v = values[int(op[-1])]
        if op.startswith('add'):
            qts = [lib.query_type(ctx, f'q{i}_{j}', k)
                   for j, k in enumerate(m)]
            sub = common.create_subscription(qts)
            if i == 0:
                # first ones through constructor
                coll = IMPL[ctx.params.impl]([(sub, v)])
            else:
                coll.add(sub, v)
            model[v].extend(qts)
        else:
            ctx.reach('remove')
            coll.remove(v)
            model[v] = []
    et = lib.event_type(ctx, 'e', ctx.params.n)
    result = list(coll.get(et))
    ctx.observe('result', sorted(result))
    ctx.check(len(set(result)) == len(result), 'duplicate value')
    for v in values:
        expected = lib.spec_any(ctx, et, model[v])
        if v in result:
            ctx.reach('hit')
            ctx.check(expected, 'value returned for not matching event type')
        else:
            ctx.reach('miss')
            ctx.check(ctx.not_(expected), 'value missing for matching event '
                                          'type')


def iterate(ctx):
    """Values of arbitrary identity: each returned once"""
    subs = []
    items = []
    for i, m in enumerate(ctx.params.m):
        qts = [lib.query_type(ctx, f'q{i}_{j}', k) for j, k in enumerate(m)]
        v = ctx.int(f'v{i}', 0, 3)
        items.append((common.create_subscription(qts), v))
        subs.append((qts, v))
    coll = IMPL[ctx.params.impl](items)
    removed = ctx.int('removed', 0, 3)
    coll.remove(removed)
    et = lib.event_type(ctx, 'e', ctx.params.n)
    result = list(coll.get(et))
    ctx.observe('n', len(result))
    x = ctx.int('x', 0, 3)
    expected = ctx.and_(ctx.not_(ctx.eq(x, removed)),
                        ctx.or_(*(ctx.and_(ctx.eq(x, v),
                                           lib.spec_any(ctx, et, qts))
                                  for qts, v in subs)))
    n = ctx.count([ctx.eq(x, r) for r in result])
    ctx.check(ctx.eq(n, ctx.ite(expected, 1, 0)),
              'wrong multiplicity of value')


def jobs(tier):
    quick = tier == 'quick'
    cfgs = [((1,), (1,)), ((2,), (1,)), ((1, 1), (1,)), ((1, 2), (2,)),
            ((1,), (1, 1)), ((1,), (1,), (1,)), ((1,), (2,), (1,)),
            ((2, 2),)]
    if not quick:
        cfgs += [((1,), (1,), (1,), (1,)), ((1,), (1, 1), (1,)), ((2,), (2,), (2,)),
                 ((2, 2), (2,)), ((3,), (3,)), ((1,),) * 5, ((3, 3),)]
    for impl in ('default', 'list'):
        for m in cfgs:
            tag = '_'.join(''.join(map(str, i)) for i in m)
            big = max(max(i) for i in m)
            for n in range(0, big + 1):
                yield Job(f'{impl}-{n}-{tag}', history,
                          dict(impl=impl, n=n, m=m),
                          require=('remove',) if len(m) > 1 else (),
                          bounds=f'{len(m)} operations, query types {m}, '
                                 f'event type {n} segments', validate=1)
        for m in [((1,), (1,)), ((2,), (2,))]:
            for n in (1, 2):
                yield Job(f'{impl}-values-{n}-{len(m)}{m[0][0]}', iterate,
                          dict(impl=impl, n=n, m=m),
                          bounds='symbolic values', validate=1)
