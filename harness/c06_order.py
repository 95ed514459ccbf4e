from hat.event import common

from pysym.job import Job
from . import lib


ASSUMPTIONS = [
    "event ids are non-negative 64-bit, timestamps byte serializable",
    "sorting: events of the same server have ids and timestamps in the same "
    "order (registration guarantees it); events of different servers have "
    "different timestamps (tie is documented to depend on operand order)"]


def ev(ctx, name, ts=None):
    return common.Event(id=lib.event_id(ctx, name), type=(name,),
                        timestamp=ts or lib.timestamp(ctx, f'{name}_t'),
                        source_timestamp=None, payload=None)


def pair(ctx):
    """First operand is assumed to be registered before the second"""
    a, b = ev(ctx, 'a'), ev(ctx, 'b')
    lt = True if a < b else False
    gt = True if a > b else False
    ctx.observe('lt', lt)
    ctx.observe('gt', gt)
    same = ctx.eq(a.id, b.id)
    server = ctx.eq(a.id.server, b.id.server)
    tie = ctx.eq(a.timestamp, b.timestamp)
    expected_lt = ctx.and_(ctx.not_(same), ctx.or_(
        ctx.and_(server, lib.lt_id(ctx, a.id, b.id)),
        ctx.and_(ctx.not_(server), ctx.or_(
            lib.lt_ts(ctx, a.timestamp, b.timestamp), tie))))
    expected_gt = ctx.and_(ctx.not_(same), ctx.or_(
        ctx.and_(server, lib.lt_id(ctx, b.id, a.id)),
        ctx.and_(ctx.not_(server),
                 lib.lt_ts(ctx, b.timestamp, a.timestamp))))
    ctx.reach(f'{lt}{gt}')
    ctx.check(ctx.iff(lt, expected_lt), 'wrong <')
    ctx.check(ctx.iff(gt, expected_gt), 'wrong >')
    ctx.check(not (lt and gt), 'both < and >')
    ctx.check(ctx.implies(ctx.not_(same), lt or gt), 'neither < nor >')


def other(ctx):
    a = ev(ctx, 'a')
    for x in (1, None, 'a'):
        try:
            a < x
            ctx.check(False, 'comparable to other type')
        except TypeError:
            pass


def ordering(ctx):
    """Sorting gives an order consistent with registration"""
    k = ctx.params.k
    es = [ev(ctx, f'e{i}') for i in range(k)]
    for i in range(k):
        for j in range(k):
            if i == j:
                continue
            a, b = es[i], es[j]
            ctx.assume(ctx.not_(ctx.eq(a.id, b.id)))
            ctx.assume(ctx.implies(
                ctx.and_(ctx.eq(a.id.server, b.id.server),
                         lib.lt_id(ctx, a.id, b.id)),
                ctx.not_(lib.lt_ts(ctx, b.timestamp, a.timestamp))))
            ctx.assume(ctx.or_(ctx.eq(a.id.server, b.id.server),
                               ctx.not_(ctx.eq(a.timestamp, b.timestamp))))
    r = sorted(es)
    for i in range(k):
        for j in range(i):
            ctx.check(ctx.not_(lib.lt_ts(ctx, r[i].timestamp,
                                         r[j].timestamp)),
                      'timestamps not ordered')
            ctx.check(ctx.implies(
                ctx.eq(r[i].id.server, r[j].id.server),
                lib.lt_id(ctx, r[j].id, r[i].id)), 'ids not ordered')


def jobs(tier):
    yield Job('pair', pair, require=('TrueFalse', 'FalseTrue', 'FalseFalse'),
              bounds='any two events')
    yield Job('other', other, bounds='comparison with other types')
    for k in ((2, 3) if tier == 'quick' else (2, 3, 4)):
        yield Job(f'sort-{k}', ordering, dict(k=k), bounds=f'{k} events')
