from pysym.job import Job
from . import cext, lib
from .c02_setalgebra import _overlap


ASSUMPTIONS = [
    "sources of the extension are translated to LLVM IR (clang -O0) against "
    "declarations of the used part of CPython API; the API and the hash "
    "table of hat-util (not installed here) are modelled: pysym/capi.py",
    "counterexamples and sampled paths are run on the extension compiled "
    "with gcc against CPython, with a stand-in hash table; the native code "
    "of hat-util isn't covered",
    "order of iteration over hash table: order of insertion or the reverse",
    "segments range over a pool of 12 texts (with zero character, of more "
    "than one byte, prefixes of each other)"]

NAME = '_csubscription'


def _types(ctx, name, lens):
    return [cext.query_type(ctx, f'{name}{i}', m) for i, m in enumerate(lens)]


def matches(ctx):
    def body(ctx, w, mod):
        et = cext.event_type(ctx, 'e', ctx.params.n)
        qts = _types(ctx, 'q', ctx.params.m)
        result = w.CSubscription(qts).matches(et)
        ctx.observe('result', result)
        expected = lib.spec_any(ctx, et, qts)
        if result:
            ctx.reach('match')
            ctx.check(expected, 'event type matched contrary to the rules')
        else:
            ctx.reach('nomatch')
            ctx.check(ctx.not_(expected), 'event type not matched')
    cext.run(ctx, NAME, body)


def query_types(ctx):
    """Same set of event types is described, after any operation"""
    def body(ctx, w, mod):
        et = cext.event_type(ctx, 'e', ctx.params.n)
        qts = _types(ctx, 'q', ctx.params.m)
        sub = w.CSubscription(qts)
        expected = lib.spec_any(ctx, et, qts)
        op = ctx.params.op
        if op != 'init':
            qts2 = _types(ctx, 'r', ctx.params.m2)
            sub = getattr(sub, op)(w.CSubscription(qts2))
            other = lib.spec_any(ctx, et, qts2)
            expected = (ctx.or_ if op == 'union' else ctx.and_)(expected,
                                                                other)
        out = [tuple(i) for i in sub.get_query_types()]
        for q in out:
            for s in q[:-1]:
                ctx.check(s != '*', 'invalid query type')
        ctx.reach('types')
        ctx.observe('n', len(out))
        ctx.check(ctx.iff(lib.spec_any(ctx, et, out), expected),
                  'query types describe other set')
        if op != 'init':
            return
        # sanitized: nothing is repeated
        ctx.check(ctx.and_(*(ctx.not_(ctx.eq(a, b))
                             for i, a in enumerate(out) for b in out[:i])),
                  'repeated query type')
    cext.run(ctx, NAME, body)


def isdisjoint(ctx):
    def body(ctx, w, mod):
        a = _types(ctx, 'q', ctx.params.m)
        b = _types(ctx, 'r', ctx.params.m2)
        sa, sb = w.CSubscription(a), w.CSubscription(b)
        expected = ctx.not_(ctx.or_(*(_overlap(ctx, x, y)
                                      for x in a for y in b)))
        r = sa.isdisjoint(sb)
        ctx.observe('isdisjoint', r)
        if r:
            ctx.reach('disjoint')
            ctx.check(expected,
                      'isdisjoint true for overlapping subscriptions')
        else:
            ctx.reach('overlap')
            ctx.check(ctx.not_(expected),
                      'isdisjoint false for disjoint subscriptions')
    cext.run(ctx, NAME, body)


def itself(ctx):
    """The same object as both operands"""
    def body(ctx, w, mod):
        a = _types(ctx, 'q', ctx.params.m)
        et = cext.event_type(ctx, 'e', 1)
        sub = w.CSubscription(a)
        r = sub.isdisjoint(sub)
        ctx.observe('isdisjoint', r)
        ctx.reach('itself')
        ctx.check(r == (not a), 'wrong isdisjoint of subscription and itself')
        expected = lib.spec_any(ctx, et, a)
        for op in ('union', 'intersection'):
            other = getattr(sub, op)(sub)
            ctx.check(ctx.iff(other.matches(et), expected),
                      f'{op} of subscription and itself')
    cext.run(ctx, NAME, body)


def invalid(ctx):
    """Anything for query types and event types: refused or not, nothing is
    damaged"""
    def body(ctx, w, mod):
        kinds = ('text', 'number', 'event type')
        bad = False
        qts = []
        for i, m in enumerate(ctx.params.m):
            if ctx.flag(f'q{i}_other'):
                qts.append(3)
                bad = True
                continue
            q = []
            for j in range(m):
                k = ctx.pick(f'q{i}_{j}_kind', kinds)
                bad |= k != 'text'
                q.append(cext.segment(ctx, f'q{i}_{j}') if k == 'text' else
                         7 if k == 'number' else ())
            for s in q[:-1]:
                if s == '*':
                    bad = True
            qts.append(tuple(q))
        sub = None
        error = None
        try:
            sub = w.CSubscription(qts)
        except (ValueError, TypeError, RuntimeError) as e:
            error = type(e).__name__
            ctx.reach('refused')
        ctx.observe('error', error)
        ctx.check(bad or error is None, 'valid query types refused')
        if sub is None:
            return
        for et in ((), (cext.segment(ctx, 'e'),), (5,), 6):
            try:
                sub.matches(et)
            except (ValueError, TypeError):
                ctx.reach('other event type')
        # object of the extension behind the wrapper
        for inner in [i for i in vars(sub).values()
                      if hasattr(i, 'isdisjoint')]:
            try:
                inner.isdisjoint(3)
                ctx.fail('other object accepted')
            except (ValueError, TypeError):
                pass
        sub.get_query_types()
    cext.run(ctx, NAME, body)


def failing(ctx):
    """Memory can't be allocated at any point"""
    def body(ctx, w, mod):
        qts = _types(ctx, 'q', ctx.params.m)
        et = cext.event_type(ctx, 'e', 1)
        try:
            sub = w.CSubscription(qts)
        except (MemoryError, RuntimeError) as e:
            ctx.reach('failed')
            ctx.check(mod.failed, 'failure without cause')
            ctx.observe('error', type(e).__name__)
            return
        ctx.check(not mod.failed, 'failure is not reported')
        expected = lib.spec_any(ctx, et, qts)
        ctx.check(ctx.iff(sub.matches(et), expected), 'wrong match')
    cext.run(ctx, NAME, body, ctx.pick('fail_at', [1, 2, 3, 4, 5, 6]))


def jobs(tier):
    for job in _jobs(tier):
        job.validate = 1
        yield job


def _jobs(tier):
    quick = tier == 'quick'
    lens = [(), (0,), (1,), (2,), (0, 1), (1, 1), (1, 2), (2, 1), (2, 2),
            (0, 1, 1), (1, 1, 1)]
    if not quick:
        lens += [(3,), (2, 3), (3, 3), (1, 2, 2), (2, 2, 2)]
    for m in lens:
        tag = '_'.join(map(str, m))
        for n in range(0, max(m, default=0) + 2):
            yield Job(f'matches-{n}-{tag}', matches, dict(n=n, m=m),
                      bounds=f'event type of {n}, query types of {m} '
                             f'segments')
        for n in range(0, max(m, default=0) + 2):
            yield Job(f'types-{n}-{tag}', query_types,
                      dict(n=n, m=m, op='init'), require=('types',),
                      bounds=f'event type of {n}, query types of {m} '
                             f'segments')
    for op in ('union', 'intersection'):
        for a, b in [((1,), (1,)), ((2,), (1,))] + (
                [] if quick else [((2,), (2,)), ((1, 1), (1,))]):
            for n in range(0, 3):
                yield Job(f'{op}-{n}-{len(a)}{a[0]}-{len(b)}{b[0]}',
                          query_types, dict(n=n, m=a, m2=b, op=op),
                          require=('types',),
                          bounds=f'query types of {a} and {b} segments, '
                                 f'event type of {n}')
    pairs = [((), (1,)), ((0,), (1,)), ((1,), (1,)), ((2,), (1,)),
             ((1,), (2,)), ((2,), (2,)), ((1, 1), (1,)), ((2,), (1, 2)),
             ((1, 2), (2,)), ((1, 1), (1, 1)), ((0, 1, 1), (1,))]
    if not quick:
        pairs += [((3,), (2,)), ((2,), (3,)), ((3,), (3,)),
                  ((2, 2), (2,)), ((2,), (2, 2))]
    for a, b in pairs:
        tag = '_'.join(map(str, a)) + '-' + '_'.join(map(str, b))
        yield Job(f'disjoint-{tag}', isdisjoint, dict(m=a, m2=b),
                  bounds=f'query types of {a} and {b} segments')
    for m in [(), (0,), (1,), (2,), (1, 1)]:
        yield Job(f'itself-{"_".join(map(str, m))}', itself, dict(m=m),
                  require=('itself',),
                  bounds=f'query types of {m} segments')
    for m in [(1,), (2,), (1, 1)] + ([] if quick else [(2, 1), (1, 2)]):
        yield Job(f'invalid-{"_".join(map(str, m))}', invalid, dict(m=m),
                  require=('refused', 'other event type'),
                  bounds=f'query types of {m} segments, of any kind')
    for m in [(1,), (2,), (1, 1)] + ([] if quick else [(2, 1), (2, 2)]):
        yield Job(f'failing-{"_".join(map(str, m))}', failing, dict(m=m),
                  require=('failed',),
                  bounds=f'query types of {m} segments; one allocation '
                         f'(of the first 6) fails')
