from pysym.job import Job
from . import cext, lib
from .c02_setalgebra import Foreign
from .c29_csubscription import ASSUMPTIONS   # noqa


NAME = '_ctree'


def history(ctx):
    """add/remove/get history through Python wrapper"""
    def body(ctx, w, mod):
        values = [cext.value(ctx, 'v0'), cext.value(ctx, 'v1')]
        model = {v: [] for v in values}
        coll = None
        for i, m in enumerate(ctx.params.m):
            op = ctx.pick(f'op{i}', ['add0', 'add1', 'remove0', 'remove1']
                          if i else ['add0'])
            v = values[int(op[-1])]
            if op.startswith('add'):
                qts = [cext.query_type(ctx, f'q{i}_{j}', k)
                       for j, k in enumerate(m)]
                if coll is None:
                    coll = w.CTreeEventTypeCollection([(Foreign(qts), v)])
                else:
                    coll.add(Foreign(qts), v)
                model[v] = model[v] + qts
            else:
                ctx.reach('remove')
                coll.remove(v)
                model[v] = []
        for n in ctx.params.n:
            et = cext.event_type(ctx, f'e{n}', n)
            result = list(coll.get(et))
            ctx.observe(f'result{n}', sorted(result))
            ctx.check(len(set(result)) == len(result), 'duplicate value')
            for v in values:
                expected = lib.spec_any(ctx, et, model[v])
                if v in result:
                    ctx.reach('hit')
                    ctx.check(expected, 'value returned for not matching '
                                        'event type')
                else:
                    ctx.reach('miss')
                    ctx.check(ctx.not_(expected),
                              'value missing for matching event type')
    cext.run(ctx, NAME, body)


def native(ctx):
    """References of the extension itself: removed in any order, kept or
    dropped, before or after the collection"""
    def body(ctx, w, mod):
        coll = mod.Collection()
        refs = {}
        entries = []
        for i, m in enumerate(ctx.params.m):
            qt = cext.query_type(ctx, f'q{i}', m)
            v = cext.value(ctx, f'v{i}')
            refs[v] = coll.add(qt, v)
            entries.append((v, qt))
        kept = ctx.pick('kept', ['none', 'refs', 'coll'])
        for k in range(ctx.params.removes):
            v = ctx.pick(f'remove{k}', ['-'] + [v for v, _ in entries
                                                if v in refs])
            if v == '-':
                break
            ctx.reach('remove')
            coll.remove(refs.pop(v))
            entries = [e for e in entries if e[0] != v]
        if kept == 'coll':
            refs.clear()
        et = cext.event_type(ctx, 'e', ctx.params.n)
        result = list(coll.get(et))
        ctx.observe('result', sorted(result))
        for v, qt in entries:
            expected = lib.spec_matches(ctx, et, qt)
            if v in result:
                ctx.reach('hit')
                ctx.check(expected, 'value of other query type')
            else:
                ctx.reach('miss')
                ctx.check(ctx.not_(expected), 'missing value')
        ctx.check(set(result) <= set(v for v, _ in entries) and
                  len(set(result)) == len(result), 'removed value')
        if kept == 'refs':
            del coll
            refs.clear()
    cext.run(ctx, NAME, body)


def invalid(ctx):
    """Arguments of other types"""
    def body(ctx, w, mod):
        coll = mod.Collection()
        kind = ctx.pick('kind', ['number', 'item', 'last', 'arguments'])
        q = {'number': 5, 'item': (5, 'a'), 'last': ('a', 5),
             'arguments': ('a',)}[kind]
        try:
            if kind == 'arguments':
                coll.add(q)
            else:
                coll.add(q, 'v')
            ctx.fail('query type is not refused')
        except TypeError:
            ctx.reach('refused')
        qt = (cext.segment(ctx, 'q'),)
        ref = coll.add(qt, 'w')
        for et in (5, (5,)):
            try:
                coll.get(et)
            except TypeError:
                ctx.reach('event type')
        et = (cext.segment(ctx, 'e', ('?', '*')),)
        r = list(coll.get(et))
        ctx.observe('result', sorted(r))
        ctx.check(r == ['w'] or not r, 'value of refused query type')
        ctx.check(ctx.iff(len(r) == 1, lib.spec_matches(ctx, et, qt)),
                  'wrong match')
        coll.remove(ref)
        ctx.check(list(coll.get(et)) == [], 'removed value')
    cext.run(ctx, NAME, body)


def failing(ctx):
    """Memory can't be allocated at any point"""
    def body(ctx, w, mod):
        try:
            coll = mod.Collection()
        except (MemoryError, RuntimeError):
            ctx.reach('failed')
            return
        added = []
        for i, m in enumerate(ctx.params.m):
            qt = cext.query_type(ctx, f'q{i}', m)
            v = cext.value(ctx, f'v{i}')
            try:
                ref = coll.add(qt, v)
                added.append((v, qt, ref))
            except (MemoryError, RuntimeError) as e:
                ctx.reach('failed')
                ctx.observe('error', type(e).__name__)
        ctx.check(mod.failed == (len(added) < len(ctx.params.m)),
                  'failure is not reported')
        et = cext.event_type(ctx, 'e', ctx.params.n)
        result = list(coll.get(et))
        for v, qt, ref in added:
            ctx.check(ctx.iff(v in result, lib.spec_matches(ctx, et, qt)),
                      'wrong match')
        ctx.check(set(result) <= set(v for v, _, _ in added),
                  'value which was not added')
        if added:
            coll.remove(added[0][2])
        added = ref = None
    cext.run(ctx, NAME, body, ctx.pick('fail_at', list(range(1, 9))))


def jobs(tier):
    for job in _jobs(tier):
        job.validate = 1
        yield job


def _jobs(tier):
    quick = tier == 'quick'
    cfgs = [((1,), (1,)), ((2,), (1,)), ((1, 1), (1,)), ((1, 2), (2,)),
            ((1,), (1, 1)), ((1,), (1,), (1,)), ((0,), (1,)), ((2, 2),)]
    if not quick:
        cfgs += [((1,), (1,), (1,), (1,)), ((2,), (2,), (2,)),
                 ((1,), (2,), (1,)), ((3,), (3,)), ((3, 3),)]
    for m in cfgs:
        tag = '_'.join(''.join(map(str, i)) for i in m)
        big = max(max(i) for i in m)
        for n in range(0, big + 2):
            if quick and m == ((1, 2), (2,)) and n in (1, 3):
                continue
            yield Job(f'history-{n}-{tag}', history, dict(m=m, n=(n,)),
                      require=('remove',) if len(m) > 1 else (),
                      bounds=f'{len(m)} operations, query types {m}, '
                             f'event type of {n} segments')
    for m, r in [((1, 1), 2), ((1, 2), 2), ((1, 1, 1), 3)] + (
            [] if quick else [((2, 2), 2), ((1, 1, 1, 1), 4),
                              ((2, 1, 2), 3)]):
        for n in (1, 2):
            if quick and (len(m), n) == (3, 2):
                continue
            yield Job(f'native-{n}-{"".join(map(str, m))}', native,
                      dict(m=m, n=n, removes=r), require=('remove',),
                      bounds=f'query types {m}, event type of {n} '
                             f'segments, up to {r} removed in any order')
    yield Job('invalid', invalid, require=('refused', 'event type'),
              bounds='arguments of other types')
    for m in [(1, 1), (2,)] + ([] if quick else [(1, 2), (2, 2)]):
        for n in (1, 2):
            yield Job(f'failing-{n}-{"".join(map(str, m))}', failing,
                      dict(m=m, n=n), require=('failed',),
                      bounds=f'query types {m}; one allocation (of the '
                             f'first 8) fails')
