import builtins
import contextlib
import importlib
import sys
from pathlib import Path

from hat import json

from hat.event import common

from pysym.job import Job
from . import lib, lmdbenv
from .c08_registration import ASSUMPTIONS as _A


ASSUMPTIONS = [
    *_A,
    "result of command is what is printed: one JSON document each line",
    "command line arguments are parsed by the real argparse"]


@contextlib.contextmanager
def printed():
    """What is printed meanwhile"""
    native = builtins.print
    out = []

    def fake(*args, **kw):
        assert len(args) == 1
        out.append(args[0])

    builtins.print = fake
    try:
        yield out
    finally:
        builtins.print = native


def manager(*args):
    """Run command of lmdb manager, return printed documents"""
    m = importlib.import_module('hat.event.backends.lmdb.manager.main')
    argv = sys.argv
    sys.argv = ['manager', *args]
    try:
        with printed() as out:
            m.main()
    finally:
        sys.argv = argv
    return [json.decode(i) for i in out]


def same_json(ctx, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and ctx.and_(
            *(same_json(ctx, a[k], b[k]) for k in a))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and ctx.and_(
            *(same_json(ctx, i, j) for i, j in zip(a, b)))
    if a is None or b is None:
        return a is None and b is None
    return ctx.eq(a, b)


def same_docs(ctx, got, expected, msg):
    ctx.check(len(got) == len(expected),
              f'{msg}: {len(got)} results, expected {len(expected)}')
    for b in expected:
        ctx.check(ctx.or_(*(same_json(ctx, a, b) for a in got)),
                  f'{msg}: result missing')


def id_doc(i):
    return {'server': i.server, 'session': i.session, 'instance': i.instance}


def ts_doc(t):
    return None if t is None else {'s': t.s, 'us': t.us}


def event_doc(e):
    p = e.payload
    if isinstance(p, common.EventPayloadBinary):
        p = {'type': 'BINARY', 'subtype': p.type, 'data': p.data.hex()}
    elif p is not None:
        p = {'type': 'JSON', 'data': p.data}
    return {'id': id_doc(e.id), 'type': list(e.type),
            'timestamp': ts_doc(e.timestamp),
            'source_timestamp': ts_doc(e.source_timestamp), 'payload': p}


def make(ctx, p):
    events = []
    for i in range(p.k):
        n = f'e{i}'
        kind = ctx.pick(f'{n}_payload', p.payloads)
        payload = (None if kind == 'none' else
                   common.EventPayloadBinary(
                       ctx.text(f'{n}_bt', lib.SEGS),
                       ctx.pick(f'{n}_data', (b'', b'\x00\xff')))
                   if kind == 'binary' else
                   common.EventPayloadJson({'x': ctx.int(f'{n}_data',
                                                         -9, 9)}))
        source = (lib.timestamp(ctx, f'{n}_st') if p.source and
                  not ctx.flag(f'{n}_nosource') else None)
        events.append(lmdbenv.event(
            ctx, n, servers=p.servers,
            type_=(ctx.text(f'{n}_type', ('a', 'b')), 'x'),
            source=source, payload=payload))
    lmdbenv.ordered(ctx, events)
    return events


def conf(path, p):
    return lmdbenv.conf(
        path, identifier=p.identifier, latest=[['a', '*']],
        timeseries=[{'order_by': 'TIMESTAMP', 'subscriptions': [['*']]},
                    {'order_by': 'SOURCE_TIMESTAMP',
                     'subscriptions': [['b', '*']]}])


async def fill(ctx, path, p, events):
    db = await lmdbenv.create(conf(path, p))
    for e in events:
        await db.register([e])
        if p.flush:
            await db.flush()
    await db.async_close()
    latest = []
    for e in events:
        if not ctx.eq(e.type[0], 'a'):
            continue
        for i, x in enumerate(latest):
            if ctx.eq(x.type, e.type):
                if ctx.eq(x.id.server, e.id.server) or \
                        not lib.lt_ts(ctx, e.timestamp, x.timestamp):
                    latest[i] = e
                break
        else:
            latest.append(e)
    second = [e for e in events if e.source_timestamp is not None and
              ctx.eq(e.type[0], 'b')]
    return latest, second


async def _query(ctx, loop, path):
    p = ctx.params
    events = make(ctx, p)
    latest, second = await fill(ctx, path, p, events)
    what = ctx.pick('what', p.what)
    args = ['query', '--db', path, what]
    server = None
    if what in ('last_event_id', 'last_timestamp', 'ref', 'timeseries'):
        server = ctx.pick('server', (None, *p.servers, 99))
        if server is not None:
            args += ['--server-id', str(server)]
    partition = None
    if what in ('partition', 'timeseries'):
        partition = ctx.pick('partition', (None, 1, 2, 3))
        if partition is not None:
            args += ['--partition-id', str(partition)]
    types = None
    if what in ('latest', 'timeseries'):
        types = ctx.pick('types', (None, ('a/*',), ('b/x', '?/y'), ('?/x',)))
        if types is not None:
            args += ['--event-types', *types]
            types = [tuple(i.split('/')) for i in types]
    got = manager(*args)

    def of(es):
        return [e for e in es if server is None or e.id.server == server]

    def match(e):
        return types is None or lib.spec_any(ctx, e.type, types)

    if what == 'settings':
        expected = [{'settings_id': 'VERSION', 'data': '0.9'}]
        if p.identifier is not None:
            expected.append({'settings_id': 'IDENTIFIER',
                             'data': p.identifier})
    elif what in ('last_event_id', 'last_timestamp'):
        last = {}
        for e in of(events):
            last[e.id.server] = e
        expected = [id_doc(e.id) if what == 'last_event_id' else
                    ts_doc(e.timestamp) for e in last.values()]
    elif what == 'ref':
        expected = [{'event_id': id_doc(e.id), 'ref_type': 'latest',
                     'event_type': list(e.type)} for e in of(latest)]
        for n, es in ((1, events), (2, second)):
            expected += [{'event_id': id_doc(e.id), 'ref_type': 'timeseries',
                          'partition_id': n,
                          'timestamp': ts_doc(e.timestamp if n == 1 else
                                              e.source_timestamp)}
                         for e in of(es)]
    elif what == 'latest':
        expected = [event_doc(e) for e in latest if match(e)]
    elif what == 'partition':
        expected = [{'partition_id': n,
                     'data': {'order': o, 'subscriptions': s}}
                    for n, o, s in ((1, 'timestamp', [['*']]),
                                    (2, 'sourceTimestamp', [['b', '*']]))
                    if partition in (None, n)]
    else:
        expected = []
        for n, es in ((1, events), (2, second)):
            if partition in (None, n):
                expected += [event_doc(e) for e in of(es) if match(e)]
    same_docs(ctx, got, expected, what)
    ctx.reach(what)
    ctx.reach('results' if expected else 'empty')


def query(ctx):
    lmdbenv.run(ctx, _query)


async def content(ctx, path, p):
    db = await lmdbenv.create(conf(path, p))
    out = {}
    out['latest'] = list((await db.query(common.QueryLatestParams())).events)
    for by in common.OrderBy:
        out[by] = list((await db.query(
            common.QueryTimeseriesParams(order_by=by))).events)
    for s in p.servers:
        out[s] = list((await db.query(
            common.QueryServerParams(s, persisted=True))).events)
        out['last', s] = await db.get_last_event_id(s)
    await db.async_close()
    return out


async def _copy(ctx, loop, path):
    p = ctx.params
    events = make(ctx, p)
    latest, second = await fill(ctx, path, p, events)
    src = await content(ctx, path, p)
    skip = ctx.pick('skip', (0, 1, 2, 3))
    dst = path + '.copy'
    args = ['copy', *(['--skip-latest'] if skip & 1 else []),
            *(['--skip-timeseries'] if skip & 2 else []), path, dst]
    got = manager(*args)
    ctx.check(not got and Path(dst).exists(), 'copy')
    for what in ('settings', 'last_event_id', 'last_timestamp',
                 'latest', 'timeseries', 'partition'):
        same_docs(ctx, manager('query', '--db', dst, what),
                  [] if (what == 'latest' and skip & 1) or (
                      what in ('timeseries', 'partition') and skip & 2) else
                  manager('query', '--db', path, what), what)
    copied = await content(ctx, dst, p)
    after = await content(ctx, path, p)
    lmdbenv.same_set(ctx, copied['latest'], [] if skip & 1 else latest,
                     'latest')
    for by in common.OrderBy:
        lmdbenv.same_list(ctx, copied[by], [] if skip & 2 else src[by],
                          by.name)
    kept = [e for e in events
            if (not skip & 1 and any(e is i for i in latest)) or
            not skip & 2]
    for s in p.servers:
        lmdbenv.same_list(ctx, copied[s],
                          [e for e in kept if e.id.server == s], 'server')
        ctx.check(ctx.eq(copied['last', s], src['last', s]),
                  'last event id')
    for k in src:
        if isinstance(src[k], list):
            lmdbenv.same_list(ctx, after[k], src[k], 'source')
    if p.identifier is not None:
        try:
            await lmdbenv.create({**conf(dst, p), 'identifier': 'other'})
            ctx.check(False, 'identifier is not copied')
        except Exception:
            pass
    try:
        manager(*args)
        ctx.check(False, 'existing database overwritten')
    except Exception:
        pass
    again = await content(ctx, dst, p)
    for k in src:
        if isinstance(src[k], list):
            lmdbenv.same_list(ctx, again[k], copied[k], 'existing')
    ctx.reach(f'skip{skip}')


def copy(ctx):
    lmdbenv.run(ctx, _copy)


ACTIONS = ('settings', 'last_event_id', 'last_timestamp', 'ref', 'latest',
           'partition', 'timeseries')


def jobs(tier):
    quick = tier == 'quick'
    base = dict(k=2, servers=(1, 3), source=False, flush=False,
                payloads=('none',), identifier='db', what=ACTIONS)

    def job(name, f, bounds, require, **kw):
        return Job(name, f, {**base, **kw}, require=require, bounds=bounds)

    yield job('query', query, '2 events of 2 servers, any query', (
        'results', 'empty', *ACTIONS), source=True)
    yield job('payload', query, '1 event with any payload',
              ('results',), k=1, payloads=('none', 'json', 'binary'),
              what=('latest', 'timeseries'), identifier=None, source=True)
    yield job('copy', copy, f'{2 if quick else 3} events of 2 servers, any '
              'part skipped', ('skip0', 'skip1', 'skip2', 'skip3'),
              source=True, k=2 if quick else 3)
    if not quick:
        yield job('query-3', query, '3 events of 2 servers, any query',
                  ('results', 'empty', *ACTIONS), source=True, k=3,
                  flush=True)


