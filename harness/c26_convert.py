import importlib
import os
import struct
from pathlib import Path

from hat import json
from hat import sbs

from hat.event import common

from pysym.job import Job
from . import lib, lmdbenv


ASSUMPTIONS = [
    "source database is as written by version 0.6 or 0.7: identifiers of "
    "events are unique and increasing with time, last event identifiers "
    "belong to the newest events, partitions are described by sorted query "
    "types",
    "lmdb is a model of the library: ordered maps with transactions",
    "sbs encoding is an invertible function of data and schema"]

EVENT = """
Timestamp = Record {{ s: Integer  us: Integer }}
EventId = Record {{ {ids} }}
EventType = Array(String)
EventPayload = Choice {{
    binary:  Bytes
    json:    String
    sbs:     Record {{
        module:  Optional(String)
        type:    String
        data:    Bytes
    }}
}}
Event = Record {{
    id:               EventId
    type:             EventType
    timestamp:        Timestamp
    sourceTimestamp:  Optional(Timestamp)
    payload:          Optional(EventPayload)
}}
"""

REPO6 = sbs.Repository('module HatEvent\n' + EVENT.format(
    ids='server: Integer instance: Integer'))
REPO7 = sbs.Repository('module HatEventer\n' + EVENT.format(
    ids='server: Integer session: Integer instance: Integer'))

V7 = [b'SYSTEM', b'LATEST_DATA', b'LATEST_TYPE', b'ORDERED_DATA',
      b'ORDERED_PARTITION', b'ORDERED_COUNT', b'REF']


def uint(x):
    return struct.pack('>Q', x)


def ts_bytes(t):
    return struct.pack('>QI', t.s + (1 << 63), t.us)


def id_bytes(i):
    return struct.pack('>QQQ', i.server, i.session, i.instance)


def js(x):
    return json.encode(x).encode('utf-8')


def opt(x, f=lambda i: i):
    return ('none', None) if x is None else ('value', f(x))


def ts_sbs(t):
    return {'s': t.s, 'us': t.us}


class Item:
    """Event of the source database with its expected conversion"""

    def __init__(self, ctx, p, i, server):
        n = f'e{i}'
        self.server = server
        self.session = ctx.int(f'{n}_ses', 0, 2 ** 40) if p.version == 7 \
            else None
        self.instance = ctx.int(f'{n}_ins', 1, 2 ** 40)
        self.timestamp = lib.timestamp(ctx, f'{n}_t', -2 ** 40, 2 ** 40)
        self.source = (lib.timestamp(ctx, f'{n}_st', -2 ** 40, 2 ** 40)
                       if p.source == 'all' or
                       (p.source and ctx.flag(f'{n}_source')) else None)
        self.type = (ctx.text(f'{n}_type', p.types), 'x')
        kind = ctx.pick(f'{n}_payload', p.payloads)
        if kind == 'none':
            self.payload, self.expected = None, None
        elif kind == 'json':
            data = {'k': [ctx.int(f'{n}_data', -9, 9), None]}
            self.payload = 'json', json.encode(data)
            self.expected = common.EventPayloadJson(data)
        elif kind == 'null':
            self.payload = 'json', 'null'
            self.expected = common.EventPayloadJson(None)
        elif kind == 'binary':
            data = ctx.bytes_(f'{n}_data', 2)
            self.payload = 'binary', data
            self.expected = common.EventPayloadBinary('', data)
        elif kind == 'empty':
            self.payload = 'binary', b''
            self.expected = common.EventPayloadBinary('', b'')
        else:
            data = ctx.bytes_(f'{n}_data', 2)
            module = 'Abc' if kind == 'module' else None
            self.payload = 'sbs', {'module': opt(module), 'type': 'T',
                                   'data': data}
            self.expected = common.EventPayloadBinary(
                'Abc.T' if module else 'T', data)

    def id7(self):
        return common.EventId(self.server, self.session, self.instance)

    def sbs(self, version):
        id_ = {'server': self.server, 'instance': self.instance}
        if version == 7:
            id_['session'] = self.session
        return {'id': id_, 'type': list(self.type),
                'timestamp': ts_sbs(self.timestamp),
                'sourceTimestamp': opt(self.source, ts_sbs),
                'payload': opt(self.payload)}

    def event(self, version, server_id):
        if version == 7:
            id_ = self.id7()
        else:
            # events of the server, each in its own session
            id_ = common.EventId(server_id, self.instance, self.instance)
        return common.Event(id=id_, type=self.type, timestamp=self.timestamp,
                            source_timestamp=self.source,
                            payload=self.expected)


def same(ctx, a, b):
    return ctx.and_(
        ctx.eq(a.id, b.id), ctx.eq(a.type, b.type),
        ctx.eq(a.timestamp, b.timestamp),
        a.source_timestamp is None if b.source_timestamp is None else
        (a.source_timestamp is not None and
         ctx.eq(a.source_timestamp, b.source_timestamp)),
        same_payload(ctx, a.payload, b.payload))


def same_payload(ctx, a, b):
    if type(a) is not type(b):
        return False
    if isinstance(b, common.EventPayloadBinary):
        return ctx.and_(a.type == b.type, ctx.eq(bytes(a.data), b.data))
    if isinstance(b, common.EventPayloadJson):
        if b.data is None:
            return a.data is None
        return a.data.keys() == b.data.keys() and ctx.and_(
            ctx.eq(a.data['k'][0], b.data['k'][0]), a.data['k'][1] is None)
    return True


def same_events(ctx, got, expected, msg, ordered=False):
    got = list(got)
    ctx.check(len(got) == len(expected),
              f'{msg}: {len(got)} events, expected {len(expected)}')
    for i, b in enumerate(expected):
        ctx.check(same(ctx, got[i], b) if ordered else
                  ctx.or_(*(same(ctx, a, b) for a in got)),
                  f'{msg}: event')


PARTITIONS = {1: (1, common.OrderBy.TIMESTAMP, [['*']]),
              2: (2, common.OrderBy.SOURCE_TIMESTAMP, [['*']]),
              5: (1, common.OrderBy.TIMESTAMP, [['a', '*'], ['b', '*']])}


def key(order_by, item):
    return item.timestamp if order_by == common.OrderBy.TIMESTAMP \
        else item.source


def member(ctx, pid, item):
    order, order_by, subs = PARTITIONS[pid]
    if key(order_by, item) is None:
        return False
    m = lib.spec_any(ctx, item.type, [tuple(i) for i in subs])
    return True if m else False


def write6(path, p, server_id, latest, series):
    import lmdb
    with lmdb.Environment(str(path), map_size=1 << 24, subdir=False,
                          max_dbs=5) as env:
        dbs = {n: env.open_db(n) for n in (
            b'system', b'latest', b'ordered_data', b'ordered_partition',
            b'ordered_count')}
        with env.begin(write=True) as txn:
            txn.put(b'server_id', uint(server_id), db=dbs[b'system'])
            for i, item in enumerate(latest):
                txn.put(js([str(i), 'x']), REPO6.encode(
                    'HatEvent.Event', item.sbs(6)), db=dbs[b'latest'])
            for pid, items in series.items():
                order, order_by, subs = PARTITIONS[pid]
                for item in items:
                    txn.put(uint(pid) + ts_bytes(key(order_by, item)) +
                            uint(item.instance),
                            REPO6.encode('HatEvent.Event', item.sbs(6)),
                            db=dbs[b'ordered_data'])
                txn.put(uint(pid), js({'order': order,
                                       'subscriptions': subs}),
                        db=dbs[b'ordered_partition'])
                txn.put(uint(pid), js(len(items)), db=dbs[b'ordered_count'])


def write7(path, p, last, latest, series):
    import lmdb
    with lmdb.Environment(str(path), map_size=1 << 24, subdir=False,
                          max_dbs=7) as env:
        dbs = {n: env.open_db(n) for n in V7}
        with env.begin(write=True) as txn:
            refs = []

            def ref(item, data):
                for i in refs:
                    if i[0] is item:
                        i[1] = i[1] + data
                        return
                refs.append([item, data])

            for server, item in last:
                txn.put(uint(server), id_bytes(item.id7()) +
                        ts_bytes(item.timestamp), db=dbs[b'SYSTEM'])
            for i, item in enumerate(latest):
                txn.put(uint(i + 1), REPO7.encode(
                    'HatEventer.Event', item.sbs(7)), db=dbs[b'LATEST_DATA'])
                txn.put(uint(i + 1), js(list(item.type)),
                        db=dbs[b'LATEST_TYPE'])
                ref(item, bytes([1]) + uint(i + 1))
            for pid, items in series.items():
                order, order_by, subs = PARTITIONS[pid]
                for item in items:
                    k = (uint(pid) + ts_bytes(key(order_by, item)) +
                         id_bytes(item.id7()))
                    txn.put(k, REPO7.encode('HatEventer.Event', item.sbs(7)),
                            db=dbs[b'ORDERED_DATA'])
                    ref(item, bytes([3]) + k)
                txn.put(uint(pid), js({'order': order,
                                       'subscriptions': subs}),
                        db=dbs[b'ORDERED_PARTITION'])
                txn.put(uint(pid), uint(len(items)),
                        db=dbs[b'ORDERED_COUNT'])
            for item, data in refs:
                txn.put(id_bytes(item.id7()), data, db=dbs[b'REF'])


def before(ctx, a, b):
    return ctx.or_(a.session is not None and a.session < b.session,
                   ctx.and_(a.session is None or
                            ctx.eq(a.session, b.session),
                            a.instance < b.instance))


async def _convert(ctx, loop, path):
    p = ctx.params
    v = p.version
    src = Path(path + '.src')
    dst = Path(path)
    if v == 6:
        server_id = ctx.int('server', 0, 9)
        expected_id = 1 if ctx.eq(server_id, 0) else server_id
        servers = [server_id]
    else:
        servers = p.servers
    items = []
    for i in range(p.k):
        s = (server_id if v == 6 and not ctx.flag(f'zero{i}') else
             0 if v == 6 else ctx.pick(f'srv{i}', servers))
        items.append(Item(ctx, p, i, s))
    for i, b in enumerate(items):
        for a in items[:i]:
            if v == 6 or a.server == b.server:
                ctx.assume(before(ctx, a, b))
                ctx.assume(ctx.not_(lib.lt_ts(ctx, b.timestamp,
                                              a.timestamp)))
    latest = []
    for item in items:
        if p.latest and not ctx.flag(f'skip_latest{items.index(item)}'):
            for i, x in enumerate(latest):
                if ctx.eq(x.type, item.type):
                    latest[i] = item
                    break
            else:
                latest.append(item)
    # oldest entries of partitions can be already removed
    series = {}
    for pid in p.partitions:
        x = [i for i in items if member(ctx, pid, i)]
        series[pid] = x[ctx.pick(f'removed{pid}', range(p.removed + 1)):] \
            if p.removed else x
    if v == 6:
        write6(src, p, server_id, latest, series)
        servers = [expected_id]
    else:
        last = []
        for s in servers:
            own = [i for i in items if i.server == s]
            if own:
                last.append((s, own[-1]))
        write7(src, p, last, latest, series)

    main = importlib.import_module('hat.event.backends.lmdb.convert.main')
    version = importlib.import_module(
        'hat.event.backends.lmdb.convert.version')
    V = version.Version
    ctx.check(version.get_version(src) == (V.v06 if v == 6 else V.v07),
              'version of source')
    main.convert(src, dst)
    ctx.check(src.exists() and dst.exists() and sorted(
        i for i in os.listdir(dst.parent) if not i.endswith('-lock')) ==
        sorted([src.name, dst.name]), 'files')
    ctx.check(version.get_version(dst) == V.v09, 'version')
    ctx.check(version.get_version(src) == (V.v06 if v == 6 else V.v07),
              'version of source')
    try:
        main.convert(dst, Path(path + '.x'))
        ctx.check(False, 'converted again')
    except Exception as e:
        ctx.check('up to date' in str(e), 'conversion of converted')

    exp = {id(i): i.event(v, servers[0]) for i in items}
    stored = [i for i in items
              if i in latest or any(i in x for x in series.values())]
    db = await lmdbenv.create(lmdbenv.conf(
        path, timeseries=[{'order_by': PARTITIONS[i][1].name,
                           'subscriptions': PARTITIONS[i][2]}
                          for i in p.partitions]))
    r = await db.query(common.QueryLatestParams())
    same_events(ctx, r.events, [exp[id(i)] for i in latest], 'latest')
    for pid in p.partitions:
        _, order_by, subs = PARTITIONS[pid]
        r = await db.query(common.QueryTimeseriesParams(
            event_types=[tuple(i) for i in subs], order_by=order_by))
        if pid == 5 and 1 in p.partitions:
            # the first suitable partition is queried
            continue
        same_events(ctx, r.events, [exp[id(i)] for i in series[pid]],
                    'timeseries')
        rest = list(r.events)
        k = ((lambda e: e.timestamp) if PARTITIONS[pid][0] == 1 else
             (lambda e: e.source_timestamp))
        for a, b in zip(rest, rest[1:]):
            ctx.check(ctx.not_(lib.lt_ts(ctx, k(a), k(b))), 'order')
    added = []
    for s in servers:
        r = await db.query(common.QueryServerParams(s, persisted=True))
        own = [i for i in stored if v == 6 or i.server == s]
        same_events(ctx, r.events, [exp[id(i)] for i in own], 'server', True)
        known = own if v == 6 else [i for i in items if i.server == s]
        ctx.check(ctx.eq(await db.get_last_event_id(s),
                         exp[id(known[-1])].id if known else
                         common.EventId(s, 0, 0)), 'last event id')
        # backend continues
        if known:
            last = exp[id(known[-1])]
            for n in (0, 1):
                e = common.Event(
                    id=last.id._replace(session=last.id.session + 1 + n,
                                        instance=1),
                    type=('new', str(s)), source_timestamp=None,
                    timestamp=last.timestamp._replace(
                        s=last.timestamp.s - 1 + n), payload=None)
                await db.register([e])
                await db.flush()
                if n:
                    added.append(e)
                # event of the past is not accepted
                ctx.check(ctx.eq(await db.get_last_event_id(s),
                                 e.id if n else last.id), 'new event')
    await db.async_close()
    check_counts(ctx, path, p, series, items, servers)
    if not p.partitions:
        ctx.reach(f'latest{len(latest)}')
        ctx.reach('end')
        return
    # events which remain after cleanup of all partitions
    db = await lmdbenv.create(lmdbenv.conf(
        path, timeseries=[{'order_by': PARTITIONS[i][1].name,
                           'subscriptions': PARTITIONS[i][2],
                           'limit': {'max_entries': 0}}
                          for i in p.partitions]))
    await loop.settle()
    r = await db.query(common.QueryTimeseriesParams())
    ctx.check(not r.events, 'timeseries after cleanup')
    for s in servers:
        r = await db.query(common.QueryServerParams(s, persisted=True))
        own = [exp[id(i)] for i in items
               if i in latest and (v == 6 or i.server == s)]
        new = [e for e in added if e.id.server == s]
        same_events(ctx, r.events, own + new, 'server after cleanup', True)
    await db.async_close()
    ctx.reach(f'latest{len(latest)}')
    ctx.reach('end')


def check_counts(ctx, path, p, series, items, servers):
    """Number of entries of each partition (on which cleanup depends)"""
    v09 = importlib.import_module('hat.event.backends.lmdb.convert.v09')
    with v09.create_env(Path(path)) as env:
        dbs = {i: v09.open_db(env, i) for i in v09.DbType}
        with env.begin(buffers=True) as txn:
            counts = dict(v09.read(dbs, txn, v09.DbType.TIMESERIES_COUNT))
            n = {}
            for k, _ in v09.read(dbs, txn, v09.DbType.TIMESERIES_DATA):
                n[k[0]] = n.get(k[0], 0) + 1
            ctx.check(all(counts.get(i, 0) == n.get(i, 0)
                          for i in {*counts, *n}), 'counts of partitions')
            parts = dict(v09.read(dbs, txn, v09.DbType.TIMESERIES_PARTITION))
            ctx.check(sorted(parts) == sorted(p.partitions), 'partitions')


def convert(ctx):
    lmdbenv.run(ctx, _convert)


async def _other(ctx, loop, path):
    """Databases which can't be converted"""
    import lmdb
    main = importlib.import_module('hat.event.backends.lmdb.convert.main')
    kind = ctx.pick('kind', ('empty', 'partial', 'current'))
    src, dst = Path(path), Path(path + '.dst')
    if kind == 'current':
        db = await lmdbenv.create(lmdbenv.conf(path))
        await db.async_close()
    else:
        names = [] if kind == 'empty' else V7[:-1]
        with lmdb.Environment(path, subdir=False, max_dbs=9) as env:
            for i in names:
                env.open_db(i)
    try:
        main.convert(src, dst)
        ctx.check(False, 'unknown database converted')
    except Exception:
        pass
    ctx.check(not dst.exists(), 'file created')
    ctx.reach(kind)


def other(ctx):
    lmdbenv.run(ctx, _other)


def jobs(tier):
    quick = tier == 'quick'
    base = dict(k=2, servers=(1, 7), types=('a', 'b'), payloads=('none',),
                source=False, latest=True, partitions=(), removed=0)

    def job(name, bounds, **kw):
        return Job(name, convert, {**base, **kw},
                   require=('end', 'latest1' if kw.get('latest', True)
                            else 'latest0'), bounds=bounds)

    for v in (6, 7):
        n = 2 if quick else 3
        yield job(f'v{v}-latest', f'{n} events in latest', version=v, k=n)
        yield job(f'v{v}-series', f'{n} events in latest and partition by '
                  'timestamp, oldest possibly removed', version=v, k=n,
                  partitions=(1,), removed=1)
        yield job(f'v{v}-source', f'{n} events in partitions by timestamp '
                  'and source timestamp', version=v, k=n, source=True,
                  partitions=(1, 2), types=('a',), latest=False)
        yield job(f'v{v}-parts', '2 events in 2 partitions', version=v, k=2,
                  types=('a', 'c'), partitions=(5,), latest=False)
        yield job(f'v{v}-payload', '1 event with any payload', version=v,
                  k=1, payloads=('none', 'json', 'null', 'binary', 'empty',
                                 'sbs', 'module'), source=True,
                  partitions=(1, 2))
    yield Job('other', other, {}, require=('empty', 'partial', 'current'),
              bounds='databases without known version and current ones')
