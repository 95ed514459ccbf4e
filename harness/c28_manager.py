import asyncio
import contextlib
import importlib
import io
import os
import shutil
import sys
import tempfile

from hat import aio
from hat import json

from hat.event import common
from hat.event import eventer

from pysym import simloop
from pysym.job import Job
from . import lib, net
from .c15_notify import ASSUMPTIONS as _A
from .c27_lmdb_manager import printed, same_json, id_doc, ts_doc


ASSUMPTIONS = [
    *_A,
    "result of command is what is printed: one JSON document each line",
    "command line arguments are parsed by the real argparse; coroutine given "
    "to aio.run_asyncio runs on the simulated event loop"]


def manager(ctx, server, during, args, stdin=None):
    """Run command of manager: status of the process, printed documents.

    Coroutine server() is called before, and during(main task) while the
    command is running."""
    m = importlib.import_module('hat.event.manager.main')
    saved = (sys.argv, sys.stdin, sys.stderr, aio.run_asyncio,
             aio.init_asyncio)

    def run_asyncio(co, **kw):
        async def main(ctx, loop):
            srv = await server()
            task = asyncio.ensure_future(co)
            try:
                if during:
                    await during(loop, srv, task)
                return await task
            finally:
                await srv.async_close()
                await loop.settle()
                ctx.check(all(a.is_closed and b.is_closed
                              for a, b in network.ends),
                          'connection left open')
        return simloop.run(ctx, main)

    sys.argv = ['manager', *args]
    sys.stdin = stdin
    sys.stderr = io.StringIO()
    aio.run_asyncio, aio.init_asyncio = run_asyncio, lambda *a, **kw: None
    try:
        with net.installed() as network, printed() as out:
            try:
                status = m.main()
            except SystemExit as e:
                status = e.code
            except Exception as e:
                status = repr(e)
    finally:
        (sys.argv, sys.stdin, sys.stderr, aio.run_asyncio,
         aio.init_asyncio) = saved
    return status, [json.decode(i) for i in out]


def event_doc(e):
    p = e.payload
    if isinstance(p, common.EventPayloadBinary):
        p = {'data_type': 'binary', 'binary_type': p.type,
             'data': p.data.hex()}
    elif p is not None:
        p = {'data_type': 'json', 'data': p.data}
    return {'id': id_doc(e.id), 'type': list(e.type),
            'timestamp': ts_doc(e.timestamp),
            'source_timestamp': ts_doc(e.source_timestamp), 'payload': p}


def event(ctx, n, type_=None):
    kind = (ctx.pick(f'{n}_payload', ('none', 'json', 'binary'))
            if type_ is None else 'json')
    payload = (None if kind == 'none' else
               common.EventPayloadBinary(
                   ctx.text(f'{n}_bt', lib.SEGS),
                   ctx.pick(f'{n}_data', (b'', b'\x00\xff')))
               if kind == 'binary' else
               common.EventPayloadJson(
                   {'x': ctx.int(f'{n}_data', -2 ** 60, 2 ** 60), 'y': None}))
    return common.Event(
        id=lib.event_id(ctx, n), type=type_ or (ctx.text(n, lib.SEGS), 'x'),
        timestamp=lib.timestamp(ctx, f'{n}_t'),
        source_timestamp=(lib.opt_timestamp(ctx, f'{n}_st')
                          if type_ is None else None),
        payload=payload)


# arguments of the command and meaning of them

TIMES = (('0', common.Timestamp(0, 0)),
         ('-2.25', common.Timestamp(-3, 750000)),
         ('1700000000.5', common.Timestamp(1700000000, 500000)))

TYPES = (('a', ('a',)), ('a/b', ('a', 'b')), ('', ('',)),
         ('a//?/*', ('a', '', '?', '*')), ('-x/*', None))

IDS = (('1,2,3', common.EventId(1, 2, 3)),
       ('0,0,0', common.EventId(0, 0, 0)),
       ('7,9223372036854775807,5', common.EventId(7, 2 ** 63 - 1, 5)))


def option(ctx, args, name, options):
    """Optional argument --name with one of (argument, value)"""
    n = name.replace('-', '_')
    i = ctx.pick(f'arg_{n}', (None, *range(len(options))))
    if i is None:
        return None
    args += [f'--{name}', options[i][0]]
    return options[i][1]


def client_args(ctx, args):
    name = option(ctx, args, 'client-name', (('cl', 'cl'), ('', '')))
    token = option(ctx, args, 'client-token', (('tok', 'tok'), ('', '')))
    return 'manager' if name is None else name, token


class Srv:

    def __init__(self, ctx):
        self.ctx = ctx
        self.infos = []
        self.gone = []
        self.requests = []
        self.result = None
        self.fail = False

    async def listen(self):
        self.srv = await eventer.listen(
            net.ADDR, status=common.Status.OPERATIONAL,
            connected_cb=self.infos.append,
            disconnected_cb=self.gone.append,
            register_cb=self.request, query_cb=self.request)
        return self.srv

    def request(self, info, data):
        self.requests.append((info, data))
        if self.fail:
            raise Exception('failure')
        return self.result

    def verify(self, name, token, subscriptions=(), server_id=None,
               persisted=False):
        ctx = self.ctx
        ctx.check(len(self.infos) == 1, 'one connection')
        info = self.infos[0]
        ctx.check(info.client_name == name, 'client name')
        ctx.check(info.client_token == token, 'client token')
        ctx.check(set(info.subscription.get_query_types()) ==
                  set(subscriptions), 'subscription')
        ctx.check(info.server_id == server_id, 'server id')
        ctx.check(bool(info.persisted) == persisted, 'persisted')
        ctx.check(len(self.gone) == 1, 'client is disconnected')


# --- registration

STDIN = {
    'json': ('{"a": [1, null, "x"]}', {'a': [1, None, 'x']}),
    'yaml': ('a:\n  - 1\n  - null\n  - x\n', {'a': [1, None, 'x']}),
    'toml': ('a = [1, 2]\n[b]\nc = "x"\n', {'a': [1, 2], 'b': {'c': 'x'}})}

BINARY = b'\x00{"\xff\r\n'


def payload_args(ctx, args, tmp):
    """Arguments of payload, content of standard input and the payload"""
    p = ctx.params
    kind = ctx.pick('payload', p.payloads)
    where = ctx.pick('where', p.where)
    if where == 'stdin':
        if kind != 'default':
            args += ['--payload-type', kind]
        if where == 'stdin' and ctx.flag('dash'):
            args += ['--payload-path', '-']
    else:
        # format by the suffix, or explicitly given
        suffix = ctx.pick('suffix', ('.json', '.yaml', '.yml', '.toml',
                                     '.bin', ''))
        if kind == 'default':
            kind = {'.json': 'json', '.yaml': 'yaml', '.yml': 'yaml',
                    '.toml': 'toml'}.get(suffix, 'binary')
        else:
            args += ['--payload-type', kind]
        path = os.path.join(tmp, 'payload' + suffix)
        args += ['--payload-path', path]
    if kind == 'default':
        kind = 'json'
    subtype = option(ctx, args, 'binary-type', (('bt', 'bt'),)) or ''
    if kind == 'none':
        data, payload = b'', None
    elif kind == 'binary':
        data, payload = BINARY, common.EventPayloadBinary(subtype, BINARY)
    else:
        data, payload = STDIN[kind]
        data = data.encode()
        payload = common.EventPayloadJson(payload)
    if where == 'stdin':
        return io.TextIOWrapper(io.BytesIO(data)), payload
    with open(path, 'wb') as f:
        f.write(data)
    return io.TextIOWrapper(io.BytesIO(b'other')), payload


def register(ctx):
    p = ctx.params
    srv = Srv(ctx)
    args = []
    name, token = client_args(ctx, args) if p.client else ('manager', None)
    args += ['register']
    tmp = tempfile.mkdtemp()
    try:
        if p.source:
            source = option(ctx, args, 'source-timestamp', TIMES)
        else:
            source = None
        stdin, payload = payload_args(ctx, args, tmp)
        text, type_ = ctx.pick('type', TYPES[:p.types])
        what = ctx.pick('result', p.results)
        srv.result = [event(ctx, 'r')] if what == 'ok' else None
        srv.fail = what == 'fail'
        status, out = manager(ctx, srv.listen, None, [*args, text], stdin)
    finally:
        shutil.rmtree(tmp)
    ctx.check((status in (None, 0)) == (what == 'ok'),
              f'status {status} of {what}')
    ctx.check(len(srv.requests) == 1, 'registered once')
    (info, events), = srv.requests
    ctx.check(list(events) == [common.RegisterEvent(type_, source, payload)],
              'registered event')
    srv.verify(name, token)
    ctx.reach(what)
    ctx.reach('none' if payload is None else type(payload).__name__)


# --- query

def query(ctx):
    p = ctx.params
    srv = Srv(ctx)
    args = []
    name, token = client_args(ctx, args) if p.client else ('manager', None)
    args += ['query', p.kind]
    types = None
    if p.kind != 'server':
        i = ctx.pick('types', (None, (), (0,), (1, 3), (2, 0)))
        if i is not None:
            types = [TYPES[j][1] for j in i]
            types_args = ['--event-types', *(TYPES[j][0] for j in i)]
            args += types_args
    numbers = (('0', 0), ('3', 3), ('1000000', 1000000))
    if p.kind == 'latest':
        expected = common.QueryLatestParams(event_types=types)
    elif p.kind == 'timeseries':
        kw = {}
        if p.times:
            for i in ('t-from', 't-to', 'source-t-from', 'source-t-to'):
                kw[i.replace('-', '_')] = option(ctx, args, i, TIMES[1:])
        else:
            order = option(ctx, args, 'order',
                           [(i.name, i) for i in common.Order])
            by = option(ctx, args, 'order-by',
                        [(i.name, i) for i in common.OrderBy])
            if order is not None:
                kw['order'] = order
            if by is not None:
                kw['order_by'] = by
            kw['max_results'] = option(ctx, args, 'max-results', numbers)
            kw['last_event_id'] = option(ctx, args, 'last-event-id', IDS)
        expected = common.QueryTimeseriesParams(event_types=types, **kw)
    else:
        text, server_id = ctx.pick('server', numbers)
        if ctx.flag('persisted'):
            args += ['--persisted']
            persisted = True
        else:
            persisted = False
        expected = common.QueryServerParams(
            server_id=server_id, persisted=persisted,
            max_results=option(ctx, args, 'max-results', numbers),
            last_event_id=option(ctx, args, 'last-event-id', IDS))
        args += [text]
    what = ctx.pick('result', p.results)
    srv.fail = what == 'fail'
    srv.result = common.QueryResult([event(ctx, f'r{i}')
                                     for i in range(p.k)],
                                    ctx.bool('more'))
    status, out = manager(ctx, srv.listen, None, args)
    ctx.check(len(srv.requests) == 1, f'queried once: {status}')
    (info, got), = srv.requests
    if type(got) is type(expected) and got != expected and \
            hasattr(got, 'event_types') and got.event_types is not None:
        got = got._replace(event_types=[tuple(i) for i in got.event_types])
    ctx.check(type(got) is type(expected) and got == expected,
              f'parameters {got}, expected {expected}')
    if what == 'fail':
        ctx.check(status not in (None, 0) and not out, 'failed query')
    else:
        ctx.check(status in (None, 0), f'status {status}')
        ctx.check(len(out) == 1 and same_json(
            ctx, out[0], {'events': [event_doc(i)
                                     for i in srv.result.events],
                          'more_follows': srv.result.more_follows}),
            'printed result')
    srv.verify(name, token)
    ctx.reach(what)


# --- subscription

def subscribe(ctx):
    p = ctx.params
    srv = Srv(ctx)
    args = []
    name, token = client_args(ctx, args) if p.client else ('manager', None)
    args += ['subscribe']
    server_id = (option(ctx, args, 'server-id', (('0', 0), ('7', 7)))
                 if p.args else None)
    persisted = ctx.flag('persisted') if p.args else False
    if persisted:
        args += ['--persisted']
    types = ctx.pick('types', ((), ('a/*',), ('a/?', 'b'), ('?',)))
    args += types
    types = [tuple(i.split('/')) for i in types] or [('*', )]
    notified = [[event(ctx, f'n{i}_{j}', type_=(
        ctx.text(f'n{i}_{j}_t', ('a', 'b')), 'x')[:1 + (i + j) % 2])
        for j in range(n)] for i, n in enumerate(p.notify)]
    flags = [ctx.flag(f'n{i}_persisted') if p.args else False
             for i in range(len(notified))]
    end = ctx.pick('end', p.ends)
    steps = ctx.pick('steps', range(p.steps))

    async def during(loop, server, task):
        await loop.settle()
        for events, flag in zip(notified, flags):
            await server.notify_events(events, flag)
        if end == 'lost':
            await loop.settle()
            network_end = srv.network.ends[0][0]
            network_end.lose()
        elif end == 'close':
            await loop.settle()
            await server.async_close()
        else:
            if steps == 0:
                await loop.settle()
            await loop.steps(steps)
            task.cancel()
        await loop.settle()
        ctx.check(task.done(), 'command is finished')

    async def listen():
        from hat.drivers import chatter
        srv.network = chatter.connect.__self__
        return await srv.listen()

    status, out = manager(ctx, listen, during, args)
    ctx.check(status in (None, 0), f'status {status}')
    if end == 'cancel' and steps:
        ctx.check(len(out) <= len(notified), 'printed too much')
    got = []
    for i in out:
        ctx.check(isinstance(i, list) and len(i) > 0, 'printed document')
        got += i
    expected = []
    for events, flag in zip(notified, flags):
        if flag != persisted:
            continue
        for e in events:
            if server_id is not None and not ctx.eq(e.id.server, server_id):
                continue
            if lib.spec_any(ctx, e.type, types):
                expected.append(event_doc(e))
    if end == 'cancel' and steps:
        ctx.check(len(got) <= len(expected), 'printed events')
        expected = expected[:len(got)]
    ctx.check(len(got) == len(expected) and
              ctx.and_(*(same_json(ctx, a, b)
                         for a, b in zip(got, expected))),
              f'printed {len(got)} events, expected {len(expected)}')
    srv.verify(name, token, types, server_id, persisted)
    ctx.reach(end)
    if expected:
        ctx.reach('events')


# --- no server

def absent(ctx):
    command = ctx.pick('command', (
        ('register', '--payload-type', 'none', 'a'), ('query', 'latest'),
        ('subscribe',)))

    class No:
        async def async_close(self):
            pass

    async def server():
        return No()

    status, out = manager(ctx, server, None, command)
    ctx.check(status not in (None, 0) and not out, 'failure is reported')
    ctx.reach(command[0])


def jobs(tier):
    quick = tier == 'quick'
    base = dict(client=False, source=False, payloads=('json',),
                where=('stdin',), types=1, results=('ok',), k=1, times=False,
                args=True, notify=(1, 1), ends=('close',), steps=1)

    def job(name, f, bounds, require, **kw):
        return Job(name, f, {**base, **kw}, require=require, bounds=bounds)

    yield job('register', register, 'any client, source timestamp, type and '
              'result', ('ok', 'none', 'fail'), client=True, source=True,
              types=4, results=('ok', 'none', 'fail'))
    yield job('payload', register, 'any payload of any format from any file',
              ('ok', 'none', 'EventPayloadBinary', 'EventPayloadJson'),
              payloads=('default', 'json', 'yaml', 'toml', 'binary', 'none'),
              where=('stdin', 'file'))
    for kind in ('latest', 'timeseries', 'server'):
        yield job(f'query-{kind}', query, 'any arguments',
                  ('ok',), kind=kind, client=kind == 'latest',
                  results=('ok', 'fail') if kind != 'timeseries' else ('ok',),
                  k=1 if kind == 'latest' else 0)
    yield job('query-times', query, 'any interval', ('ok',),
              kind='timeseries', times=True, k=0)
    yield job('query-result', query, f'{2 if quick else 3} events', ('ok',),
              kind='latest', k=2 if quick else 3)
    yield job('subscribe', subscribe, 'any arguments, 2 notifications of one '
              'event, closing by server', ('close', 'lost', 'events'),
              ends=('close', 'lost'))
    yield job('interrupt', subscribe, 'interrupted at any of 8 steps after '
              '2 notifications', ('cancel', 'events'), ends=('cancel',),
              steps=8, args=False)
    yield job('absent', absent, 'server does not listen',
              ('register', 'query', 'subscribe'))
