import asyncio

from hat.drivers import chatter

from hat.event import common
from hat.event import eventer
from hat.event.eventer import common as ecommon

from pysym import simloop
from pysym.job import Job
from . import lib, net
from .c15_notify import ASSUMPTIONS as _A


ASSUMPTIONS = [*_A]


def register_events(ctx, name, n):
    return [common.RegisterEvent(
        type=(ctx.text(f'{name}_{i}_t', ['a', 'b', '']), 'x'),
        source_timestamp=(lib.timestamp(ctx, f'{name}_{i}_st', -1, 2 ** 40)
                          if i % 2 else None),
        payload=common.EventPayloadJson(name)) for i in range(n)]


def query_params(ctx, name):
    kind = ctx.pick(f'{name}_q', ['latest', 'timeseries', 'server'])
    if kind == 'latest':
        return common.QueryLatestParams([(name, '*')])
    if kind == 'server':
        return common.QueryServerParams(
            server_id=ctx.int(f'{name}_srv', 0, 2 ** 40),
            persisted=True,
            max_results=ctx.int(f'{name}_max', 0, 2 ** 20))
    return common.QueryTimeseriesParams(
        event_types=None,
        t_from=lib.timestamp(ctx, f'{name}_from', 0, 2 ** 40),
        order=common.Order.ASCENDING,
        max_results=ctx.int(f'{name}_max', 0, 2 ** 20))


class Req:

    def __init__(self, ctx, name, client, op, p):
        self.ctx = ctx
        self.name = name
        self.client = client
        self.op = op           # r - register, R - with response, q - query
        self.p = p
        self.sent = None
        self.result = None
        self.called = 0
        self.status = None
        if op == 'q':
            self.data = query_params(ctx, name)
        else:
            self.data = register_events(ctx, name, p.events)

    async def run(self, c):
        try:
            if self.op == 'q':
                r = await c.query(self.data)
            else:
                r = await c.register(self.data, self.op == 'R')
            self.status, self.value = 'ok', r
        except asyncio.CancelledError:
            self.status = 'cancelled'
        except ConnectionError:
            self.status = 'connection'
        except Exception as e:
            self.status = f'{type(e).__name__}: {e}'

    def respond(self):
        """Result of the request (decided once)"""
        ctx = self.ctx
        n = self.name
        self.called += 1
        if self.called > 1:
            return self.result
        if self.op == 'q':
            self.result = common.QueryResult(
                [self.event(i) for i in range(self.p.results)],
                ctx.bool(f'{n}_more'))
        elif self.p.none and ctx.flag(f'{n}_none'):
            self.result = None
        else:
            self.result = [self.event(i) for i in range(len(self.data))]
        return self.result

    def event(self, i):
        ctx = self.ctx
        n = f'{self.name}_res{i}'
        return common.Event(
            id=common.EventId(ctx.int(f'{n}_srv', 0, 2 ** 40),
                              ctx.int(f'{n}_ses', 0, 2 ** 40), i),
            type=('y', ctx.text(f'{n}_t', ['a', '?', ''])),
            timestamp=lib.timestamp(ctx, f'{n}_ts', 0, 2 ** 40),
            source_timestamp=None,
            payload=common.EventPayloadJson([self.name, i]))

    def same(self, data):
        """Request received by the server"""
        ctx = self.ctx
        if self.op == 'q':
            ctx.check(type(data) is type(self.data) and
                      ctx.eq(tuple(data), tuple(self.data)),
                      'parameters of query')
        else:
            ctx.check(len(data) == len(self.data), 'registered events')
            for a, b in zip(data, self.data):
                ctx.check(ctx.eq(a, b), 'registered event')

    def verify(self, finished):
        ctx = self.ctx
        ctx.check(self.status is not None, 'request never finished')
        if self.status == 'ok':
            if self.op == 'r':
                ctx.check(self.value is None, 'result without response')
                return
            ctx.check(self.called > 0, 'result out of nowhere')
            a, b = self.value, self.result
            if self.op == 'q':
                ctx.check(ctx.eq(a.more_follows, b.more_follows),
                          'more_follows')
                a, b = a.events, b.events
            if b is None:
                ctx.check(a is None, 'failed registration')
                ctx.reach('none')
                return
            ctx.check(a is not None, 'successful registration')
            a = list(a)
            ctx.check(len(a) == len(b), 'number of events in the result')
            for i, j in zip(a, b):
                ctx.check(ctx.eq(i, j), 'event in the result')
        else:
            ctx.check(not finished, f'request failed: {self.status}')
            ctx.check(self.status in ('connection', 'cancelled'),
                      f'wrong failure: {self.status}')


async def _pairs(ctx, loop, network):
    """Clients and server"""
    p = ctx.params
    reqs = []
    arrived = []
    names = {}
    gone = []
    ids = {}

    def key(data):
        if isinstance(data, list):
            return data[0].payload.data
        for r in reqs:
            # queries of single client are received in order
            if r.op == 'q' and not r.called:
                return r.name

    async def received(info, data, op):
        if op == 'q':
            # requests of a connection come in order
            todo = [r for r in reqs if r.client == names[info.client_name] and
                    r not in arrived and
                    (r.status != 'cancelled' or p.ops == 'qR')]
            r = todo[0]
            ctx.check(r.op == 'q', 'order of requests')
        else:
            data = list(data)
            r = [r for r in reqs if r.name == data[0].payload.data][0]
            ctx.check(r.op in 'rR', 'kind of request')
        ctx.check(names[info.client_name] == r.client, 'source of request')
        prev = ids.setdefault(info.client_name, info)
        ctx.check(prev is info, 'identity of client')
        ctx.check(r not in arrived, 'request received twice')
        ctx.check(all(i.client != r.client or reqs.index(i) < reqs.index(r)
                      for i in arrived), 'order of requests')
        arrived.append(r)
        r.same(data)
        for _ in range(p.slow):
            await asyncio.sleep(0)
        return r.respond()

    srv = await eventer.listen(
        net.ADDR,
        register_cb=lambda info, x: received(info, x, 'r'),
        query_cb=lambda info, x: received(info, x, 'q'),
        disconnected_cb=gone.append)
    clients = []
    for i in range(p.clients):
        names[f'client{i}'] = i
        clients.append(await eventer.connect(net.ADDR, f'client{i}'))
    tasks = []
    for k, op in enumerate(p.ops):
        c = k % p.clients
        if op == '?':
            op = ctx.pick(f'op{k}', 'rRq')
        r = Req(ctx, f'q{k}', c, op, p)
        reqs.append(r)
        tasks.append(loop.create_task(r.run(clients[c])))
        if p.gap:
            await loop.steps(ctx.pick(f'gap{k}', p.gap))
    event = None
    if p.events_at:
        n = ctx.pick('at', range(p.events_at))
        await loop.steps(n)
        event = ctx.pick('event', p.end)
        if event == 'client':
            clients[0].close()
        elif event == 'server':
            srv.close()
        elif event == 'lost':
            for end in network.ends[0]:
                end.lose()
        elif event == 'cancel':
            tasks[0].cancel()
            if reqs[0].status is None:
                reqs[0].status = 'cancelled'
        await loop.settle()
        for r in reqs:
            if event == 'cancel':
                ok = r is not reqs[0]
            elif event == 'server':
                ok = False
            else:
                ok = r.client != 0
            r.verify(ok)
        ctx.reach(event)
    else:
        await loop.settle()
        for r in reqs:
            r.verify(True)
            ctx.check(r in arrived, 'request not received')
    for i, c in enumerate(clients):
        closed = (event == 'server' or
                  (event in ('client', 'lost') and i == 0))
        ctx.check(c.is_closed == closed, 'state of client')
        if closed:
            x = Req(ctx, f'late{i}', i, 'R', p)
            await x.run(c)
            ctx.check(x.status == 'connection', 'request after closing')
    ctx.check(len(gone) == sum(c.is_closed for c in clients),
              'disconnected clients')
    await srv.async_close()
    await loop.settle()
    ctx.check(all(c.is_closed for c in clients), 'clients not closed')
    ctx.check(len(gone) == len(clients), 'disconnected clients')
    ctx.reach('end')


async def _client(ctx, loop, network):
    """Client with arbitrary (correct) server"""
    p = ctx.params
    received = []

    async def on_connection(conn):
        while True:
            msg, t, data = await ecommon.receive_msg(conn)
            if t == 'HatEventer.MsgInitReq':
                ctx.check(not msg.last, 'initialization expects response')
                await ecommon.send_msg(
                    conn, 'HatEventer.MsgInitRes',
                    ('success', ecommon.status_to_sbs(
                        common.Status.OPERATIONAL)), conv=msg.conv)
            else:
                received.append((msg, t, data))

    srv = await chatter.listen(on_connection, net.ADDR)
    client = await eventer.connect(net.ADDR, 'client')
    ctx.check(client.status == common.Status.OPERATIONAL, 'status')
    reqs = []
    tasks = []
    for k, op in enumerate(p.ops):
        if op == '?':
            op = ctx.pick(f'op{k}', 'Rq')
        r = Req(ctx, f'q{k}', 0, op, p)
        reqs.append(r)
        tasks.append(loop.create_task(r.run(client)))
        await loop.settle()
    ctx.check(len(received) == len(reqs), 'requests')
    conn = network.accepted[0]

    async def respond(i):
        msg, t, data = received[i]
        r = reqs[i]
        if r.op == 'q':
            ctx.check(t == 'HatEventer.MsgQueryReq' and not msg.last,
                      'query request')
            r.same(ecommon.query_params_from_sbs(data))
            out = ecommon.query_result_to_sbs(r.respond())
            t = 'HatEventer.MsgQueryRes'
        else:
            ctx.check(t == 'HatEventer.MsgRegisterReq' and
                      msg.last == (r.op == 'r'), 'register request')
            r.same([ecommon.register_event_from_sbs(j) for j in data])
            if r.op == 'r':
                return
            x = r.respond()
            out = (('failure', None) if x is None else
                   ('events', [ecommon.event_to_sbs(j) for j in x]))
            t = 'HatEventer.MsgRegisterRes'
        await ecommon.send_msg(conn, t, out, conv=msg.conv)

    cancelled = None
    if p.cancel:
        cancelled = ctx.pick('cancel', range(-1, len(reqs)))
        if cancelled >= 0:
            tasks[cancelled].cancel()
    # responses in arbitrary order, possibly repeated
    todo = list(range(len(reqs)))
    while todo:
        i = ctx.pick(f'next{len(todo)}', todo)
        todo.remove(i)
        await respond(i)
        if p.repeat and ctx.flag(f'again{len(todo)}'):
            await respond(i)
        await loop.settle()
        for j, r in enumerate(reqs):
            if r.op == 'r':
                continue
            if j in todo:
                ctx.check(r.status is None or j == cancelled,
                          'result before response')
            elif j != cancelled:
                r.verify(True)
    ctx.check(client.is_open, 'client closed')
    r = Req(ctx, 'last', 0, 'R', p)
    t = loop.create_task(r.run(client))
    await loop.settle()
    client.close()
    await loop.settle()
    r.verify(False)
    ctx.check(r.status == 'connection', 'pending request of closed client')
    await srv.async_close()
    ctx.reach('end')
    ctx.reach('none')
    del t


async def _server(ctx, loop, network):
    """Server with arbitrary client"""
    p = ctx.params
    log = []
    mode = ctx.pick('connected', ['none', 'ok', 'error'])
    handlers = ctx.pick('handlers', ['ok', 'none', 'error'])

    async def connected(info):
        log.append(('connected', info))
        if mode == 'error':
            raise Exception('refused')

    reqs = {}

    async def on_register(info, events):
        log.append(('register', info))
        if handlers == 'error':
            raise Exception('not registered')
        return [common.Event(
            id=common.EventId(1, 2, i), type=e.type,
            timestamp=common.Timestamp(1, 2), source_timestamp=None,
            payload=None) for i, e in enumerate(events)]

    def on_query(info, params):
        if handlers == 'error':
            raise Exception('not queried')
        return common.QueryResult([], True)

    srv = await eventer.listen(
        net.ADDR, status=common.Status.STARTING,
        connected_cb=connected if mode != 'none' else None,
        register_cb=on_register if handlers != 'none' else None,
        query_cb=on_query if handlers != 'none' else None,
        disconnected_cb=lambda info: log.append(('disconnected', info)))
    conn = await chatter.connect(net.ADDR)
    got = []

    async def receive():
        while True:
            got.append(await ecommon.receive_msg(conn))

    task = loop.create_task(receive())
    first = ctx.pick('first', ['init', 'register', 'query', 'ack'])
    sub = ctx.text('sub', ['?', '*', 'a'])
    init = {'clientName': 'x', 'clientToken': ('value', 'token'),
            'subscriptions': [[sub]], 'serverId': ('none', None),
            'persisted': False}
    events = register_events(ctx, 'e', 2)
    reg = [ecommon.register_event_to_sbs(e) for e in events]
    q = ecommon.query_params_to_sbs(common.QueryLatestParams())
    msgs = {'init': ('HatEventer.MsgInitReq', init),
            'register': ('HatEventer.MsgRegisterReq', reg),
            'query': ('HatEventer.MsgQueryReq', q),
            'ack': ('HatEventer.MsgEventsAck', None),
            'other': ('HatEventer.MsgStatusNotify',
                      ecommon.status_to_sbs(common.Status.STANDBY))}
    conv = await ecommon.send_msg(conn, *msgs[first], last=False)
    await loop.settle()
    if first != 'init':
        ctx.check(not got and not log, 'client not initialized')
        ctx.check(conn.is_closed, 'connection without initialization')
        ctx.reach('rejected')
        await srv.async_close()
        ctx.reach('end')
        return
    ctx.check(len(got) == 1 and got[0][1] == 'HatEventer.MsgInitRes' and
              got[0][0].conv == conv, 'init response')
    if mode == 'error':
        ctx.check(got[0][2][0] == 'error', 'refused client')
        ctx.check(not srv.get_conn_infos(), 'refused client registered')
        await srv.notify_events([common.Event(
            common.EventId(1, 1, 1), ('a',), common.Timestamp(1, 1), None,
            None)], False)
        await srv.set_status(common.Status.OPERATIONAL)
        await asyncio.sleep(10)
        ctx.check(len(got) == 1, 'messages to refused client')
        ctx.check(conn.is_closed, 'connection of refused client')
        ctx.check([i[0] for i in log] == ['connected'], 'callbacks')
        await srv.async_close()
        ctx.reach('end')
        return
    ctx.check(got[0][2][0] == 'success' and
              ecommon.status_from_sbs(got[0][2][1]) == common.Status.STARTING,
              'initial status')
    info = srv.get_conn_infos()
    ctx.check(len(info) == 1 and info[0].client_name == 'x' and
              info[0].client_token == 'token' and info[0].server_id is None,
              'connection info')
    del got[:]
    closed = False
    expected = []
    calls = 0
    for k in range(p.k):
        m = ctx.pick(f'm{k}', ['register', 'query', 'ack', 'init', 'other'])
        last = ctx.flag(f'last{k}') if m == 'register' else False
        conv = await ecommon.send_msg(conn, *msgs[m], last=last)
        await loop.settle()
        calls += m == 'register' and handlers != 'none'
        if m in ('init', 'other') or (m != 'ack' and handlers == 'error'):
            closed = True
            break
        if m == 'register':
            if not last:
                expected.append(('HatEventer.MsgRegisterRes', conv))
        elif m == 'query':
            expected.append(('HatEventer.MsgQueryRes', conv))
        ctx.check([(t, msg.conv) for msg, t, _ in got] == expected,
                  'responses')
        if m == 'register' and not last:
            d = got[-1][2]
            if handlers == 'none':
                ctx.check(d[0] == 'failure', 'events out of nowhere')
                continue
            ctx.check(d[0] == 'events' and len(d[1]) == 2, 'response')
            for a, b in zip(d[1], events):
                ctx.check(ctx.eq(ecommon.event_from_sbs(a).type, b.type),
                          'event in the response')
        if m == 'query':
            d = got[-1][2]
            ctx.check(d['moreFollows'] == (handlers == 'ok') and
                      not d['events'], 'query response')
    ctx.check(len([i for i in log if i[0] == 'register']) == calls,
              'registrations')
    ctx.check(conn.is_closed == closed, 'connection')
    conn.close()
    await loop.settle()
    ctx.check([i[1].id for i in log if i[0] == 'disconnected'] ==
              [info[0].id], 'disconnected')
    ctx.check(not srv.get_conn_infos(), 'closed connection registered')
    await srv.async_close()
    ctx.reach('end')
    del task, reqs


async def _client_end(ctx, loop, network):
    """Connection ends together with messages of the server"""
    p = ctx.params
    received = []
    init = ctx.pick('init', ['success', 'error', 'type', 'conv', 'close']
                    if p.init else ['success'])
    ok = ('success', ecommon.status_to_sbs(common.Status.STARTING))

    async def on_connection(conn):
        while True:
            msg, t, data = await ecommon.receive_msg(conn)
            if t != 'HatEventer.MsgInitReq':
                received.append((msg, t, data))
            elif init == 'close':
                conn.close()
            elif init == 'conv':
                await ecommon.send_msg(conn, 'HatEventer.MsgInitRes', ok)
            elif init == 'type':
                await ecommon.send_msg(
                    conn, 'HatEventer.MsgStatusNotify', ok[1], conv=msg.conv)
            else:
                await ecommon.send_msg(
                    conn, 'HatEventer.MsgInitRes',
                    ok if init == 'success' else ('error', 'refused'),
                    conv=msg.conv)

    srv = await chatter.listen(on_connection, net.ADDR)
    log = []
    kw = {}
    if not p.init and ctx.flag('callbacks'):
        kw = dict(status_cb=lambda c, s: log.append(s),
                  events_cb=lambda c, e: log.append(list(e)))
    client = None
    try:
        client = await eventer.connect(net.ADDR, 'client', **kw)
        status = 'success'
    except eventer.EventerInitError as e:
        status = 'error'
        ctx.check('refused' in str(e), 'reason of refusal')
    except Exception:
        status = 'failed'
    ctx.check(status == (init if init in ('success', 'error') else 'failed'),
              f'{init} initialization: {status}')
    if not client:
        await loop.settle()
        ctx.check(network.ends[0][0].is_closed, 'connection not closed')
        await srv.async_close()
        ctx.reach('refused')
        ctx.reach('end')
        return
    conn = network.accepted[0]
    reqs = [Req(ctx, f'q{k}', 0, ctx.pick(f'op{k}', 'Rq') if op == '?' else op,
                p) for k, op in enumerate(p.ops)]
    tasks = []
    for r in reqs:
        tasks.append(loop.create_task(r.run(client)))
        await loop.settle()
    end = network.ends[0][0]
    end.hold = True
    n = ctx.pick('n', range(p.msgs + 1))
    responded = []
    expected = []
    bad = False
    for k in range(n):
        m = ctx.pick(f'm{k}', ['response', 'status', 'events', 'bad'])
        if m == 'response':
            i = ctx.pick(f'i{k}', range(len(reqs)))
            r = reqs[i]
            msg, t, data = received[i]
            if r.op == 'q':
                t = 'HatEventer.MsgQueryRes'
                out = ecommon.query_result_to_sbs(r.respond())
            else:
                t = 'HatEventer.MsgRegisterRes'
                out = ('events', [ecommon.event_to_sbs(j)
                                  for j in r.respond()])
            await ecommon.send_msg(conn, t, out, conv=msg.conv)
            if not bad:
                responded.append(r)
        elif m == 'status':
            await ecommon.send_msg(
                conn, 'HatEventer.MsgStatusNotify',
                ecommon.status_to_sbs(common.Status.OPERATIONAL))
            if not bad:
                expected.append(common.Status.OPERATIONAL)
        elif m == 'events':
            e = reqs[0].event(10 + k)
            await ecommon.send_msg(
                conn, 'HatEventer.MsgEventsNotify',
                [ecommon.event_to_sbs(e)], last=ctx.flag(f'last{k}'))
            if not bad:
                expected.append([e])
        else:
            bad = True
            msg = ctx.pick(f'bad{k}', [
                ('HatEventer.MsgInitRes', ok),
                ('HatEventer.MsgEventsAck', None),
                ('HatEventer.MsgQueryReq', ecommon.query_params_to_sbs(
                    common.QueryServerParams(1)))])
            await ecommon.send_msg(conn, *msg)
    how = ctx.pick('how', ['open', 'server', 'client'])
    if how == 'server':
        conn.close()
    await loop.settle()
    end.release()
    if how == 'client':
        await loop.steps(ctx.pick('close_at', range(p.steps)))
        client.close()
    late = Req(ctx, 'late', 0, 'R', p)
    await loop.steps(ctx.pick('late_at', range(p.steps)))
    task = loop.create_task(late.run(client))
    await loop.settle()
    closed = bad or how != 'open'
    ctx.check(client.is_closed == closed,
              'client closed' if client.is_closed else 'client not closed')
    if closed:
        ctx.check(network.ends[0][0].is_closed, 'connection not closed')
        ctx.check(late.status == 'connection', 'request while closing')
        for r in reqs:
            ctx.check(r.status is not None, 'pending request')
            r.verify(r in responded and how == 'open')
    else:
        for r in reqs:
            if r in responded:
                r.verify(True)
            else:
                ctx.check(r.status is None,
                          f'result before response: {r.status}')
        ctx.check(late.status is None, f'result before response {late.status}')
    if kw:
        if how != 'open':
            # end of the client may come before all is processed
            expected = expected[:len(log)]
        ctx.check(len(log) == len(expected), 'notifications')
        for a, b in zip(log, expected):
            ctx.check(a is b if isinstance(b, common.Status)
                      else isinstance(a, list) and ctx.eq(a, b),
                      'notification')
        if (common.Status.OPERATIONAL in log):
            ctx.check(client.status == common.Status.OPERATIONAL, 'status')
    ctx.reach(how)
    if bad:
        ctx.reach('bad')
    client.close()
    await srv.async_close()
    await loop.settle()
    for r in [*reqs, late]:
        ctx.check(r.status is not None, 'pending request')
    ctx.reach('end')
    del task, tasks


def _run(f):
    def run(ctx):
        async def main(ctx, loop):
            with net.installed() as network:
                await f(ctx, loop, network)
        simloop.run(ctx, main)
    return run


pairs = _run(_pairs)
client = _run(_client)
client_end = _run(_client_end)
server = _run(_server)


def jobs(tier):
    quick = tier == 'quick'
    base = dict(clients=1, ops='???', events=1, results=1, none=True, slow=0,
                gap=(), events_at=0, end=(), cancel=False, repeat=False, init=False,
                msgs=2 if quick else 3, steps=4 if quick else 8)

    def job(name, f, bounds, require=(), **kw):
        return Job(name, f, {**base, **kw}, require=('end', *require),
                   bounds=bounds)

    yield job('requests', pairs, '3 concurrent requests of 1 client',
              require=('none',), events=2)
    yield job('requests2', pairs, '4 requests of 2 clients', clients=2,
              ops='?R?q', slow=2, none=False)
    yield job('closing', pairs, '3 requests of 2 clients, client or server '
              'closed or connection lost at any moment', clients=2,
              ops='R?R', none=False, slow=2, events_at=26,
              end=('client', 'server', 'lost'),
              require=('client', 'server', 'lost'))
    yield job('cancel', pairs, '3 requests, first one cancelled at any '
              'moment', ops='R?q', none=False, slow=1, events_at=16,
              end=('cancel',), require=('cancel',))
    yield job('cancel-query', pairs, '2 requests, query cancelled at any '
              'moment', ops='qR', none=False, slow=1, events_at=16,
              end=('cancel',), require=('cancel',))
    yield job('responses', client, '3 concurrent requests, responses in '
              'any order, possibly repeated', ops='?R?', repeat=True,
              none=False, cancel=True)
    yield job('responses-none', client, '2 concurrent requests, failures',
              ops='R?', repeat=True)
    yield job('initialization', client_end, 'all responses to '
              'initialization', ops='', init=True, msgs=0, none=False,
              require=('refused',))
    yield job('ending', client_end, '2 pending requests, up to 2 messages '
              'of the server together with end of connection', ops='R?',
              none=False,
              require=('open', 'server', 'client', 'bad'))
    yield job('protocol', server, 'up to 3 arbitrary messages of client',
              k=3 if quick else 4, require=('rejected',))
    if not quick:
        yield job('closing3', pairs, '4 requests of 2 clients', clients=2,
                  ops='????', none=False, slow=3, events_at=40,
                  end=('client', 'server', 'lost'))
        yield job('responses4', client, '4 concurrent requests',
                  ops='R?q?', repeat=True, none=False, cancel=True)
        yield job('requests-gap', pairs, '4 requests of 2 clients',
                  clients=2, ops='????', gap=(0, 2, 5), slow=2, events=2,
                  results=2)
