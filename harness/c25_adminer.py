import asyncio
import logging
import logging.config
import types

from hat.drivers import chatter

from hat.event import adminer
from hat.event.adminer import common
from hat.event.server import adminer_server

from pysym import simloop
from pysym.job import Job
from . import lib, net
from .c15_notify import ASSUMPTIONS as _A


ASSUMPTIONS = [
    *_A,
    "logging.config.dictConfig is a stand-in which remembers accepted "
    "configurations or raises ValueError"]


def conf_data(ctx, name):
    return {'version': ctx.int(f'{name}_v', 0, 2 ** 40),
            'x': [name, ctx.text(f'{name}_x', lib.SEGS), None]}


class Req:

    def __init__(self, ctx, name, client, op):
        self.ctx = ctx
        self.name = name
        self.client = client
        self.op = op             # g - get, s - set
        self.status = None
        self.arrived = 0
        self.result = None       # ('ok', value) or ('error', text)
        self.data = conf_data(ctx, name) if op == 's' else None

    async def run(self, c):
        try:
            if self.op == 'g':
                self.value = await c.get_log_conf()
            else:
                self.value = await c.set_log_conf(self.data)
            self.status = 'ok'
        except asyncio.CancelledError:
            self.status = 'cancelled'
        except ConnectionError:
            self.status = 'connection'
        except adminer.AdminerError as e:
            self.status = 'error'
            self.value = str(e)
        except Exception as e:
            self.status = f'{type(e).__name__}: {e}'

    def respond(self):
        ctx = self.ctx
        if ctx.flag(f'{self.name}_fail'):
            # an error without text, too
            self.result = 'error', ('' if self.name.endswith('1') else
                                    f'failed {self.name}')
        elif self.op == 'g':
            self.result = 'ok', conf_data(ctx, self.name)
        else:
            self.result = 'ok', None
        return self.result

    def verify(self, must):
        ctx = self.ctx
        ctx.check(self.status is not None, 'request never finished')
        if self.status in ('ok', 'error'):
            ctx.check(self.result is not None, 'result out of nowhere')
            ctx.check(self.status == self.result[0], 'kind of result')
            ctx.check(same(ctx, self.value, self.result[1]), 'result')
            ctx.reach(self.status)
        else:
            ctx.check(not must, f'request failed: {self.status}')
            ctx.check(self.status in ('connection', 'cancelled'),
                      f'wrong failure: {self.status}')


def same(ctx, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and ctx.and_(*(same(ctx, a[k], b[k])
                                                   for k in a))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and ctx.and_(*(same(ctx, i, j)
                                               for i, j in zip(a, b)))
    return ctx.eq(a, b)


async def _pairs(ctx, loop, network):
    """Clients and server with arbitrary callbacks"""
    p = ctx.params
    reqs = []

    async def on_request(op, data):
        todo = [r for r in reqs if not r.arrived and r.op == op and
                (op == 'g' or r.name == data['x'][0])]
        ctx.check(todo, 'request out of nowhere')
        r = todo[0]
        r.arrived += 1
        if op == 's':
            ctx.check(same(ctx, data, r.data), 'configuration')
        for _ in range(p.slow):
            await asyncio.sleep(0)
        kind, value = r.respond()
        if kind == 'error':
            raise Exception(value)
        return value

    async def get():
        return await on_request('g', None)

    async def set_(conf):
        await on_request('s', conf)

    has = ctx.flag('callbacks') if p.none else True
    srv = await adminer.listen(net.ADDR, get_log_conf_cb=get if has else None,
                               set_log_conf_cb=set_ if has else None)
    clients = [await adminer.connect(net.ADDR) for _ in range(p.clients)]
    tasks = []
    gets = 0
    for k, op in enumerate(p.ops):
        c = k % p.clients
        if op == '?':
            # at most one get request waits at a time in case of more
            # clients, so that requests can be told apart
            op = ctx.pick(f'op{k}', 'gs' if not gets or p.clients == 1
                          else 's')
        gets += op == 'g'
        r = Req(ctx, f'q{k}', c, op)
        reqs.append(r)
        tasks.append(loop.create_task(r.run(clients[c])))
        if p.gap:
            await loop.steps(ctx.pick(f'gap{k}', p.gap))
    if not has:
        await loop.settle()
        for r in reqs:
            ctx.check(r.status == 'error' and r.value == 'not implemented',
                      'missing callback')
        ctx.reach('missing')
        await srv.async_close()
        ctx.reach('end')
        return
    event = None
    if p.end:
        await loop.steps(ctx.pick('at', range(p.at)))
        event = ctx.pick('event', p.end)
        if event == 'client':
            clients[0].close()
        elif event == 'server':
            srv.close()
        elif event == 'lost':
            for e in network.ends[0]:
                e.lose()
        elif event == 'cancel':
            done = reqs[0].status is not None
            tasks[0].cancel()
            if not done:
                reqs[0].status = 'cancelled'
    await loop.settle()
    for r in reqs:
        must = (event is None or
                (event == 'cancel' and r is not reqs[0]) or
                (event in ('client', 'lost') and r.client != 0))
        r.verify(must)
    if event:
        ctx.reach(event)
    for i, c in enumerate(clients):
        closed = event == 'server' or (event in ('client', 'lost') and i == 0)
        ctx.check(c.is_closed == closed, 'state of client')
        for r in reqs:
            r.arrived += 1
        x = Req(ctx, f'late{i}', i, 'g')
        reqs.append(x)
        await x.run(c)
        x.verify(not closed)
        if closed:
            ctx.check(x.status == 'connection', 'request after closing')
    await srv.async_close()
    await loop.settle()
    ctx.check(all(c.is_closed for c in clients), 'clients not closed')
    ctx.reach('end')


async def _client(ctx, loop, network):
    """Client with arbitrary server; responses in any order"""
    p = ctx.params
    received = []

    async def on_connection(conn):
        while True:
            received.append(await common.receive_msg(conn))

    srv = await chatter.listen(on_connection, net.ADDR)
    client = await adminer.connect(net.ADDR)
    reqs = []
    tasks = []
    for k, op in enumerate(p.ops):
        if op == '?':
            op = ctx.pick(f'op{k}', 'gs')
        r = Req(ctx, f'q{k}', 0, op)
        reqs.append(r)
        tasks.append(loop.create_task(r.run(client)))
        await loop.settle()
    ctx.check(len(received) == len(reqs), 'requests')
    conn = network.accepted[0]

    async def respond(i):
        msg, t, data = received[i]
        r = reqs[i]
        ctx.check(t == {'g': 'HatEventAdminer.MsgGetLogConfReq',
                        's': 'HatEventAdminer.MsgSetLogConfReq'}[r.op] and
                  not msg.last, 'request')
        if not r.arrived and r.op == 's':
            ctx.check(same(ctx, common_json().decode(data), r.data),
                      'configuration')
        r.arrived += 1
        kind, value = r.result or r.respond()
        if kind == 'ok' and r.op == 'g':
            value = common_json().encode(value)
        await common.send_msg(
            conn, t[:-1] + 's', ('success' if kind == 'ok' else 'error',
                                 value), conv=msg.conv)

    cancelled = ctx.pick('cancel', range(-1, len(reqs)))
    if cancelled >= 0:
        tasks[cancelled].cancel()
    todo = list(range(len(reqs)))
    while todo:
        i = ctx.pick(f'next{len(todo)}', todo)
        todo.remove(i)
        await respond(i)
        if ctx.flag(f'again{len(todo)}'):
            await respond(i)
        await loop.settle()
        for j, r in enumerate(reqs):
            if j in todo:
                ctx.check(r.status is None or j == cancelled,
                          'result before response')
            elif j != cancelled:
                r.verify(True)
    ctx.check(client.is_open, 'client closed')
    # end of connection while requests are pending
    last = [Req(ctx, f'last{i}', 0, 'g') for i in range(2)]
    t = []
    for r in last:
        t.append(loop.create_task(r.run(client)))
        await loop.settle()
    convs = [i[0].conv for i in received[-2:]]
    end = ctx.pick('end', ('close', 'wrong', 'server', 'lost'))
    # single response, received together with the end
    answered = ctx.pick('answered', (None, 0, 1))
    if answered is not None:
        other = network.ends[0][0]
        other.hold = True
        kind, value = last[answered].respond()
        await common.send_msg(
            conn, 'HatEventAdminer.MsgGetLogConfRes',
            ('success', common_json().encode(value)) if kind == 'ok' else
            ('error', value), conv=convs[answered])
        await loop.settle()
    wrong = 0
    if end == 'wrong':
        wrong = ctx.pick('wrong', [i for i in range(2) if i != answered])
        await common.send_msg(conn, 'HatEventAdminer.MsgSetLogConfRes',
                              ('success', None), conv=convs[wrong])
    elif end == 'server':
        conn.close()
    if answered is not None:
        if end in ('wrong', 'server'):
            await loop.settle()
        other.release()
    if end == 'close':
        client.close()
    elif end == 'lost':
        for e in network.ends[0]:
            e.lose()
    await loop.settle()
    for i, r in enumerate(last):
        r.verify(False)
        ctx.check(r.status == 'connection' or i == answered,
                  'pending request of closed client')
    ctx.check(client.is_closed, 'client not closed')
    ctx.reach(end)
    await srv.async_close()
    ctx.reach('end')
    del t


def common_json():
    from hat import json
    return json


class Logging(types.ModuleType):
    """Stand-in for logging.config"""

    def __init__(self):
        super().__init__('config')
        self.accepted = []
        self.decide = None

    def dictConfig(self, conf):
        if not self.decide():
            raise ValueError('invalid configuration')
        self.accepted.append(conf)


async def _adminer(ctx, loop, network):
    """Adminer server: last successfully set configuration"""
    p = ctx.params
    current = conf_data(ctx, 'init')
    log = Logging()
    old = logging.config
    logging.config = log
    try:
        srv = await adminer_server.create_adminer_server(net.ADDR, current)
        clients = [await adminer.connect(net.ADDR) for _ in range(2)]
        for k in range(p.k):
            c = clients[ctx.pick(f'c{k}', (0, 1))]
            if ctx.pick(f'op{k}', 'gs') == 'g':
                ctx.check(same(ctx, await c.get_log_conf(), current),
                          'current configuration')
                continue
            ok = ctx.flag(f'ok{k}')
            log.decide = lambda: ok
            data = conf_data(ctx, f'q{k}')
            n = len(log.accepted)
            try:
                await c.set_log_conf(data)
                ctx.check(ok, 'invalid configuration accepted')
                ctx.check(len(log.accepted) == n + 1 and
                          same(ctx, log.accepted[-1], data), 'applied')
                current = data
            except adminer.AdminerError as e:
                ctx.check(not ok and str(e) == 'invalid configuration',
                          'configuration rejected')
                ctx.reach('rejected')
        for c in clients:
            ctx.check(c.is_open, 'client')
            ctx.check(same(ctx, await c.get_log_conf(), current),
                      'current configuration')
        await srv.async_close()
        await loop.settle()
        ctx.check(all(c.is_closed for c in clients), 'client not closed')
        ctx.check(srv.is_closed, 'server not closed')
    finally:
        logging.config = old
    ctx.reach('end')


async def _server(ctx, loop, network):
    """Client which does not follow the protocol does not affect others"""
    conf = conf_data(ctx, 'conf')
    srv = await adminer.listen(net.ADDR, get_log_conf_cb=lambda: conf)
    client = await adminer.connect(net.ADDR)
    conn = await chatter.connect(net.ADDR)
    kind = ctx.pick('kind', ('res', 'text', 'lost', 'ok'))
    if kind == 'res':
        await common.send_msg(conn, 'HatEventAdminer.MsgSetLogConfRes',
                              ('success', None))
    elif kind == 'text':
        await common.send_msg(conn, 'HatEventAdminer.MsgSetLogConfReq',
                              'not json')
    elif kind == 'lost':
        network.ends[1][0].lose()
    else:
        await common.send_msg(conn, 'HatEventAdminer.MsgGetLogConfReq', None,
                              last=False)
    await loop.settle()
    ctx.check(conn.is_closed == (kind in ('res', 'lost')), 'connection')
    if conn.is_open:
        msg, t, data = await common.receive_msg(conn)
        ctx.check(data[0] == ('error' if kind == 'text' else 'success'),
                  'response')
    ctx.check(same(ctx, await client.get_log_conf(), conf), 'other client')
    await srv.async_close()
    ctx.reach(kind)
    ctx.reach('end')


def _run(f):
    def run(ctx):
        async def main(ctx, loop):
            with net.installed() as network:
                await f(ctx, loop, network)
        simloop.run(ctx, main)
    return run


pairs = _run(_pairs)
client = _run(_client)
admin = _run(_adminer)
server = _run(_server)


def jobs(tier):
    quick = tier == 'quick'
    base = dict(clients=1, ops='???', slow=0, gap=(), at=0, end=(),
                none=False)

    def job(name, f, bounds, require=(), **kw):
        return Job(name, f, {**base, **kw}, require=('end', *require),
                   bounds=bounds)

    both = ('ok', 'error')
    yield job('requests', pairs, '3 concurrent requests of 1 client', both)
    yield job('clients', pairs, '3 concurrent requests of 2 clients', both,
              clients=2, slow=2, gap=(0, 1, 3))
    yield job('missing', pairs, '2 requests, callbacks not given',
              ('missing',), ops='??', none=True)
    yield job('end', pairs, '2 requests of 2 clients; client or server '
              'closed, connection lost or request cancelled at any moment',
              ('client', 'server', 'lost', 'cancel'), ops='??' if quick
              else '???', clients=2, slow=2, at=18,
              end=('client', 'server', 'lost', 'cancel'))
    yield job('responses', client, 'concurrent requests, responses in any '
              'order, possibly repeated, one request cancelled', both,
              ops='??' if quick else '???')
    yield job('server', admin, 'up to 3 requests of 2 clients to adminer '
              'server', ('rejected',), k=3 if quick else 4)
    yield job('protocol', server, 'one arbitrary message of another client',
              ('res', 'text', 'lost', 'ok'))
