import asyncio

from hat import aio

from hat.event import common
from hat.event import eventer
from hat.event.server import eventer_server as _es

from pysym import simloop
from pysym.job import Job
from . import net, fakes
from .c15_notify import ASSUMPTIONS as _A
from .c16_requests import query_params, register_events


ASSUMPTIONS = [*_A, "engine is arbitrary: time it takes to register events, "
               "failure, closing"]


class Engine(common.Engine):

    def __init__(self, r):
        self.r = r
        self._group = aio.Group()
        self.log = []        # (source, events)

    @property
    def async_group(self):
        return self._group

    @property
    def server_id(self):
        return self.r.server_id

    async def register(self, source, events):
        events = list(events)
        self.log.append((source, events))
        self.r.log.append((self, source, events))
        for _ in range(self.r.p.slow):
            await asyncio.sleep(0)
        if not self.is_open:
            raise Exception('engine closed')
        if self.r.result is None:
            return None
        return [common.Event(
            id=common.EventId(self.r.server_id, len(self.log), i + 1),
            type=e.type, timestamp=common.Timestamp(len(self.log), 0),
            source_timestamp=e.source_timestamp, payload=e.payload)
            for i, e in enumerate(events)]

    async def query(self, params):
        raise NotImplementedError()

    def get_client_names(self):
        return []

    def restart(self):
        pass

    def reset_monitor_ready(self):
        pass


class Run:
    pass


async def _server(ctx, loop, network):
    p = ctx.params
    S = common.Status
    r = Run()
    r.p = p
    r.log = []
    r.server_id = ctx.pick('server_id', [0, 12]) if p.ids else 3
    r.result = ctx.pick('result', [True, None]) if p.ids else True
    backend = fakes.Backend()
    params = []

    more = []

    def on_query(x):
        params.append(x)
        more.append(ctx.bool(f'more{len(params)}'))
        return common.QueryResult([], more[-1])

    backend.on_query = on_query
    token = ctx.pick('token', [None, 'a']) if p.tokens else None
    srv = await _es.create_eventer_server(
        net.ADDR, backend, r.server_id, server_token=token)
    state = {'status': S.STANDBY, 'engine': None}
    clients = []
    sources = {}           # client index -> source

    async def set_status(status):
        engine = Engine(r) if status == S.OPERATIONAL else None
        state['status'], state['engine'] = status, engine
        await srv.set_status(status, engine)

    def connected():
        return [i for i, (c, ok) in enumerate(clients) if c and c.is_open]

    for k, op in enumerate(p.ops):
        if op == '?':
            op = ctx.pick(f'op{k}', p.choice)
        engine = state['engine']
        alive = engine is not None and engine.is_open
        n = len(r.log)
        if op == 'o':
            await set_status(S.OPERATIONAL)
        elif op == 'S':
            await set_status(ctx.pick(f'status{k}',
                                      [S.STANDBY, S.STARTING, S.STOPPING]))
        elif op == 'c':
            i = len(clients)
            t = (ctx.pick(f'token{i}', [None, 'a', 'b', '']) if p.tokens
                 else None)
            try:
                c = await eventer.connect(net.ADDR, f'n{i}', client_token=t)
            except eventer.EventerInitError:
                c = None
            ok = t is None or t == token
            ctx.check((c is not None) == ok, 'check of client token')
            clients.append((c, ok))
            if not ok:
                ctx.reach('refused')
                ctx.check(len(r.log) == n, 'refused client registered')
            elif alive:
                ctx.check(len(r.log) == n + 1,
                          'CONNECTED not registered before connection')
                check_event(ctx, r, r.log[n], engine, f'n{i}', 'CONNECTED')
                sources[i] = r.log[n][1]
            else:
                ctx.check(len(r.log) == n, 'registered without engine')
            if c:
                ctx.check(c.status == state['status'], 'initial status')
        elif op == 'e':
            if alive:
                engine.close()
        elif op in 'rqx' and connected():
            i = ctx.pick(f'who{k}', connected())
            c = clients[i][0]
            if op == 'x':
                c.close()
                await loop.settle()
                if alive:
                    ctx.check(len(r.log) == n + 1, 'DISCONNECTED')
                    check_event(ctx, r, r.log[n], engine, f'n{i}',
                                'DISCONNECTED')
                    same_source(ctx, sources, i, r.log[n][1])
                else:
                    ctx.check(len(r.log) == n, 'registered without engine')
            elif op == 'q':
                q = query_params(ctx, f'q{k}')
                m = len(params)
                res = await c.query(q)
                ctx.check(len(params) == m + 1 and
                          type(params[m]) is type(q) and
                          ctx.eq(tuple(params[m]), tuple(q)), 'query')
                ctx.check(ctx.eq(res.more_follows, more[m]),
                          'query result')
            else:
                count = ctx.pick(f'count{k}', p.counts)
                events = register_events(ctx, f'r{k}', count)
                try:
                    res = await c.register(events, True)
                except ConnectionError:
                    res = 'closed'
                await loop.settle()
                if engine is None:
                    ctx.check(res is None and len(r.log) == n,
                              'registered without engine')
                    ctx.reach('failure')
                elif not alive:
                    ctx.check(res in (None, 'closed'),
                              'registered with closed engine')
                elif not count and len(r.log) == n:
                    # nothing to be registered
                    ctx.check(res is not None and res != 'closed' and
                              len(res) == 0, 'result without events')
                    ctx.reach('empty')
                else:
                    ctx.check(len(r.log) == n + 1, 'registration')
                    g, source, data = r.log[n]
                    ctx.check(g is engine and len(data) == count,
                              'registered events')
                    same_source(ctx, sources, i, source)
                    for a, b in zip(data, events):
                        ctx.check(ctx.eq(a, b), 'registered event')
                    if r.result is None:
                        ctx.check(res is None, 'result')
                    else:
                        ctx.check(res is not None and res != 'closed' and
                                  len(res) == count, 'result')
                        if not count:
                            ctx.reach('empty')
                        for a, b in zip(res, events):
                            ctx.check(ctx.eq(
                                (a.type, a.source_timestamp, a.payload),
                                (b.type, b.source_timestamp, b.payload)),
                                'event in the result')
        await loop.settle()
        for i in connected():
            ctx.check(clients[i][0].status == state['status'], 'status')
        names = sorted((n, s) for s, n in srv.get_client_names())
        ctx.check([n for n, _ in names] ==
                  sorted(f'n{i}' for i in connected()), 'names of clients')
        for n, s in names:
            same_source(ctx, sources, int(n[1:]), s)
    # invalid combinations
    for status in S:
        bad = None if status == S.OPERATIONAL else Engine(r)
        try:
            await srv.set_status(status, bad)
        except ValueError:
            pass
        else:
            ctx.fail('operational status without engine')
    await srv.async_close()
    await loop.settle()
    ctx.check(not connected(), 'clients not closed')
    ctx.reach('end')


def same_source(ctx, sources, i, source):
    ctx.check(source.type == common.SourceType.EVENTER, 'type of source')
    if i in sources:
        ctx.check(sources[i] == source, 'source of client')
    else:
        ctx.check(source not in sources.values(), 'source of other client')
        sources[i] = source


def check_event(ctx, r, entry, engine, name, status):
    g, source, events = entry
    ctx.check(g is engine, 'engine')
    ctx.check(source.type == common.SourceType.EVENTER, 'source')
    ctx.check(len(events) == 1, 'one event')
    e = events[0]
    ctx.check(e.type == ('event', str(r.server_id), 'eventer', name) and
              e.source_timestamp is None and e.payload.data == status,
              f'{status} event')


async def _race(ctx, loop, network):
    """Connection while the status is changing"""
    p = ctx.params
    S = common.Status
    r = Run()
    r.p = p
    r.log = []
    r.server_id = 3
    r.result = True
    backend = fakes.Backend()
    srv = await _es.create_eventer_server(net.ADDR, backend, 3)
    statuses = []
    client = []

    async def connect():
        client.append(await eventer.connect(
            net.ADDR, 'x', status_cb=lambda c, s: statuses.append(s)))

    engine = None
    if ctx.flag('operational'):
        engine = Engine(r)
        await srv.set_status(S.OPERATIONAL, engine)
    task = loop.create_task(connect())
    status = S.OPERATIONAL if engine else S.STANDBY
    changes = [status]
    for k in range(p.changes):
        await loop.steps(ctx.pick(f'gap{k}', p.gap))
        if engine:
            if ctx.flag(f'close{k}'):
                engine.close()
            engine = None
            status = ctx.pick(f'st{k}', [S.STOPPING, S.STANDBY])
        else:
            status = ctx.pick(f'st{k}', [S.STANDBY, S.STARTING,
                                         S.OPERATIONAL])
            if status == S.OPERATIONAL:
                engine = Engine(r)
        if status != changes[-1]:
            changes.append(status)
        await srv.set_status(status, engine)
    await loop.settle()
    if task.exception():
        # engine has closed while the event was being registered
        ctx.check(isinstance(task.exception(), eventer.EventerInitError),
                  'connection refused')
        ctx.check(any(g.is_closing for g, _, __ in r.log),
                  'connection refused without reason')
        ctx.reach('refused')
    else:
        c = client[0]
        ctx.check(c.is_open and c.status == status, 'status of client')
        # no change is left out, once connected
        first = len(changes) - len(statuses) - 1
        ctx.check(first >= 0 and statuses == changes[first + 1:],
                  'changes of status')
    ctx.check(len(r.log) <= 1, 'CONNECTED registered once')
    await srv.async_close()
    ctx.reach('end')


def _run(f):
    def run(ctx):
        async def main(ctx, loop):
            with net.installed() as network:
                await f(ctx, loop, network)
        simloop.run(ctx, main)
    return run


EVENT = common.Event(id=common.EventId(1, 1, 1), type=('a',),
                     timestamp=common.Timestamp(0, 0), source_timestamp=None,
                     payload=None)


async def _eager(ctx, loop, network):
    """Clients register as soon as they are notified of the status"""
    p = ctx.params
    S = common.Status
    r = Run()
    r.p = p
    r.log = []
    r.server_id = 3
    r.result = True
    srv = await _es.create_eventer_server(net.ADDR, fakes.Backend(), 3,
                                          receive_queue_size=1,
                                          send_queue_size=1)
    tasks = []
    clients = []
    stalled = ctx.pick('stalled', [None, *range(p.clients)])
    current = [S.STANDBY]
    slow = [ctx.pick(f'slow{i}', p.ack) for i in range(p.clients)]
    gap = ctx.pick('gap', p.gap)

    async def register(i, status):
        await loop.steps(gap)
        if current[-1] != status:
            return               # status has changed in the meantime
        n = len(tasks)
        res = await clients[i].register([common.RegisterEvent(
            type=('x', str(n)), source_timestamp=None, payload=None)], True)
        if current[-1] != status:
            return
        ctx.check((res is not None) == (status == S.OPERATIONAL),
                  f'registration in {status}')
        ctx.reach(f'{status.name}')

    async def on_status(i, status):
        tasks.append(loop.create_task(register(i, status)))
        await loop.steps(slow[i])

    for i in range(p.clients):
        clients.append(await eventer.connect(
            net.ADDR, f'n{i}',
            subscriptions=[('*',)],
            status_cb=lambda c, s, i=i: on_status(i, s)))
    for status in (S.STARTING, S.OPERATIONAL, S.STOPPING, S.STANDBY):
        current.append(status)
        if status == S.OPERATIONAL and stalled is not None:
            # one of the clients does not receive anything for some time
            await loop.settle()
            end = network.ends[stalled][1]
            end.stalled = True
            for _ in range(2):
                await srv.notify_events([EVENT], False)
                await loop.steps(5)
        t = loop.create_task(srv.set_status(
            status, Engine(r) if status == S.OPERATIONAL else None))
        await loop.steps(1)
        if status == S.OPERATIONAL and stalled is not None:
            await loop.steps(30)
            end.stalled = False
            ctx.reach('stalled')
        await t
        if ctx.flag(f'wait{status.name}'):
            await loop.settle()
    await loop.settle()
    for t in tasks:
        ctx.check(t.done() and t.exception() is None, 'registration failed')
    for c in clients:
        ctx.check(c.is_open and c.status == S.STANDBY, 'status')
    await srv.async_close()
    ctx.reach('end')


eager = _run(_eager)
server = _run(_server)
race = _run(_race)


def jobs(tier):
    quick = tier == 'quick'
    base = dict(ops='', choice='', ids=False, slow=0, tokens=False,
                counts=(2,))

    def job(name, bounds, require=(), **kw):
        return Job(name, server, {**base, **kw}, require=('end', *require),
                   bounds=bounds)

    yield job('tokens', '2 clients, any tokens', ops='?c?c', choice='-o',
              require=('refused',), ids=True, tokens=True)
    yield job('token-end', 'client with any token, 2 of: connecting, '
              'disconnecting, change of status', ops='oc???', choice='xoSc',
              require=('refused',), tokens=True)
    n = 3 if quick else 4
    yield job('requests', f'2 clients, {n} of: change of status, '
              'registration, query, closing', ops='occ' + n * '?',
              choice='orSqx', slow=2, require=('failure',))
    yield job('counts', '2 registrations of up to 2 events, which engine '
              'registers or not', ops='cocr?r', choice='-oSe', ids=True,
              counts=(0, 1, 2), require=('empty',))
    n = 5 if quick else 6
    yield job('events', f'{n} of: client connecting or disconnecting, change '
              'of status, closing of engine', ops=n * '?', choice='ocxSe')
    yield Job('race', race, {'changes': 2, 'slow': 3,
                             'gap': range(0, 12, 1)},
              require=('end', 'refused'),
              bounds='client connecting during 2 changes of status')
    yield Job('eager', eager, {'clients': 2, 'slow': 1,
                               'ack': (0, 3) if quick else (0, 1, 3, 8),
                               'gap': range(0, 6 if quick else 12)},
              require=('end', 'STARTING', 'OPERATIONAL', 'STOPPING',
                       'STANDBY', 'stalled'),
              bounds='2 clients registering when notified of the status')
