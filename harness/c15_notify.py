import asyncio

from hat import aio

from hat.event import common
from hat.event import eventer

from pysym import simloop
from pysym.job import Job
from . import lib, net


ASSUMPTIONS = [
    "transport delivers messages of a connection reliably and in order until "
    "it is closed or lost; chatter layer above it is the real one",
    "wire level encoding (hat.sbs) is inverse of its decoding",
    "the event loop is single threaded (interleavings at await points)"]

STATUSES = [common.Status.STANDBY, common.Status.STARTING,
            common.Status.OPERATIONAL, common.Status.STOPPING]


class Client:

    def __init__(self, ctx, no, p):
        self.ctx = ctx
        self.no = no
        self.p = p
        self.query = [(ctx.text(f'c{no}_sub', p.subs),)]
        if p.second:
            self.query.append((ctx.text(f'c{no}_sub2', ['b', 'c']),))
        self.server_id = (ctx.int(f'c{no}_srv', 0, 2 ** 40)
                          if p.servers and ctx.flag(f'c{no}_hassrv') else None)
        self.persisted = ctx.flag(f'c{no}_pers') if p.persisted else False
        self.client = None
        self.error = None
        self.log = []             # received notifications
        self.expected = []
        self.statuses = []
        self.expected_statuses = []
        self.lost = False
        self.gone = False
        self.acked = 0
        self.pauses = 0

    async def connect(self):
        try:
            self.client = await eventer.connect(
                net.ADDR, f'client{self.no}',
                subscriptions=self.query,
                server_id=self.server_id,
                persisted=self.persisted,
                status_cb=self.on_status,
                events_cb=self.on_events,
                name=f'client{self.no}')
        except Exception as e:
            self.error = e

    def on_status(self, client, status):
        self.statuses.append(status)
        self.ctx.check(client.status == status, 'status while notified')

    async def on_events(self, client, events):
        self.log.append(list(events))
        for _ in range(self.p.slow):
            await asyncio.sleep(0)
        self.acked += 1

    def wants(self, events, persisted):
        ctx = self.ctx
        if self.persisted != persisted:
            return []
        return [e for e in events
                if ctx.and_(lib.spec_any(ctx, e.type, self.query),
                            True if self.server_id is None else
                            ctx.eq(e.id.server, self.server_id))]


class Notify:

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def event(self):
        ctx = self.ctx
        p = ctx.params
        i = self.n
        self.n += 1
        return common.Event(
            id=common.EventId(ctx.int(f'e{i}_srv', 0, 2 ** 40),
                              ctx.int(f'e{i}_ses', 0, 2 ** 40), i),
            type=(ctx.text(f'e{i}_type', p.types),),
            timestamp=lib.timestamp(ctx, f'e{i}_t', 0, 2 ** 40),
            source_timestamp=(lib.timestamp(ctx, f'e{i}_st', -1, 2 ** 40)
                              if i % 2 else None),
            payload=[None, common.EventPayloadJson({'a': [i, None]}),
                     common.EventPayloadBinary('x', b'\x01\x00')][i % 3])


async def _notify(ctx, loop, network):
    p = ctx.params
    st = Notify(ctx)
    infos = []
    gone = []
    status = ctx.pick('status', STATUSES) if p.status else STATUSES[0]

    async def on_connected(info):
        infos.append(info)
        for _ in range(p.slow_connect):
            await asyncio.sleep(0)

    srv = await eventer.listen(net.ADDR, status=status,
                               connected_cb=on_connected,
                               disconnected_cb=gone.append)
    clients = [Client(ctx, i, p) for i in range(p.clients)]
    tasks = []      # (task, clients notified, number of acks expected)
    connecting = []

    def find(c):
        return [i for i in infos if i.client_name == f'client{c.no}']

    for k, op in enumerate(p.ops):
        if op == '?':
            op = ctx.pick(f'op{k}', p.choice)
        if op == 'c':              # connect everybody
            for c in clients:
                await c.connect()
                ctx.check(c.error is None, 'client can not connect')
                ctx.check(c.client.status == status, 'initial status')
                i = find(c)
                ctx.check(len(i) == 1, 'connected client announced')
                i = i[0]
                ctx.check(ctx.and_(
                    i.client_token is None, i.persisted == c.persisted,
                    ctx.eq(i.server_id, c.server_id)),
                    'properties of client')
                connecting.append(c)
        elif op == 'C':            # while something else is going on
            for c in clients:
                if not c.client and c not in connecting:
                    connecting.append(c)
                    tasks.append((loop.create_task(c.connect()), (), ()))
                    await loop.steps(ctx.pick(f'gap{k}', range(p.gap)))
                    break
        elif op in 'na':
            events = [st.event() for _ in range(p.events)]
            persisted = ctx.flag(f'pers{k}') if p.persisted else False
            # connections known to the server
            known = {i.client_name for i in srv.get_conn_infos()}
            notified = []
            for c in connecting:
                if f'client{c.no}' not in known:
                    continue
                e = c.wants(events, persisted)
                if e:
                    c.expected.append(e)
                    notified.append((c, len(c.expected)))
            f = srv.notify_events(events, persisted, op == 'a')
            if op == 'n' or p.sequential:
                await f
                for c, n in notified if op == 'a' else ():
                    ctx.check(c.acked >= n or c.gone,
                              'notification done before client processed it')
            else:
                tasks.append((loop.create_task(f), notified, k))
        elif op == 's':
            new = ctx.pick(f'st{k}', STATUSES[:None if p.status else 2])
            known = {i.client_name for i in srv.get_conn_infos()}
            if new != status:
                for c in connecting:
                    if f'client{c.no}' in known:
                        c.expected_statuses.append(new)
            status = new
            await srv.set_status(status)
        elif op in 'xl':            # client closes or connection is lost
            c = clients[ctx.pick(f'who{k}', range(p.clients))]
            if c.client and not c.gone:
                c.gone = True
                c.at = len(c.log)
                if op == 'x':
                    c.client.close()
                else:
                    for a, b in network.ends:
                        if a.name == f'client{c.no}':
                            a.lose()
                            b.lose()
        elif op == '-':
            await loop.settle()
        elif op == '.':
            await loop.steps(ctx.pick(f'gap{k}', range(p.gap)))
        for t, notified, _ in tasks:
            if not t.done():
                continue
            for c, n in notified:
                ctx.check(c.acked >= n or c.gone,
                          'notification done before client processed it')
    await loop.settle()

    for t, notified, _ in tasks:
        ctx.check(t.done() and t.exception() is None,
                  'notification never finished')
        for c, n in notified:
            ctx.check(c.acked >= n or c.gone,
                      'notification done before client processed it')
    ctx.check(srv.is_open, 'server closed')
    for c in connecting:
        if c.gone:
            ctx.check(c.client.is_closed, 'client not closed')
            ctx.check(len(c.log) <= len(c.expected), 'too many notifications')
        else:
            ctx.check(c.error is None and c.client is not None,
                      'client not connected')
            ctx.check(c.client.is_open, 'client closed')
            ctx.check(len(c.log) == len(c.expected),
                      f'{len(c.log)} notifications, expected '
                      f'{len(c.expected)}')
            ctx.check(c.client.status == status, 'status of client')
            if not p.gap:
                ctx.check(c.statuses == c.expected_statuses,
                          'notifications of status')
            ctx.reach('notified' if c.log else 'quiet')
        for got, exp in zip(c.log, c.expected):
            ctx.check(len(got) == len(exp),
                      f'{len(got)} events in notification, expected '
                      f'{len(exp)}')
            for a, b in zip(got, exp):
                ctx.check(ctx.eq(a, b), 'notified event')
    n = [i for i in infos if f'client{i.client_name[6:]}' in
         {f'client{c.no}' for c in connecting if c.gone}]
    ctx.check(sorted(i.id for i in gone) == sorted(i.id for i in n),
              'disconnected clients')
    ctx.check({i.id for i in srv.get_conn_infos()} ==
              {i.id for i in infos} - {i.id for i in gone},
              'connected clients')
    await srv.async_close()
    await loop.settle()
    for c in connecting:
        if c.client:
            ctx.check(c.client.is_closed, 'client not closed with server')
    ctx.check(sorted(i.id for i in gone) == sorted(i.id for i in infos),
              'all clients are disconnected once')
    ctx.reach('end')


def notify(ctx):
    async def main(ctx, loop):
        with net.installed() as network:
            await _notify(ctx, loop, network)
    simloop.run(ctx, main)


def jobs(tier):
    quick = tier == 'quick'
    base = dict(clients=2, ops='cn-', choice='na', subs=['?', 'a', '*'],
                second=False, types=['a', 'b', 'c'], events=1, gap=0,
                persisted=False, status=False, slow=0, sequential=False, servers=True,
                slow_connect=0)
    fixed = dict(subs=['?'], types=['a'], servers=False)

    def job(name, bounds, require=('notified',), **kw):
        return Job(name, notify, {**base, **kw}, require=('end', *require),
                   bounds=bounds)

    yield job('filter', '1 client, 2 events in 1 notification',
              clients=1, events=2, persisted=True, second=True,
              require=('notified', 'quiet'), ops='cn-')
    yield job('filter2', '2 clients, 2 notifications of 1 event',
              persisted=True, ops='cnn-', subs=['?', 'a'], types=['a', 'b'])
    yield job('status', '2 clients, 3 changes of status',
              status=True, ops='css-s', require=(), **fixed)
    yield job('ack', '2 clients, 2 notifications with acknowledgment, one '
              'client closed or lost at any moment',
              ops='ca.?.-a-', choice='xl', slow=2, gap=8, **fixed)
    yield job('ack2', '3 clients, 1 notification with acknowledgment, closed',
              ops='ca.?.', choice='xl', slow=6, gap=10, clients=3, **fixed)
    yield job('ack-more', '2 clients, 3 notifications with acknowledgment '
              'at once, one client closed or lost',
              ops='ca.a.ax.-', slow=3, gap=6, **fixed)
    yield job('order', '1 client, 3 notifications, with or without '
              'acknowledgment', ops='c???-', clients=1, slow=2,
              sequential=True, **fixed)
    yield job('connect', '2 clients connecting during notifications and '
              'changes of status', ops='C?C?-n-', choice='nas', gap=9,
              sequential=True, **fixed)
    yield job('connect-slow', '2 clients connecting (which takes time) '
              'during notifications and changes of status',
              ops='C?.?-n-', choice='nas', gap=12, slow_connect=4,
              clients=1, sequential=True, **fixed)
    if not quick:
        yield job('filter3', '3 clients, 2 notifications of 1 event',
                  clients=3, ops='cnn-', persisted=True)
        yield job('ops', '2 clients, 4 arbitrary operations',
                  ops='c?.?.?.?-', choice='naxls', gap=3, slow=1, **fixed)
        yield job('connect-any', '2 clients connecting during 3 operations',
                  ops='C?C?.?-', choice='nas', gap=9, slow=1,
                  sequential=True, **fixed)


assert aio
