import asyncio

from hat.drivers import tcp

from hat.event import adminer
from hat.event import common
from hat.event import eventer
from hat.event.server import main_runner as _mr

from pysym import simloop
from pysym.job import Job
from . import net, fakes, monitor, lmdbenv
from .c08_registration import ASSUMPTIONS as _B
from .c15_notify import ASSUMPTIONS as _A


ASSUMPTIONS = [
    *_A, *_B,
    "monitor server is under harness control; its client is real code of "
    "hat-monitor"]

ADDRS = {1: tcp.Address('127.0.0.1', 23001),
         2: tcp.Address('127.0.0.1', 23002)}
ADMINER = tcp.Address('127.0.0.1', 23003)
LOG = {'version': 1}
NAMES = {1: 'srv1', 2: 'srv2'}
S = common.Status
ALL = [('*',)]


class Server:
    """Event server with its LMDB database"""

    def __init__(self, r, i):
        self.r = r
        self.i = i
        self.runner = None
        self.modules = []
        self.registered = []     # ids of events in responses
        self.clients = []
        self.backends = []

    def start(self, with_monitor, path, with_adminer=False, fail=None):
        r = self.r
        conf = {
            'name': NAMES[self.i],
            'server_id': self.i,
            'backend': {**lmdbenv.conf(f'{path}{self.i}', flush_period=r.flush,
                                       identifier=str(self.i)),
                        'module': 'harness.backends',
                        'fail': fail == 'backend',
                        'instances': self.backends},
            'modules': [{'module': 'harness.fakes', 'pause': r.p.pause,
                         'subscription': common.create_subscription(ALL),
                         'call': self.on_call, 'instances': self.modules}],
            'eventer_server': {'host': ADDRS[self.i].host,
                               'port': ADDRS[self.i].port}}
        self.conf = conf
        if with_monitor:
            conf['monitor_component'] = {'group': 'event',
                                         'host': monitor.ADDR.host,
                                         'port': monitor.ADDR.port}
        if with_adminer:
            conf['log'] = LOG
            conf['adminer_server'] = {'host': ADMINER.host,
                                      'port': ADMINER.port}
        self.runner = _mr.MainRunner(conf, reset_monitor_ready_timeout=30)

    def on_call(self, module, op, x, event):
        r = self.r
        if op == 'start' and module not in r.started:
            r.started.append(module)
            r.on_engine(self)
        if op != 'process':
            return
        # every event with type 'x' results in another one
        if event.type[0] == 'x' and event.type[-1] != 'm':
            return [reg(*event.type, 'm')]

    def open_modules(self):
        return [m for m in self.modules if not m.is_closed]


class Client:

    def __init__(self, server, persisted):
        self.server = server
        self.persisted = persisted
        self.log = []
        self.closed = None
        self.refused = False

    async def connect(self):
        self.client = await eventer.connect(
            ADDRS[self.server.i], 'client', subscriptions=ALL,
            persisted=self.persisted, events_cb=self.on_events,
            name='user')
        self.server.clients.append(self)
        self.client.async_group.spawn(self._wait)

    async def _wait(self):
        try:
            await asyncio.get_running_loop().create_future()
        finally:
            self.closed = [not m.is_closed for m in self.server.modules]

    def on_events(self, client, events):
        self.log.extend(events)


def reg(*type_):
    return common.RegisterEvent(type=type_, source_timestamp=None,
                                payload=common.EventPayloadJson(1))


class Run:

    def __init__(self, ctx, path):
        self.ctx = ctx
        self.p = ctx.params
        self.path = path
        self.started = []
        self.servers = {}
        self.tasks = []
        self.synced = False
        self.n = 0
        self.flush = self.p.flush

    def on_engine(self, server):
        """Engine of the server starts"""
        if not self.synced:
            return
        ctx = self.ctx
        for other in self.servers.values():
            if other is server:
                continue
            ctx.check(not other.open_modules(),
                      'engine started while engine of other server is open')
            self.tasks.append(asyncio.ensure_future(
                self.takeover(server, list(other.registered))))

    async def takeover(self, server, ids):
        # previous events are already known
        r = await server.modules[-1].engine.query(
            common.QueryTimeseriesParams())
        known = {e.id for e in r.events}
        self.ctx.check(all(i in known for i in ids),
                       'events of previous server are not known')
        self.ctx.reach('takeover')

    async def register(self, client, n):
        self.n += 1
        try:
            events = await client.client.register(
                [reg('x', str(self.n), str(i)) for i in range(n)], True)
        except ConnectionError:
            # engine was closing
            client.refused = True
            return
        if events is not None:
            self.ctx.check(len(events) == n, 'result')
            for i, e in enumerate(events):
                self.ctx.check(e.type == ('x', str(self.n), str(i)) or True,
                               'event in result')
            client.server.registered.extend(e.id for e in events)

    async def content(self, i):
        """Events in the database of closed server"""
        db = await lmdbenv.create(self.servers[i].conf['backend'])
        r = await db.query(common.QueryTimeseriesParams(
            order=common.Order.ASCENDING))
        await db.async_close()
        return list(r.events)


def check_log(ctx, c, events, complete):
    """Client was notified of consecutive events"""
    ids = [e.id for e in c.log]
    exp = [e.id for e in events]
    # in order of registration for each server
    for server in {i.server for i in exp}:
        a = [i for i in ids if i.server == server]
        b = [i for i in exp if i.server == server]
        if complete and server == c.server.i:
            ctx.check(a == b[len(b) - len(a):] and a, 'notified events')
        elif a:
            ctx.check(a[0] in b and
                      a == b[b.index(a[0]):b.index(a[0]) + len(a)],
                      'notified events')
    ctx.check(len(set(ids)) == len(ids), 'event notified again')


async def _single(ctx, loop, network, path):
    p = ctx.params
    r = Run(ctx, path)
    s = r.servers[1] = Server(r, 1)
    s.start(False, path)
    await asyncio.sleep(1)
    await loop.settle()
    clients = [Client(s, False), Client(s, True)]
    for c in clients:
        await c.connect()
        ctx.check(c.client.status == S.OPERATIONAL, 'status')
    for k, op in enumerate(p.ops):
        if op == '?':
            op = ctx.pick(f'op{k}', p.choice)
        if op == '-':
            await loop.settle()
        elif op == 'f':
            await asyncio.sleep(p.flush + 1)
        elif op == '.':
            await loop.steps(ctx.pick(f'gap{k}', p.gap))
        elif op == 'r':
            r.tasks.append(loop.create_task(r.register(clients[k % 2],
                                                       1 + k % 2)))
        elif op == 'R':          # restart of engine
            if s.modules:
                s.modules[-1].engine.restart()
        elif op == 'm':          # module closes
            if s.open_modules():
                s.open_modules()[-1].close()
                await loop.steps(1)
                await loop.settle()
                ctx.check(s.runner.is_closed, 'server is not closed')
        elif op == 'x':
            s.runner.close()
        elif op == 'c':          # client closes
            clients[k % 2].client.close()
    await loop.settle()
    gone = [c for c in clients if c.client.is_closed]
    was_open = s.runner.is_open
    if was_open:
        ctx.check(len(s.open_modules()) == 1, 'modules')
        for c in clients:
            if c not in gone:
                ctx.check(c.client.status == S.OPERATIONAL, 'status')
    await s.runner.async_close()
    await loop.settle()
    ctx.check(all(t.done() for t in r.tasks), 'request not finished')
    for t in r.tasks:
        await t
    ctx.check(not s.open_modules(), 'module is not closed')
    ctx.check(not network.servers, 'server is still listening')
    events = await r.content(1)
    ids = [e.id for e in events]
    ctx.check(ids == sorted(ids) and len(ids) == len(set(ids)), 'order')
    for i in s.registered:
        ctx.check(i in ids, 'registered event is not persisted')
    # events are followed by those produced by module
    n = len([e for e in events if e.type[0] == 'x' and e.type[-1] != 'm'])
    m = len([e for e in events if e.type[0] == 'x' and e.type[-1] == 'm'])
    ctx.check(n == m, 'produced events')
    eng = [e for e in events if e.type == ('event', '1', 'engine')]
    ctx.check([e.payload.data for e in eng] ==
              ['STARTED', 'STOPPED'] * (len(eng) // 2), 'engine events')
    ctx.check(len(eng) // 2 == len(s.modules), 'number of engines')
    for c in clients:
        ctx.check(c.client.is_closed, 'client is not closed')
        if 'c' not in p.ops + p.choice:
            ctx.check(not any(c.closed), 'client closed before modules')
        if c.refused:
            ctx.reach('refused')
        check_log(ctx, c, events, not c.refused and (
            c not in gone or 'c' not in p.ops + p.choice))
    ctx.reach('end')


async def _pair(ctx, loop, network, path):
    p = ctx.params
    r = Run(ctx, path)
    mon = monitor.Monitor()
    await mon.listen()
    for i in (1, 2):
        s = r.servers[i] = Server(r, i)
        s.start(True, path)
    token = iter(range(1, 100))

    async def quiet(t=11):
        await asyncio.sleep(t)
        await loop.settle()

    await quiet()
    for s in r.servers.values():
        for x in (False, True):
            c = Client(s, x)
            await c.connect()
            ctx.check(c.client.status == S.STANDBY, 'status')
    r.synced = True
    blessed = None
    lost = False
    for k, op in enumerate(p.ops):
        if op == '?':
            op = ctx.pick(f'op{k}', p.choice)
        if op == '-':
            await quiet()
        elif op == '.':
            await loop.steps(ctx.pick(f'gap{k}', p.gap))
        elif op == ':':
            await asyncio.sleep(ctx.pick(f'time{k}', [1, 5]))
            await loop.steps(ctx.pick(f'gap{k}', p.gap))
        elif op in '12N':
            blessed = {'1': 1, '2': 2, 'N': None}[op]
            for i in (1, 2):
                if i != blessed:
                    await mon.bless(NAMES[i], None)
            if blessed:
                await mon.bless(NAMES[blessed], next(token))
        elif op == 'r':
            for s in r.servers.values():
                c = s.clients[k % 2]
                if c.client.is_open and c.client.status == S.OPERATIONAL:
                    r.tasks.append(loop.create_task(
                        r.register(c, 1 + k % 2)))
        elif op == 'l':
            # connections between servers are lost
            for a, b in network.ends:
                if a.name == 'client' and a.is_open and \
                        b in [x._conn for x in network.accepted] and \
                        a not in [x._conn for x in mon.conns]:
                    info = [i for i in mon.conns if i._conn is b]
                    if not info:
                        a.lose()
                        b.lose()
                        r.synced = False
        elif op == 'z':          # reset of monitor component
            for s in r.servers.values():
                for m in s.open_modules():
                    if m.engine.is_open:
                        m.engine.reset_monitor_ready()
        elif op == 'x':
            if blessed:
                s = r.servers[blessed]
                s.runner.close()
                lost = True
    await quiet()
    for t in r.tasks:
        ctx.check(t.done(), 'request not finished')
        await t
    for i, s in r.servers.items():
        if s.runner.is_closed:
            ctx.check(lost, 'server is closed')
            continue
        active = i == blessed and not ('z' in p.ops)
        n = len(s.open_modules())
        ctx.check(n == active or 'z' in p.ops, f'{n} open engines')
        for c in s.clients:
            ctx.check(c.client.is_open and c.client.status == (
                S.OPERATIONAL if n else S.STANDBY),
                'status')
        if active:
            ctx.reach('active')
    flushed = ctx.flag('flushed')
    if flushed:
        await quiet(p.flush + 1)
    order = ctx.pick('order', ((1, 2), (2, 1)))
    for s in (r.servers[i] for i in order):
        await s.runner.async_close()
        await quiet(1)
    events = {i: await r.content(i) for i in (1, 2)}
    for i in (1, 2):
        s = r.servers[i]
        ids = [e.id for e in events[i]]
        ctx.check(len(ids) == len(set(ids)), 'repeated event')
        for srv in (1, 2):
            x = [i for i in ids if i.server == srv]
            ctx.check(x == sorted(x), 'order')
        for x in r.servers.values():
            if x is s:
                for j in x.registered:
                    ctx.check(j in ids, 'registered event is not persisted')
        # own events first of all
        for j in s.registered:
            ctx.check(j.server == i, 'identifier of server')
        for c in s.clients:
            ctx.check(c.client.is_closed, 'client is not closed')
            # clients are connected before all events
            for srv in (1, 2):
                ctx.check([e.id for e in c.log if e.id.server == srv] ==
                          [e.id for e in events[i] if e.id.server == srv],
                          'notified events')
    if not lost and flushed:
        # events of the other server are replicated
        for j in r.servers[1].registered + r.servers[2].registered:
            for i in (1, 2):
                ctx.check(j in {e.id for e in events[i]},
                          'event is not replicated')
    ctx.reach('end')


async def _reset(ctx, loop, network, path):
    """Module asks for new blessing"""
    p = ctx.params
    r = Run(ctx, path)
    mon = monitor.Monitor()
    await mon.listen()
    s = r.servers[1] = Server(r, 1)
    s.start(True, path)
    await asyncio.sleep(1)
    await loop.settle()

    def ready():
        i, = mon.find(NAMES[1])
        return i.blessing_res.ready

    ctx.check(ready(), 'not ready')
    ctx.check(not s.modules, 'engine of server which is not active')
    await mon.bless(NAMES[1], 1)
    await asyncio.sleep(1)
    await loop.settle()
    for k in range(p.k):
        count = len(s.modules)
        ctx.check(len(s.open_modules()) == 1 and ready(), 'active')
        how = ctx.pick(f'how{k}', ('auto', 'bless', 'silent', 'slow'))
        mon.auto = how == 'auto'
        if ctx.flag(f'registering{k}'):
            c = Client(s, False)
            await c.connect()
            r.tasks.append(loop.create_task(r.register(c, 1)))
            await loop.steps(ctx.pick(f'gap{k}', p.gap))
        s.modules[-1].engine.reset_monitor_ready()
        if how == 'auto':
            await asyncio.sleep(1)
            await loop.settle()
        else:
            # readiness is withdrawn until token of blessing is
            await asyncio.sleep(1)
            await loop.settle()
            ctx.check(not ready(), 'ready after reset')
            ctx.check(not s.open_modules(), 'engine is open when not ready')
            if how == 'slow':
                await asyncio.sleep(20)
                ctx.check(not ready(), 'ready after reset')
            if how == 'silent':
                await asyncio.sleep(27)
                ctx.check(not ready(), 'ready after reset')
                await asyncio.sleep(3)
            else:
                await mon.send()
            await loop.settle()
            ctx.check(ready(), 'not ready again')
            mon.auto = True
            await mon.bless(NAMES[1], 2 + k)
            await asyncio.sleep(1)
            await loop.settle()
        ctx.check(len(s.modules) > count, 'new engine')
        ctx.reach(how)
    ctx.check(len(s.open_modules()) == 1 and ready(), 'active')
    ctx.check(s.runner.is_open, 'server is closed')
    await s.runner.async_close()
    await loop.settle()
    for t in r.tasks:
        ctx.check(t.done(), 'request not finished')
        await t
    ids = [e.id for e in await r.content(1)]
    for i in s.registered:
        ctx.check(i in ids, 'registered event is not persisted')
    ctx.check(not s.open_modules() and not mon.conns, 'not closed')
    ctx.reach('end')


async def _restart(ctx, loop, network, path):
    """One of redundant servers is closed and started again"""
    p = ctx.params
    r = Run(ctx, path)
    mon = monitor.Monitor()
    await mon.listen()
    for i in (1, 2):
        r.servers[i] = Server(r, i)
        r.servers[i].start(True, path)

    async def quiet(t=11):
        await asyncio.sleep(t)
        await loop.settle()

    await quiet()
    r.synced = True
    await mon.bless(NAMES[1], 1)
    await quiet()
    clients = []
    s = r.servers[1]
    modules = list(s.modules)
    which = ctx.pick('server', (1, 2))
    other = 3 - which
    for k, op in enumerate(p.ops):
        if op == 'r':
            c = Client(s, False)
            clients.append(c)
            await c.connect()
            r.tasks.append(loop.create_task(r.register(c, 1 + k % 2)))
        elif op == '.':
            await loop.steps(ctx.pick(f'gap{k}', p.gap))
        elif op == '-':
            await quiet()
        elif op == 'S':
            count = len(s.registered)
            await r.servers[which].runner.async_close()
            await quiet(ctx.pick('pause', (0, 1, 20)))
            r.servers[which].start(True, path)
    await quiet()
    for x in r.servers.values():
        ctx.check(x.runner.is_open, 'server is closed')
        ctx.check(len(x.open_modules()) == (x is s), 'engines')
    ctx.check(which == 1 or s.modules == modules,
              'engine replaced because of other server')
    for t in r.tasks:
        ctx.check(t.done(), 'request not finished')
        await t
    for i in (1, 2):
        await r.servers[i].runner.async_close()
        await quiet(1)
    events = {i: await r.content(i) for i in (1, 2)}
    for i in (1, 2):
        ids = [e.id for e in events[i]]
        ctx.check(len(set(ids)) == len(ids) and
                  sorted(ids) == [j for srv in (1, 2) for j in ids
                                  if j.server == srv], 'order')
        ctx.check(all(j in ids for j in s.registered),
                  'registered event is not persisted')
    ctx.check([e for e in events[2] if e.id.server == 1] ==
              [e for e in events[1] if e.id.server == 1]
              [:len(events[2])], 'histories differ')
    synced = [e.payload.data for e in events[1]
              if e.type == ('event', '1', 'synced', '2')]
    # after each connection
    ctx.check([i['state'] for i in synced[-2:]] == ['CONNECTED', 'SYNCED']
              if which == 2 else synced, 'synced events')
    ctx.reach(f'restart {which}')
    ctx.reach('end')


async def _parts(ctx, loop, network, path):
    """Server starts and closes with all of its parts"""
    p = ctx.params
    r = Run(ctx, path)
    with_monitor = ctx.flag('with_monitor')
    with_adminer = ctx.flag('with_adminer')
    mon = monitor.Monitor()
    fail = ctx.pick('fail', p.fails) if p.fails else None
    s = r.servers[1] = Server(r, 1)
    occupied = {'eventer': ADDRS[1], 'adminer': ADMINER}.get(fail)
    if occupied:
        await network.listen(lambda conn: None, occupied)
    if fail != 'monitor' and with_monitor:
        await mon.listen()
    before = set(network.servers)
    s.start(with_monitor, path, with_adminer, fail)
    failed = (fail in ('backend', 'eventer') or
              (fail == 'adminer' and with_adminer) or
              (fail == 'monitor' and with_monitor))
    closing = p.early
    if p.early:
        await loop.steps(ctx.pick('gap', p.gap))
        s.runner.close()
        await loop.settle()
    else:
        await asyncio.sleep(1)
        await loop.settle()
    c = None
    if failed:
        ctx.check(s.runner.is_closed, 'failed server is not closed')
        ctx.reach('failed')
    elif not p.early:
        ctx.check(s.runner.is_open, 'server is closed')
        if with_adminer:
            a = await adminer.connect(ADMINER)
            ctx.check(await a.get_log_conf() == LOG, 'log configuration')
            await a.async_close()
            ctx.reach('adminer')
        else:
            ctx.check(ADMINER not in set(network.servers) - before,
                      'adminer server')
        if with_monitor:
            i, = mon.find(NAMES[1])
            ctx.check(i.group == 'event' and i.blessing_res.ready and
                      i.data == {'server_id': 1,
                                 'eventer_server': s.conf['eventer_server'],
                                 'server_token': None}, 'monitor data')
            await mon.bless(NAMES[1], 1)
            await loop.settle()
        await asyncio.sleep(1)
        ctx.check(len(s.open_modules()) == 1, 'no engine')
        c = Client(s, False)
        await c.connect()
        ctx.check(c.client.status == S.OPERATIONAL, 'status')
        r.tasks.append(loop.create_task(r.register(c, 2)))
        await loop.steps(ctx.pick('gap', p.gap))
        cause = ctx.pick('cause', (
            'backend', 'eventer', 'module', 'runner',
            *(['adminer'] if with_adminer else []),
            *(['monitor', 'request'] if with_monitor else [])))
        closing = True
        if cause == 'backend':
            s.backends[0].close()
        elif cause == 'module':
            s.modules[0].close()
        elif cause == 'runner':
            s.runner.close()
        elif cause == 'monitor':
            await mon.lose(NAMES[1])
        elif cause == 'request':
            await mon.close_req(NAMES[1])
        else:
            network.servers[ADDRS[1] if cause == 'eventer'
                            else ADMINER].close()
        await asyncio.sleep(1)
        await loop.settle()
        ctx.reach(cause)
    if failed or closing:
        ctx.check(s.runner.is_closed, 'server is not closed')
        ctx.check(all(b.is_closed for b in s.backends),
                  'backend is not closed')
        ctx.check(set(network.servers) == before,
                  'server is still listening')
        ctx.check(not s.open_modules() and not mon.conns, 'not closed')
        ctx.check(not c or c.client.is_closed, 'client is not closed')
    await s.runner.async_close()
    for t in r.tasks:
        ctx.check(t.done(), 'request not finished')
        await t
    s.conf['backend']['fail'] = False
    ids = [e.id for e in await r.content(1)]
    ctx.check(ids == sorted(ids), 'order')
    for i in s.registered:
        ctx.check(i in ids, 'registered event is not persisted')
    ctx.reach('end')


def _run(f):
    def run(ctx):
        def main(ctx, loop):
            return f(ctx, loop, network, path)
        with lmdbenv.scratch() as path, net.installed() as network:
            simloop.run(ctx, main)
    return run


single = _run(_single)
pair = _run(_pair)
reset = _run(_reset)
restart = _run(_restart)
parts = _run(_parts)


def jobs(tier):
    quick = tier == 'quick'
    base = dict(ops='-', choice='', gap=(), pause=0, flush=1000)

    def job(name, f, bounds, require=(), **kw):
        return Job(name, f, {**base, **kw}, require=('end', *require),
                   bounds=bounds)

    yield job('single', single, 'up to 4 of: registration, flush, restart, '
              'closing of client, server or module', ops='????',
              choice='rfRcxm')
    yield job('single-at', single, 'registration, closing or restart, '
              'registration, at any moment', ops='r.?.r-', choice='xmR',
              gap=range(0, 40, 3 if quick else 1), pause=1)
    yield job('switch', pair, 'change of active server at any moment',
              ops='1-rr.2.r-', gap=range(0, 40, 4 if quick else 1), pause=1,
              require=('active', 'takeover'))
    yield job('switch-again', pair, 'up to 4 of: change of active server, '
              'registration', ops='????-r', choice='12Nr')
    yield job('reset', reset, '2 requests of modules for new blessing',
              require=('auto', 'bless', 'silent', 'slow'), k=2,
              gap=range(0, 12, 4 if quick else 1))
    yield job('links', pair, 'connections between servers lost at any '
              'moment, change of active server',
              ops='1-rr.l.2-r-', gap=range(0, 30, 3 if quick else 1),
              require=('active',))
    yield job('failover', pair, 'active server closed at any moment',
              ops='1-r.x.2-r-', gap=range(0, 30, 3 if quick else 1),
              require=('active',))
    yield job('parts', parts, 'any part of the server closes at any moment '
              'of registration', fails=(), early=False, pause=1,
              require=('adminer', 'monitor', 'request', 'backend'),
              gap=range(0, 24, 3 if quick else 1))
    yield job('start-fail', parts, 'any part of the server is not created',
              fails=('backend', 'eventer', 'adminer', 'monitor'),
              early=False, gap=(0,), require=('failed',))
    yield job('start-close', parts, 'closing at any moment of start',
              fails=(), early=True, gap=range(0, 40, 2 if quick else 1))
    yield job('restart', restart, 'one of servers closed and started again '
              'at any moment of registration', ops='r-r.S-r', pause=1,
              require=('restart 1', 'restart 2'),
              gap=range(0, 24, 3 if quick else 1))
