import asyncio

from hat import aio
from hat import json
from hat.drivers import tcp

from hat.event import common
from hat.event import component as _component
from hat.event import eventer

from pysym import simloop
from pysym.job import Job
from . import net, monitor
from .c15_notify import ASSUMPTIONS as _A


ASSUMPTIONS = [
    *_A,
    "monitor server is under harness control; its client is real code of "
    "hat-monitor",
    "runner is arbitrary within: time of creation and closing, failure of "
    "creation, closing itself"]

ADDRS = [tcp.Address('127.0.0.1', 23001), tcp.Address('127.0.0.1', 23002)]
TOKEN = 7


class Runner(aio.Resource):

    def __init__(self, r, client, data):
        self.r = r
        self.client = client
        self.data = data
        self._group = aio.Group()
        self._group.spawn(aio.call_on_cancel, self._on_close)
        if r.bound:
            self._group.spawn(aio.call_on_done, client.wait_closing(),
                              self._group.close)

    @property
    def async_group(self):
        return self._group

    async def _on_close(self):
        for _ in range(self.r.p.slow):
            await asyncio.sleep(0)


class Run:

    def __init__(self, ctx):
        self.ctx = ctx
        self.p = ctx.params
        self.runners = []
        self.creating = 0
        self.failed = False
        self.events = []
        self.expected_events = []
        self.statuses = {}
        self.states = []
        self.close_reqs = 0
        self.servers = [None, None]
        self.status = [common.Status.STANDBY] * 2
        self.fail = ctx.int('fail', 1, p.fail) if (p := self.p).fail else None
        self.calls = 0
        self.known = []
        self.bound = ctx.flag('bound') if p.bound else False

    # --- callbacks of component

    async def on_runner(self, component, data, client):
        ctx = self.ctx
        ctx.check(component is self.component or self.component is None,
                  'component')
        ctx.check(self.creating == 0, 'two runners created at once')
        ctx.check(all(i.is_closed for i in self.runners),
                  'previous runner is not closed')
        ctx.check(data in self.known, 'server data')
        self.calls += 1
        self.creating += 1
        try:
            for _ in range(self.p.slow):
                await asyncio.sleep(0)
            if self.fail is not None and self.calls <= self.p.fail and \
                    self.fail == self.calls:
                self.failed = True
                raise Exception('runner not created')
        finally:
            self.creating -= 1
        runner = Runner(self, client, data)
        self.runners.append(runner)
        return runner

    def on_state(self, component, state):
        self.states.append(state)

    def on_close_req(self, component):
        self.close_reqs += 1

    def on_status(self, component, client, status):
        self.statuses.setdefault(id(client), []).append(status)
        self.ctx.check(client.status == status, 'status of client')

    def on_events(self, component, client, events):
        self.events.append((client, [e.id for e in events]))

    # --- environment

    async def up(self, i):
        if self.servers[i]:
            return
        self.status[i] = common.Status.STANDBY
        self.servers[i] = await eventer.listen(ADDRS[i],
                                               status=self.status[i])

    async def down(self, i):
        if self.servers[i]:
            srv, self.servers[i] = self.servers[i], None
            await srv.async_close()

    def data(self, i):
        return {'server_id': i + 1,
                'eventer_server': {'host': ADDRS[i].host,
                                   'port': ADDRS[i].port},
                'server_token': 'a'}

    def configurations(self):
        """Possible components: (components, active server)"""
        info = monitor.info
        a, b = self.data(0), self.data(1)

        def x(data, **kw):
            return {**data, **kw}

        return {
            'none': ([], None),
            'other-id': ([info(11, data=x(a, server_id=7), req=1, res=1)], 0),
            'a': ([info(11, data=a, req=1, res=1)], 0),
            'b': ([info(11, data=a, req=None, res=None),
                   info(12, data=b, req=1, res=1)], 1),
            'both': ([info(12, data=b, req=3, res=3),
                      info(11, data=a, req=4, res=4)], 1),
            'asked': ([info(11, data=a, req=1, res=None),
                       info(12, data=b, req=None, res=5)], None),
            'other-token': ([info(11, data=a, req=1, res=2),
                             info(12, data=b, req=0, res=0)], 1),
            'other-group': ([info(11, data=a, req=1, res=1, group='x'),
                             info(12, data=b, req=2, res=2, group=None)],
                            None),
            'no-data': ([info(11, data=None, req=1, res=1)], None),
            'data-server': ([info(11, data=x(a, server_id='1'), req=1,
                                  res=1)], None),
            'data-port': ([info(11, data=x(a, eventer_server={
                'host': ADDRS[0].host, 'port': None}), req=1, res=1)], None),
            'data-host': ([info(11, data=x(a, eventer_server={
                'host': None, 'port': ADDRS[0].port}), req=1, res=1)], None),
            'data-port2': ([info(11, data=x(a, eventer_server={
                'host': ADDRS[0].host, 'port': str(ADDRS[0].port)}), req=1,
                res=1)], None),
            'data-token': ([info(11, data=x(a, server_token=1), req=1,
                                 res=1)], None),
            'server-token': ([info(11, data=x(a, server_token='b'), req=1,
                                   res=1)],
                             0 if self.token is None else None),
            'no-token': ([info(11, data=x(a, server_token=None), req=1,
                               res=1)],
                         0 if self.token is None else None)}


def server_data(components, i):
    data, = (c.data for c in components
             if json.get(c.data, ['eventer_server', 'port']) == ADDRS[i].port)
    return _component.ServerData(data['server_id'], ADDRS[i],
                                 data['server_token'])


async def _run(ctx, loop, network):
    p = ctx.params
    r = Run(ctx)
    r.token = ctx.pick('token', p.tokens)
    callbacks = ctx.flag('callbacks') if p.callbacks else True
    mon = monitor.Monitor()
    await mon.listen()
    r.component = None
    active = None
    expected = None
    blessed = False
    closing = False
    changed = True
    changes = []
    kwargs = {'subscriptions': [('*',)]}
    if r.token is not None:
        kwargs['client_token'] = r.token
    for i in range(2):
        await r.up(i)
    component = await _component.connect(
        monitor.ADDR, 'comp', 'group', 'event', 'client', r.on_runner,
        eventer_kwargs=kwargs,
        **(dict(state_cb=r.on_state, close_req_cb=r.on_close_req,
                status_cb=r.on_status, events_cb=r.on_events)
           if callbacks else {}))
    r.component = component
    conf = r.configurations()

    for components, i in conf.values():
        if i is not None:
            r.known.append(server_data(components, i))

    async def change(name):
        nonlocal active, expected
        mon.extra, active = conf[name]
        if active is not None:
            expected = server_data(mon.extra, active)
        await mon.send()

    async def bless(value):
        nonlocal blessed
        blessed = value
        await mon.bless('comp', TOKEN if value else None)

    def connections():
        return [(i, c) for i, s in enumerate(r.servers) if s
                for c in s.get_conn_infos()]

    def check_attempts():
        """Delay between attempts while nothing changes"""
        attempts = [i for i in network.attempts if i[1] != monitor.ADDR]
        for (t1, a1), (t2, a2) in zip(attempts, attempts[1:]):
            if any(t1 <= t <= t2 for t in changes):
                continue
            ctx.check(a1 == a2, 'attempt to connect to other server')
            ctx.check(t2 - t1 >= 0.5, 'attempt to connect without delay')

    async def quiet():
        await loop.settle()
        n = len(network.attempts)
        await asyncio.sleep(3)
        await loop.settle()
        if not blessed or not ready or active is None:
            ctx.check(len(network.attempts) == n,
                      'attempt to connect when there is no active server')
        check_attempts()
        if closing or (r.failed and p.strict):
            ctx.check(component.is_closed, 'component is not closed')
        if not closing and not r.failed:
            ctx.check(component.is_open, 'component is closed')
        ctx.check(r.creating == 0, 'creation of runner')
        runners = [x for x in r.runners if not x.is_closed]
        conns = connections()
        if component.is_open and blessed and ready and \
                active is not None and r.servers[active]:
            ctx.check(len(conns) == 1, f'{len(conns)} connections')
            i, c = conns[0]
            ctx.check(i == active, 'connected to other server')
            ctx.check(c.client_name == 'client' and
                      c.client_token == r.token and
                      c.server_id == expected.server_id and not c.persisted and
                      c.subscription.matches(('x',)), 'connection')
            ctx.check(len(runners) == 1, f'{len(runners)} runners')
            x = runners[0]
            ctx.check(x.is_open and x.data == expected and
                      x.client.is_open, 'runner')
            ctx.check(x.client.status == r.status[active], 'status')
            ctx.reach('connected')
        else:
            ctx.check(not conns, 'connected')
            ctx.check(not runners, 'runner is open')
            ctx.reach('not connected')

    ready = True
    await loop.settle()
    await component.set_ready(True)
    changes.append(loop.time())
    if p.start:
        await change('a')
        await bless(True)
    for k, op in enumerate(p.ops):
        if op == '?':
            op = ctx.pick(f'op{k}', p.choice)
        if op in 'mbrdl':
            changed = True
        if op in 'mbr':
            changes.append(loop.time())
        if op == '-':
            await quiet()
            changed = False
        elif op == '.':
            await loop.steps(ctx.pick(f'gap{k}', p.gap))
        elif op == ':':
            await asyncio.sleep(0.5)
            await loop.steps(ctx.pick(f'gap{k}', p.gap))
        elif op == 'm':
            await change(ctx.pick(f'conf{k}', p.confs or list(conf)))
        elif op == 'b':
            await bless(not blessed)
        elif op == 'r':
            if component.is_open:
                ready = not ready
                await component.set_ready(ready)
                ctx.check(component.ready == ready, 'ready')
        elif op in 'du':
            i = ctx.pick(f'srv{k}', p.who)
            await (r.down(i) if op == 'd' else r.up(i))
        elif op == 'l':
            for ends in network.ends:
                if ends[0].is_open and ends[1].is_open and \
                        ends[0] is not network.ends[0][0]:
                    for e in ends:
                        e.lose()
        elif op == 'c':
            for x in r.runners[-1:]:
                if x.is_open and x.client.is_open:
                    x.close()
                    await loop.steps(1)
                    await loop.settle()
                    ctx.check(component.is_closed or changed,
                              'open after runner is closed')
                    closing = closing or component.is_closed
        elif op == 'x':
            component.close()
            closing = True
        elif op == 'X':
            await mon.close_req('comp')
            await loop.settle()
            ctx.check(r.close_reqs == callbacks or closing,
                      'close request')
            ctx.check(r.close_reqs <= 1, 'close request repeated')
            closing = True
        elif op == 'M':
            await mon.lose('comp')
            closing = True
        elif op == 'n':
            await loop.settle()
            conns = connections()
            for i, s in enumerate(r.servers):
                if s:
                    event = common.Event(
                        id=common.EventId(i + 1, k + 1, 1), type=('a',),
                        timestamp=common.Timestamp(0, 0),
                        source_timestamp=None, payload=None)
                    await s.notify_events([event], False)
                    if i in [j for j, _ in conns]:
                        r.expected_events.append(event.id)
            await loop.settle()
            ctx.check([j for _, i in r.events for j in i] ==
                      (r.expected_events if callbacks else []),
                      'notified events')
            if r.events and conns:
                ctx.check(r.events[-1][0].is_open, 'client of events')
        elif op == 's':
            for i, s in enumerate(r.servers):
                if s:
                    r.status[i] = ctx.pick(f'status{k}{i}',
                                           list(common.Status)[:2])
                    await s.set_status(r.status[i])
    await quiet()
    if component.is_open:
        ctx.check(component.state.components == mon.components() and
                  component.state.info == mon.find('comp')[0], 'state')
        if callbacks:
            ctx.check(r.states and r.states[-1] == component.state,
                      'notified state')
    await component.async_close()
    await loop.settle()
    ctx.check(all(x.is_closed for x in r.runners), 'runner is not closed')
    ctx.check(not connections(), 'connection is not closed')
    ctx.check(not mon.conns, 'connection with monitor is not closed')
    ctx.reach('end')


def run(ctx):
    async def main(ctx, loop):
        with net.installed() as network:
            await _run(ctx, loop, network)
    simloop.run(ctx, main)


def jobs(tier):
    quick = tier == 'quick'
    base = dict(tokens=[None], start=True, ops='-', choice='', gap=(),
                confs=(), who=(0,), slow=0, fail=0, strict=False,
                callbacks=False, bound=False)

    def job(name, bounds, require=('connected',), **kw):
        return Job(name, run, {**base, **kw}, require=('end', *require),
                   bounds=bounds)

    yield job('select', 'any 2 consecutive states of monitor server',
              tokens=[None, 'a'], ops='m-m-', start=True)
    yield job('active', 'up to 4 of: blessing, ready, change of active '
              'server', ops='????-', choice='brm-', confs=('none', 'a', 'other-id'))
    yield job('change', '2 changes of active server at any moment',
              ops='.m.m-', confs=('none', 'a', 'b'), slow=2,
              gap=range(0, 40, 3 if quick else 1))
    yield job('lost', 'connection lost and another event at any moment',
              ops='.l:?-', choice='lmb-', confs=('none', 'b'), bound=True,
              gap=range(0, 34, 2 if quick else 1), slow=2)
    yield job('down', 'server closed and opened, connection lost',
              ops='.d:?-n', choice='ul', slow=1,
              gap=range(0, 30, 3 if quick else 2), require=())
    yield job('events', 'up to 3 of: notification, change of status or '
              'server, loss of connection', ops='-???n-', choice='nsml',
              confs=('none', 'a', 'b'))
    yield job('callbacks', 'with and without callbacks: 3 of notification, '
              'change of status or server, loss of connection, request for '
              'closing', ops='-???n-', choice='nsmlX', callbacks=True,
              confs=('none', 'b'))
    yield job('close', 'closing at any moment', ops='.?.?-',
              choice='cxXMl', slow=2, require=('not connected',),
              gap=range(0, 40, 3 if quick else 1))
    yield job('fail', 'creation of any of the first 3 runners fails',
              ops='.l:l:-', slow=2, fail=3, strict=True,
              gap=range(0, 30, 4 if quick else 2),
              require=('connected', 'not connected'))
    yield job('fail-change', 'creation of any of the first 2 runners fails, '
              'change of server', ops='.l:m-', confs=('b',), slow=2, fail=2,
              gap=range(0, 30, 1), require=('connected', 'not connected'))
    if not quick:
        yield job('any', '4 operations, 2 of them at any moment',
                  ops='.?.?-??-',
                  choice='mblc', confs=('none', 'b'), slow=2,
                  gap=range(0, 36, 4), require=('connected', 'not connected'))
