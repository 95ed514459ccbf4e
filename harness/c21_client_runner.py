import asyncio

from hat.drivers import tcp
from hat.monitor.component import State

from hat.event import common
from hat.event import eventer
from hat.event.server import eventer_client_runner as _cr
from hat.event.server.eventer_client import SyncedState

from pysym import simloop
from pysym.job import Job
from . import net, fakes, monitor
from .c15_notify import ASSUMPTIONS as _A


ASSUMPTIONS = [*_A]

ADDRS = [tcp.Address('127.0.0.1', 23001), tcp.Address('127.0.0.1', 23002)]
S = common.Status


class Run:

    def __init__(self, ctx):
        self.ctx = ctx
        self.p = ctx.params
        self.servers = [None, None]
        self.status = [S.STANDBY, S.STANDBY]
        self.synced = []
        self.active = []
        self.registered = [0, 0]

    async def up(self, i):
        if self.servers[i]:
            return

        async def on_register(info, events):
            self.registered[i] += 1

        async def on_query(info, params):
            for _ in range(self.p.slow):
                await asyncio.sleep(0)
            return common.QueryResult([], False)

        self.servers[i] = await eventer.listen(
            ADDRS[i], status=self.status[i], register_cb=on_register,
            query_cb=on_query)

    async def down(self, i):
        if self.servers[i]:
            srv, self.servers[i] = self.servers[i], None
            await srv.async_close()

    def conns(self, i):
        return self.servers[i].get_conn_infos() if self.servers[i] else []

    def on_active(self, value):
        ctx = self.ctx
        ctx.check(value == self.runner.remote_active, 'notified value')
        ctx.check(value != (self.active[-1] if self.active else False),
                  'notified without change')
        self.active.append(value)

    async def on_synced(self, server_id, state, count):
        self.synced.append((server_id, state, count))
        for _ in range(self.p.slow):
            await asyncio.sleep(0)


def data(i, **kw):
    return {'server_id': i + 2,
            'eventer_server': {'host': ADDRS[i].host, 'port': ADDRS[i].port},
            'server_token': 'a', **kw}


def configurations(token):
    """State of monitor server: (components, listed servers)"""
    info = monitor.info
    any_token = token is None
    own = info(1, name='x', data=data(0, server_id=1))
    a, b = info(2, data=data(0)), info(3, data=data(1))
    return {
        'none': ([own], []),
        'empty': ([], []),
        'a': ([own, a], [0]),
        'b': ([b, own], [1]),
        'both': ([a, own, b], [0, 1]),
        'name': ([own, info(2, name='x', data=data(0)), b], [0, 1]),
        'twice': ([own, a, info(4, data=data(0)), b], [0, 1]),
        'group': ([own, info(2, data=data(0), group='x'),
                   info(3, data=data(1), group=None)], []),
        'bad': ([own, info(2, data=None), info(3, data=data(
            1, server_id='2')), info(4, data=[])], []),
        'bad2': ([own, info(2, data=data(0, eventer_server=None)),
                  info(3, data=data(1, eventer_server={
                      'host': ADDRS[1].host, 'port': '1'})), b], [1]),
        'token': ([own, info(2, data=data(0, server_token='b')), b],
                  [0, 1] if any_token else [1]),
        'no-token': ([own, info(2, data=data(0, server_token=None)),
                      info(3, data=data(1, server_token=2))],
                     [0] if any_token else [])}


async def _run(ctx, loop, network):
    p = ctx.params
    r = Run(ctx)
    token = ctx.pick('token', p.tokens)
    for i in range(2):
        if p.status:
            r.status[i] = ctx.pick(f'status{i}', [S.STANDBY, S.OPERATIONAL])
        await r.up(i)
    conf = {'name': 'x', 'server_id': 1,
            'monitor_component': {'group': 'event'}}
    if token is not None:
        conf['server_token'] = token
    backend = fakes.Backend()
    r.runner = runner = _cr.EventerClientRunner(conf, backend, r.on_synced)
    runner.register_remote_active_cb(r.on_active)
    listed = set()
    confs = configurations(token)
    closing = False

    async def quiet():
        # remote servers are polled every 5 seconds
        await asyncio.sleep(11)
        await loop.settle()
        ctx.check(runner.is_open != closing, 'runner is closed')
        exp = set()
        for i in range(2):
            conns = r.conns(i)
            if i in listed and r.servers[i] and not closing:
                exp.add(i)
                ctx.check(len(conns) == 1, f'{len(conns)} connections')
                c = conns[0]
                ctx.check(c.client_name == 'event/x' and
                          c.client_token == token and
                          c.server_id == i + 2 and c.persisted,
                          'connection')
                ctx.check([x[:2] for x in r.synced if x[0] == i + 2][-2:] ==
                          [(i + 2, SyncedState.CONNECTED),
                           (i + 2, SyncedState.SYNCED)], 'synchronization')
                ctx.reach('connected')
            else:
                # open connection is used although no longer listed
                ctx.check(not conns or (i not in listed and not closing and
                                        i in kept), 'connected')
                if conns:
                    exp.add(i)
        active = any(r.status[i] != S.STANDBY for i in exp)
        ctx.check(runner.remote_active == active, 'remote active')
        ctx.check((r.active[-1] if r.active else False) == active,
                  'notified remote active')
        if active:
            ctx.reach('active')
        kept.clear()
        kept.update(exp)

    kept = set()
    for k, op in enumerate(p.ops):
        if op == '?':
            op = ctx.pick(f'op{k}', p.choice)
        if op == '-':
            await quiet()
        elif op == '.':
            await loop.steps(ctx.pick(f'gap{k}', p.gap))
        elif op == ':':
            await asyncio.sleep(5)
            await loop.steps(ctx.pick(f'gap{k}', p.gap))
        elif op == 'm':
            name = ctx.pick(f'conf{k}', p.confs or list(confs))
            components, x = confs[name]
            own = [i for i in components if i.name == 'x']
            # whatever is connected at this moment
            kept.update(i for i in range(2) if i in listed)
            listed = set(x)
            if runner.is_open:
                runner.set_monitor_state(State(own[0] if own else None,
                                               components))
        elif op in 'du':
            i = ctx.pick(f'srv{k}', p.who)
            await (r.down(i) if op == 'd' else r.up(i))
        elif op == 's':
            i = ctx.pick(f'srv{k}', p.who)
            r.status[i] = ctx.pick(f'st{k}', [S.STANDBY, S.STARTING,
                                              S.OPERATIONAL, S.STOPPING])
            if r.servers[i]:
                await r.servers[i].set_status(r.status[i])
        elif op == 'l':
            # new connections are only to listed servers
            for i in range(2):
                if i not in listed and r.conns(i):
                    kept.discard(i)
                    ctx.reach('gone')
            for ends in network.ends:
                if ends[0].is_open and ends[1].is_open:
                    for e in ends:
                        e.lose()
        elif op == 'x':
            runner.close()
            closing = True
    await quiet()
    await runner.async_close()
    await loop.settle()
    ctx.check(runner.remote_active is False, 'remote active when closed')
    ctx.check(not r.conns(0) and not r.conns(1), 'connection is not closed')
    ctx.reach('end')


async def _moved(ctx, loop, network):
    """Remote servers change their addresses: each listed (identifier,
    address) is connected to, the ones which are gone do not influence
    others"""
    p = ctx.params
    r = Run(ctx)
    for i in range(2):
        r.status[i] = ctx.pick(f'status{i}', [S.STANDBY, S.OPERATIONAL])
        await r.up(i)
    backend = fakes.Backend()
    r.runner = runner = _cr.EventerClientRunner(
        {'name': 'x', 'server_id': 1, 'monitor_component': {'group': 'event'}},
        backend, r.on_synced)
    runner.register_remote_active_cb(r.on_active)
    # (address, identifier)
    confs = {'a': [(0, 2)], 'other-addr': [(1, 2)], 'other-id': [(0, 3)],
             'id-addr': [(1, 2), (0, 3)], 'both-id': [(0, 2), (0, 3)],
             'both-addr': [(0, 2), (1, 2)], 'none': []}
    listed = []

    async def quiet():
        await asyncio.sleep(11)
        await loop.settle()
        ctx.check(runner.is_open, 'runner is closed')
        conns = [(i, c.server_id) for i in range(2) for c in r.conns(i)]
        ctx.check(len(set(conns)) == len(conns), 'connected twice')
        ctx.check(set(listed) <= set(conns), 'not connected')
        ctx.check(set(conns) <= {*listed, *kept}, 'connected')
        kept.clear()
        kept.update(conns)
        active = any(r.status[i] != S.STANDBY for i, _ in conns)
        ctx.check(runner.remote_active == active, 'remote active')
        ctx.check((r.active[-1] if r.active else False) == active,
                  'notified remote active')
        if active and len(conns) > len(listed):
            ctx.reach('active')

    kept = set()
    for k, op in enumerate(p.ops):
        if op == '?':
            op = ctx.pick(f'op{k}', 'ls')
        if op == 'm':
            listed = confs[ctx.pick(f'conf{k}', p.confs or list(confs))]
            runner.set_monitor_state(State(None, [
                monitor.info(n, data=data(i, server_id=sid))
                for n, (i, sid) in enumerate(listed)]))
        elif op == 's':
            i = ctx.pick(f'srv{k}', (0, 1))
            r.status[i] = ctx.pick(f'st{k}', [S.STANDBY, S.OPERATIONAL])
            await r.servers[i].set_status(r.status[i])
        elif op == 'l':
            live = [ends for ends in network.ends
                    if ends[0].is_open and ends[1].is_open]
            if live:
                ends = live[ctx.pick(f'lost{k}', range(len(live)))]
                for e in ends:
                    e.lose()
                await loop.settle()
                ctx.reach('lost')
        await quiet()
    await runner.async_close()
    await loop.settle()
    ctx.check(runner.remote_active is False, 'remote active when closed')
    ctx.check(not r.conns(0) and not r.conns(1), 'connection is not closed')
    ctx.reach('end')


def moved(ctx):
    async def main(ctx, loop):
        with net.installed() as network:
            await _moved(ctx, loop, network)
    simloop.run(ctx, main)


def run(ctx):
    async def main(ctx, loop):
        with net.installed() as network:
            await _run(ctx, loop, network)
    simloop.run(ctx, main)


def jobs(tier):
    quick = tier == 'quick'
    base = dict(tokens=[None], ops='-', choice='', gap=(), confs=(),
                who=(0,), slow=0, status=False)

    def job(name, bounds, require=('connected',), **kw):
        return Job(name, run, {**base, **kw}, require=('end', *require),
                   bounds=bounds)

    yield job('select', 'any 2 consecutive states of monitor server',
              tokens=[None, 'a'], ops='m-m-')
    yield Job('moved', moved, dict(ops='mm?' if quick else 'mm??', confs=(), slow=0),
              require=('end', 'lost', 'active'),
              bounds='any 2 of 7 lists of servers which change addresses and '
              'identifiers, 1 (thorough 2) changes of status or losses of '
              'connection')
    yield job('status', '2 servers, up to 3 of: change of status, loss of '
              'connection, change of monitor state', status=True,
              who=(0, 1), ops='m-???-', choice='slm', require=(
                  'connected', 'active'), confs=('both', 'none', 'b'))
    yield job('moment', '2 of: change of status, loss of connection, server '
              'closed, change of monitor state, at any moment', who=(0,),
              ops='m.?.?-', choice='slmd', slow=2, confs=('both', 'none'),
              gap=range(0, 32, 4 if quick else 1))
    yield job('reconnect', '2 of: server closed and opened, change of '
              'monitor state, after loss of connection', who=(0,),
              ops='m-l:?:?-', choice='dum', confs=('a', 'none'),
              gap=range(0, 24, 4 if quick else 2))
    yield job('close', 'closing at any moment', who=(0,), status=True,
              ops='m.?.x.m-', choice='sl-', slow=2, confs=('both',),
              require=(), gap=range(0, 30, 4 if quick else 2))
