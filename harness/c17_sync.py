import asyncio

from hat.event import common
from hat.event import eventer
from hat.event.server import eventer_client as _ec
from hat.event.server.eventer_client import SyncedState

from pysym import simloop
from pysym.job import Job
from . import lib, net, fakes
from .c15_notify import ASSUMPTIONS as _A


ASSUMPTIONS = [
    *_A,
    "remote server persists and notifies whole sessions in order; events are "
    "queryable as soon as they are persisted, notification follows later",
    "local back-end ignores events which are not newer than last one of the "
    "same server (as LMDB back-end does, see C08)"]

LOCAL = 1
REMOTE = 2


class Remote:
    """History of remote server and its eventer server"""

    def __init__(self, ctx, p):
        self.ctx = ctx
        self.p = p
        self.sessions = []       # lists of events
        self.persisted = 0       # number of sessions
        self.infos = []
        self.gone = []
        self.reg = []            # registered by client
        self.queries = 0
        prev = None
        n = 0
        for i in range(p.sessions):
            ses = ctx.int(f's{i}', 1, 2 ** 40)
            if prev is not None:
                ctx.assume(ses > prev)
            prev = ses
            events = []
            for j in range(1 + (i + p.shift) % 2):
                events.append(common.Event(
                    id=common.EventId(REMOTE, ses, j + 1),
                    type=('a', str(n)),
                    timestamp=lib.timestamp(ctx, f'e{n}_t', 0, 2 ** 40),
                    source_timestamp=None,
                    payload=common.EventPayloadJson(n)))
                n += 1
            self.sessions.append(events)

    def events(self, a, b):
        return [e for s in self.sessions[a:b] for e in s]

    async def listen(self, status):
        self.srv = await eventer.listen(
            net.ADDR, status=status, connected_cb=self.infos.append,
            disconnected_cb=self.gone.append,
            register_cb=self.on_register, query_cb=self.on_query)

    def on_register(self, info, events):
        self.reg.extend(events)

    async def on_query(self, info, params):
        ctx = self.ctx
        self.queries += 1
        ctx.check(isinstance(params, common.QueryServerParams) and
                  params.server_id == REMOTE and params.persisted is True,
                  'query')
        for _ in range(self.p.slow_query):
            await asyncio.sleep(0)
        last = params.last_event_id
        out = [e for e in self.events(0, self.persisted)
               if last is None or lib.lt_id(ctx, last, e.id)]
        for _ in range(self.p.slow_query):
            await asyncio.sleep(0)
        n = self.page
        if params.max_results is not None:
            n = min(n, params.max_results)
        return common.QueryResult(out[:n], len(out) > n)

    async def flush(self, n, gap):
        """Persist n sessions and notify clients"""
        loop = asyncio.get_running_loop()
        a = self.persisted
        b = min(a + n, len(self.sessions))
        if a == b:
            return
        self.persisted = b
        await loop.steps(gap)
        other = common.Event(id=common.EventId(LOCAL, 1, 1), type=('a',),
                             timestamp=common.Timestamp(0, 0),
                             source_timestamp=None, payload=None)
        await self.srv.notify_events([other, *self.events(a, b)], True)
        # events not persisted yet
        await self.srv.notify_events([other, *self.events(b, None)], False)


class Local:

    def __init__(self, ctx, p, last):
        self.ctx = ctx
        self.p = p
        self.last = last
        self.accepted = []
        self.calls = []
        self.count = 0
        self.failed = False
        self.backend = fakes.Backend(self.get_last)
        self.backend.on_register = self.on_register
        self.synced = []
        self.statuses = []
        self.fail_at = ctx.int('fail', 1, p.fail) if p.fail else None

    async def get_last(self, server_id):
        self.ctx.check(server_id == REMOTE, 'identifier of remote server')
        return self.last

    async def on_register(self, events):
        ctx = self.ctx
        self.count += 1
        if self.fail_at is not None and self.count <= self.p.fail and \
                self.fail_at == self.count:
            self.failed = True
            raise Exception('registration failed')
        self.calls.append(events)
        for _ in range(self.p.slow):
            await asyncio.sleep(0)
        for e in events:
            ctx.check(e.id.server == REMOTE, 'event of other server')
            if lib.lt_id(ctx, self.last, e.id):
                self.last = e.id
                self.accepted.append(e)
        return events

    async def on_synced(self, state, count):
        self.synced.append((state, count))
        for _ in range(self.p.slow_cb):
            await asyncio.sleep(0)

    def on_status(self, status):
        self.statuses.append(status)


async def _sync(ctx, loop, network):
    p = ctx.params
    remote = Remote(ctx, p)
    remote.page = ctx.pick('page', p.page)
    remote.persisted = ctx.pick('persisted', range(p.persisted + 1))
    start = ctx.pick('start', range(remote.persisted + 1))
    status = ctx.pick('status', [common.Status.STANDBY,
                                 common.Status.OPERATIONAL]) \
        if p.status else common.Status.STANDBY
    remote.status = status
    await remote.listen(status)
    last = (remote.sessions[start - 1][-1].id if start else
            common.EventId(REMOTE, 0, 0))
    local = Local(ctx, p, last)
    clients = []

    async def connect():
        c = await _ec.create_eventer_client(
            net.ADDR, 'event/x', LOCAL, REMOTE, local.backend,
            client_token='token',
            status_cb=local.on_status if p.cbs else None,
            synced_cb=local.on_synced if p.cbs else None)
        clients.append(c)

    # get_last_event_id is asynchronous
    async def run():
        for k, op in enumerate(p.ops):
            if op == '?':
                op = ctx.pick(f'op{k}', p.choice)
            if op == 'f':
                await remote.flush(
                    1, ctx.pick(f'gap{k}', p.flush_gap))
            elif op == 'F':
                await remote.flush(2, 0)
            elif op == '.':
                await loop.steps(ctx.pick(f'gap{k}', p.gap))
            elif op == '-':
                await loop.settle()
            elif op == 'o':
                remote.status = common.Status.OPERATIONAL
                await remote.srv.set_status(common.Status.OPERATIONAL)
            elif op == 's':
                remote.status = common.Status.STANDBY
                await remote.srv.set_status(common.Status.STANDBY)
            elif op == 'l' and clients:
                for end in network.ends[-1]:
                    end.lose()

    t = loop.create_task(connect())
    await run()
    await loop.settle()
    ctx.check(t.done(), 'not connected')
    if t.exception():
        ctx.check('l' in p.ops + p.choice, 'can not connect')
    lost = not clients or clients[-1].is_closed
    ctx.check(not lost or local.failed or 'l' in p.ops + p.choice,
              'connection closed')

    def verify(complete, msg):
        exp = remote.events(start, remote.persisted)
        got = local.accepted
        if complete:
            ctx.check(len(got) == len(exp),
                      f'{msg}: {len(got)} events, expected {len(exp)}')
        else:
            ctx.check(len(got) <= len(exp), f'{msg}: too many events')
        for a, b in zip(got, exp):
            ctx.check(ctx.eq(a, b), f'{msg}: event')
        # sessions are not split
        for s in remote.sessions[start:]:
            for call in local.calls:
                n = sum(e.payload.data == x.payload.data
                        for e in call for x in s)
                ctx.check(n in (0, len(s)), f'{msg}: divided session')

    if local.failed:
        ctx.check(lost, 'client open after failed registration')
        ctx.reach('failed')
    if lost:
        verify(False, 'lost')
        ctx.reach('lost')
    else:
        verify(True, 'synchronized')
        if p.cbs:
            check_synced(ctx, p, remote, local, clients[-1], status)
        else:
            ctx.check(clients[-1].synced == SyncedState.SYNCED, 'synced')
            ctx.reach('synced')

    if lost:
        # reconnection
        local.synced.clear()
        remote.reg.clear()
        local.statuses.clear()
        status = remote.status
        await connect()
        await loop.settle()
        ctx.check(clients[-1].is_open, 'reconnected client closed')
        verify(True, 'reconnected')
        await remote.flush(1, 0)
        await loop.settle()
        verify(True, 'reconnected')
    c = clients[-1]
    i = remote.infos[-1]
    ctx.check(i.client_name == 'event/x' and i.client_token == 'token' and
              i.server_id == REMOTE and i.persisted is True and
              i.subscription.matches(()) and i.subscription.matches(('a',)),
              'properties of client')
    c.close()
    await loop.settle()
    ctx.check(c.is_closed, 'not closed')
    ctx.check(len(remote.gone) == len(remote.infos), 'connections')
    await remote.srv.async_close()
    ctx.reach('end')


def check_synced(ctx, p, remote, local, client, status):
    """Sequence of synchronization states"""
    ctx.check(client.synced == SyncedState.SYNCED, 'synced state')
    states = [s for s, _ in local.synced]
    with_events = SyncedState.SYNCING in states
    ctx.check(states == [SyncedState.CONNECTED,
                         *([SyncedState.SYNCING] if with_events else []),
                         SyncedState.SYNCED], 'states of synchronization')
    count = local.synced[-1][1]
    ctx.check(all(c is None for _, c in local.synced[:-1]),
              'count of unfinished synchronization')
    ctx.check((count > 0) == with_events, 'count')
    n = len(remote.events(0, p.persisted))
    if not p.ops.strip('-.os'):
        ctx.check(count == len(local.accepted), 'number of synced events')
    ctx.check(count <= len(local.accepted), 'number of synced events')
    del n
    exp = []
    data = []
    for e in remote.reg:
        ctx.check(e.type == ('event', str(LOCAL), 'synced', str(REMOTE)) and
                  e.source_timestamp is None, 'synced event')
        data.append(e.payload.data)
    for s, c in local.synced:
        exp.append({'state': s.name, **({'count': c}
                                        if s.name == 'SYNCED' else {})})
    # repeated each time remote server becomes operational
    again = [d for d in data
             if d not in exp or ('count' in d and d['count'] is None)]
    rest = []
    j = 0
    operational = sum(s == common.Status.OPERATIONAL
                      for s in local.statuses)
    repeats = 0
    for d in data:
        if j < len(exp) and d == exp[j]:
            rest.append(d)
            j += 1
        else:
            repeats += 1
            # state as it was
            prev = dict(exp[j - 1]) if j else None
            if prev and 'count' in prev:
                prev['count'] = None
            ctx.check(d == prev, 'repeated synced event')
    ctx.check(j == len(exp), 'synced events')
    ctx.check(repeats <= operational, 'repeated synced events')
    if p.status and '-o' in p.ops:
        ctx.check(repeats == operational, 'synced events not repeated')
    ctx.check(client.status == remote.status, 'status of client')
    prev = status if p.ops.startswith('-') else None
    for s in local.statuses:
        ctx.check(s != prev, 'status notified without change')
        prev = s
    ctx.reach('synced')
    del again


def sync(ctx):
    async def main(ctx, loop):
        with net.installed() as network:
            await _sync(ctx, loop, network)
    simloop.run(ctx, main)


def jobs(tier):
    quick = tier == 'quick'
    base = dict(sessions=3, shift=0, persisted=3, page=(1, 2, 100), ops='-',
                choice='', gap=(), flush_gap=(0,), slow=0, slow_query=0,
                status=False, fail=0, cbs=True, slow_cb=0)

    def job(name, bounds, require=('synced',), **kw):
        return Job(name, sync, {**base, **kw}, require=('end', *require),
                   bounds=bounds)

    for shift in (0, 1):
        yield job(f'query{shift}', '3 sessions, any page and starting point',
                  shift=shift, slow=shift)
        yield job(f'notify{shift}', '3 sessions, 2 flushes at any moment of '
                  'synchronization', shift=shift, persisted=1,
                  ops='.f.f-', gap=range(0, 30, 3 if quick else 1),
                  flush_gap=(0, 4) if quick else (0, 2, 5, 9),
                  slow=2, slow_query=2, page=(1, 100))
    yield job('flush-at', '3 sessions, flush at any moment, notification '
              'any time later', persisted=1, ops='.f-', gap=range(36),
              flush_gap=range(0, 20, 4), slow_query=1, page=(1,),
              sessions=2, slow=1)
    yield job('slow-callback', '2 sessions, flush at any moment, slow '
              'callback', persisted=1, ops='.f-', gap=range(48), page=(1,),
              sessions=2, slow_cb=9)
    yield job('cached', '3 sessions, 3 flushes during synchronization',
              persisted=0, ops='.ff.f-', gap=range(0, 32, 2 if quick else 1),
              slow=5, slow_query=7, page=(100,), shift=1)
    yield job('lost', '3 sessions, connection lost at any moment',
              ops='.f.l-', gap=range(0, 28, 2), persisted=2, slow=1,
              page=(1, 100), require=('synced', 'lost'))
    yield job('failed', '3 sessions, any registration failed',
              ops='.f-', gap=range(0, 28, 3), persisted=2, slow=1, fail=4,
              page=(1, 100), require=('synced', 'failed'))
    yield job('status', '2 sessions, changes of status of remote server',
              sessions=2, persisted=2, status=True, ops='-???-', choice='osf',
              page=(100,))
    yield job('status-o', '2 sessions, operational status of remote server',
              sessions=2, persisted=2, status=True, ops='-o-s-o-',
              page=(100,))
    yield job('callbacks', '2 sessions, without callbacks', cbs=False,
              sessions=2, persisted=2, status=True, ops='-???-', choice='osf',
              page=(1, 100))
    yield job('status-any', '2 sessions, change of status any time',
              sessions=2, persisted=2, status=True, ops='.o.s-',
              gap=range(0, 24, 2), page=(1, 100))
