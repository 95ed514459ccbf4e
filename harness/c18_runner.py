import asyncio

from hat import aio
from hat import util

from hat.event import common
from hat.event.server import engine_runner as _er
from hat.event.server.eventer_client import SyncedState

from pysym import simloop
from pysym.job import Job
from . import fakes


ASSUMPTIONS = [
    "modules and back-end take arbitrary stated number of event loop "
    "iterations",
    "the event loop is single threaded (interleavings at await points)"]


class EventerServer(aio.Resource):
    """Remembers statuses"""

    def __init__(self, r):
        self.r = r
        self._group = aio.Group()
        self.status = common.Status.STANDBY
        self.engine = None

    @property
    def async_group(self):
        return self._group

    def get_client_names(self):
        return [(common.Source(common.SourceType.EVENTER, 3), 'x')]

    async def set_status(self, status, engine):
        ctx = self.r.ctx
        ctx.check((engine is not None) ==
                  (status == common.Status.OPERATIONAL),
                  'engine of operational status')
        if status == common.Status.STARTING:
            ctx.check(not self.r.clients or not self.r.clients.remote_active,
                      'started while remote server is active')
        for _ in range(self.r.p.slow):
            await asyncio.sleep(0)
        self.r.on_status(self.status, status, engine)
        self.status, self.engine = status, engine
        for _ in range(self.r.p.slow):
            await asyncio.sleep(0)


class ClientRunner:

    def __init__(self, active):
        self.remote_active = active
        self.cbs = util.CallbackRegistry()

    def register_remote_active_cb(self, cb):
        return self.cbs.register(cb)

    def set(self, active):
        self.remote_active = active
        self.cbs.notify(active)


class Run:

    def __init__(self, ctx):
        self.ctx = ctx
        self.p = ctx.params
        self.log = []
        self.instances = []
        self.synced = []
        self.restarts = 0
        self.reset = 0
        self.engines = []

    def open_modules(self):
        return [m for m in self.instances if not m.is_closed]

    def on_status(self, old, new, engine):
        ctx = self.ctx
        S = common.Status
        self.log.append(new)
        if old == new:
            # status of the server is not changed
            return
        ctx.check((old, new) in ((S.STANDBY, S.STARTING),
                                 (S.STARTING, S.OPERATIONAL),
                                 (S.OPERATIONAL, S.STOPPING),
                                 (S.STARTING, S.STOPPING),
                                 (S.STANDBY, S.STOPPING),
                                 (S.STOPPING, S.STANDBY)),
                  f'status {old.name} changed to {new.name}')
        b = self.backend
        if new == S.STARTING:
            ctx.check(not self.open_modules(), 'previous engine is not closed')
        elif new == S.OPERATIONAL:
            ctx.check(engine not in self.engines, 'engine used again')
            self.engines.append(engine)
            n = [e for x in b.registered for e in x
                 if e.payload.data == 'STOPPED']
            ctx.check(len(n) == len(self.engines) - 1,
                      'previous engine has not stopped')
        elif new == S.STANDBY:
            for e in self.engines:
                ctx.check(e.is_closed, 'engine is not closed')
            ctx.check(not self.open_modules(), 'modules are not closed')
            ops = [i for i, _ in b.log]
            ctx.check('register' not in ops or 'flush' in ops[
                len(ops) - ops[::-1].index('register'):],
                'not flushed after engine has stopped')
            ctx.check(not self.flushing, 'flush in progress')

    def call(self, module, op, x, event):
        if op == 'start' and self.p.slow:
            return asyncio.sleep(0)

    async def on_flush(self):
        self.flushing = True
        for _ in range(self.p.slow * 2):
            await asyncio.sleep(0)
        self.flushing = False

    async def on_register(self, events):
        for _ in range(self.p.slow):
            await asyncio.sleep(0)
        return events


async def _runner(ctx, loop, r):
    p = ctx.params
    r.flushing = False
    r.backend = fakes.Backend()
    r.backend.on_register = r.on_register
    r.backend.on_flush = r.on_flush
    active = ctx.flag('active') if p.clients else False
    r.clients = ClientRunner(active) if p.clients else None
    srv = EventerServer(r)
    sub = common.create_subscription([('*',)])
    conf = {'server_id': 5,
            'modules': [{'module': 'harness.fakes', 'pause': i * 2,
                         'subscription': sub, 'call': r.call,
                         'fail': p.fail and i == p.modules - 1,
                         'instances': r.instances}
                        for i in range(p.modules)]}

    def reset():
        r.reset += 1

    runner = _er.EngineRunner(conf, r.backend, srv, r.clients, reset)
    closed_by = None
    expected_synced = []
    tasks = []
    restarted = []
    for k, op in enumerate(p.ops):
        if op == '?':
            op = ctx.pick(f'op{k}', p.choice)
        if op == '-':
            await loop.settle()
        elif op == '.':
            await loop.steps(ctx.pick(f'gap{k}', p.gap))
        elif op == 'a':        # remote server becomes active or inactive
            r.clients.set(not r.clients.remote_active)
        elif op == 'r':        # restart
            if r.engines and r.engines[-1].is_open:
                r.engines[-1].restart()
                r.restarts += 1
                restarted.append(r.engines[-1])
        elif op == 'R':        # requested by module
            for m in r.instances[-1:]:
                m.engine.restart()
                restarted.append(m.engine)
                m.engine.reset_monitor_ready()
        elif op == 'm':
            for m in r.open_modules()[-1:]:
                # restart could be under way
                closed_by = closed_by or (
                    'either' if m.engine in restarted else 'module')
                m.close()
        elif op == 'e':
            if r.engines and r.engines[-1].is_open:
                closed_by = closed_by or (
                    'either' if r.engines[-1] in restarted else 'engine')
                r.engines[-1].close()
        elif op == 'x':
            runner.close()
            closed_by = 'runner'
        elif op == 's':
            st = ctx.pick(f'st{k}', list(SyncedState))
            await loop.settle()
            if runner.is_open and srv.engine and srv.engine.is_open:
                expected_synced.append((st, k))
            tasks.append(loop.create_task(runner.set_synced(9, st, k)))
            await loop.settle()
    await loop.settle()

    # remote server is no longer active: engine is going to be operational
    if r.clients and r.clients.remote_active and not closed_by and \
            not p.fail:
        if not r.engines:
            ctx.check(srv.status == common.Status.STANDBY,
                      'operational while remote is active')
            ctx.reach('waiting')
        r.clients.set(False)
        await loop.settle()
    if closed_by == 'either':
        closed_by = 'engine' if runner.is_closed else None
    if closed_by or p.fail:
        ctx.check(runner.is_closed, 'runner not closed')
        ctx.check(srv.status == common.Status.STANDBY,
                  f'final status {r.log}')
        ctx.reach('closed')
    else:
        ctx.check(runner.is_open, 'runner closed')
        ctx.check(srv.status == common.Status.OPERATIONAL and
                  srv.engine.is_open, 'not operational')
        ctx.check(len(r.open_modules()) == p.modules, 'modules of engine')
        ctx.check(srv.engine not in restarted, 'restart ignored')
        ctx.check(srv.engine.server_id == 5 and list(
            srv.engine.get_client_names()) == srv.get_client_names(),
            'engine')
        ctx.check(len(r.engines) <= 1 + p.ops.count('r') + p.ops.count('R') +
                  p.ops.count('?'), 'number of restarts')
        ctx.check(len(r.engines) >= 1 + (r.restarts > 0), 'not restarted')
        if r.restarts:
            ctx.reach('restarted')
    got = [e for x in r.backend.registered for e in x if 'synced' in e.type]
    for e in got:
        ctx.check(e.type == ('event', '5', 'synced', '9') and
                  e.source_timestamp is None, 'synced event')
    if '.' not in p.ops:
        ctx.check([e.payload.data for e in got] ==
                  [{'state': s.name, **({'count': n} if s.name == 'SYNCED'
                                        else {})}
                   for s, n in expected_synced], 'synced events')
    for t in tasks:
        ctx.check(t.done() and t.exception() is None, 'set_synced failed')
    ctx.check(r.reset == p.ops.count('R') * bool(r.instances) or
              '.' in p.ops or '?' in p.ops, 'reset of monitor component')
    await runner.async_close()
    await loop.settle()
    ctx.check(srv.status == common.Status.STANDBY,
                  f'final status {r.log}')
    ctx.check(srv.engine is None, 'engine of closed runner')
    ids = [e.id for x in r.backend.registered for e in x]
    ctx.check(ids == sorted(ids), 'order of events')
    ctx.reach('end')


def runner(ctx):
    r = Run(ctx)

    async def main(ctx, loop):
        await _runner(ctx, loop, r)
    simloop.run(ctx, main)


def jobs(tier):
    quick = tier == 'quick'
    base = dict(modules=1, clients=False, ops='-', choice='', gap=(), slow=0,
                fail=False)

    def job(name, bounds, require=(), **kw):
        return Job(name, runner, {**base, **kw}, require=('end', *require),
                   bounds=bounds)

    yield job('restart', 'up to 3 of: restart, synchronization status, '
              'closing', ops='-???-', choice='rsmxe-',
              require=('closed', 'restarted'))
    yield job('restart-at', '2 restarts or closing at any moment', modules=2,
              ops='.?.?-', choice='rRmx',
              gap=range(0, 40, 2 if quick else 1), slow=2,
              require=('closed',))
    yield job('remote', 'up to 4 of: change of remote server, restart, '
              'closing', clients=True, ops='????-', choice='ar-x',
              require=('waiting', 'closed'))
    yield job('remote-at', 'changes of remote server and restart at any '
              'moment', clients=True, ops='.a.?.?-', choice='ar', slow=1,
              gap=range(0, 20, 3 if quick else 2), require=('waiting',))
    yield job('synced', 'up to 4 of: synchronization status, change of '
              'remote server, restart, closing', clients=True, ops='s????-',
              choice='asx' if quick else 'asrx', require=('waiting', 'closed'))
    yield job('fail', 'creation of module fails', modules=2, fail=True,
              ops='.?', choice='x-', gap=range(12), slow=1,
              require=('closed',))
    if not quick:
        yield job('remote-any', '5 changes', clients=True, ops='?????-',
                  choice='ar-xs', slow=1)
        yield job('three', '3 operations at any moment', modules=2,
                  ops='.?.?.?-', choice='rRmx', gap=range(0, 40, 4), slow=1,
                  require=('closed',))
