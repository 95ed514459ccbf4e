import asyncio

from hat import aio

from hat.event import common
from hat.event.server import engine as _engine

from pysym import simloop
from pysym.job import Job
from . import lib, fakes


ASSUMPTIONS = [
    "the current time does not go backwards",
    "modules and back-end are arbitrary within: number of produced events, "
    "which calls take time (event loop iterations) and which call fails",
    "the event loop is single threaded (interleavings at await points)"]

TYPES = ['a', 'b', 'c']


class Run:

    def __init__(self, ctx):
        self.ctx = ctx
        p = self.p = ctx.params
        self.log = []
        self.busy = 0
        self.calls = 0
        self.budget = p.outputs
        self.outputs = []
        self.instances = []
        self.restarts = 0
        self.failed = False
        self.clock = fakes.Clock(ctx)
        self.requests = []      # (source, events)
        self.fail_at = (ctx.int('fail_at', 0, p.fail) if p.fail else None)
        self.none_at = (ctx.int('none_at', 0, p.none) if p.none else None)

    def fails(self):
        """Whether this call is the one which fails"""
        self.calls += 1
        if self.fail_at is None or self.failed or self.calls > self.p.fail:
            return False
        if self.fail_at == self.calls:
            self.failed = True
            return True
        return False

    # --- modules

    def call(self, module, op, x, event):
        if not self.p.pause:
            return self._call(module, op, x, event)

        async def f():
            r = self._call(module, op, x, event)
            self.busy += 1
            try:
                await asyncio.sleep(0)
            finally:
                self.busy -= 1
            return r

        return f()

    def _call(self, module, op, x, event):
        ctx = self.ctx
        ctx.check(self.busy == 0, 'module called while other call is active')
        self.log.append([op, module.source, x, event, None])
        if self.fails():
            raise Exception('module failed')
        if op != 'process':
            return
        n = 0
        i = len(self.outputs)
        if self.budget:
            n = ctx.pick(f'out{i}', range(self.budget + 1))
            self.budget -= n
        out = [self.register_event(f'o{i}_{j}', i * 10 + j)
               for j in range(n)]
        self.outputs.append(out)
        self.log[-1][4] = out
        if not n and ctx.params.pause:
            return
        return iter(out) if ctx.params.pause else out

    def register_event(self, name, i):
        ctx = self.ctx
        return common.RegisterEvent(
            type=(ctx.text(f'{name}_t', self.p.types),),
            source_timestamp=(lib.timestamp(ctx, f'{name}_st', 0, 2 ** 40)
                              if i % 2 else None),
            payload=common.EventPayloadJson(i))

    # --- backend

    async def on_register(self, events):
        self.ctx.check(self.busy == 0,
                       'backend called while module call is active')
        self.busy += 1
        try:
            if self.p.pause:
                await asyncio.sleep(0)
        finally:
            self.busy -= 1
        if self.fails():
            raise Exception('backend failed')
        n = len(self.backend.registered)
        if self.none_at is not None and n <= self.p.none:
            if self.none_at == n:
                return None
        return events

    async def register(self, engine, source, events):
        try:
            r = await engine.register(source, events)
            return ('ok', r)
        except asyncio.CancelledError:
            return ('cancelled', None)
        except Exception:
            return ('error', None)


async def _engine_run(ctx, loop, r):
    p = ctx.params
    server_id = 7
    last = common.EventId(server_id, ctx.int('session', 0, 2 ** 40),
                          ctx.int('instance', 0, 2 ** 20))
    backend = fakes.Backend(last, r.log)
    backend.on_register = r.on_register
    r.backend = backend

    confs = []
    subs = []
    for m in range(p.modules):
        q = [(ctx.text(f'sub{m}', p.subs),)]
        subs.append(q)
        confs.append({'module': 'harness.fakes', 'pause': m,
                      'subscription': common.create_subscription(q),
                      'call': r.call, 'instances': r.instances})
    engine = await _engine.create_engine(
        backend, None, confs, server_id, lambda: None, lambda: None,
        p.queue)
    ctx.check(engine.server_id == server_id, 'server id')
    sources = [m.source for m in r.instances]
    ctx.check(len(set(sources)) == p.modules and
              all(s.type == common.SourceType.MODULE for s in sources),
              'source of each module')

    r.requests.append((common.Source(common.SourceType.ENGINE, 0),
                       [common.RegisterEvent(
                           ('event', str(server_id), 'engine'), None,
                           common.EventPayloadJson('STARTED'))]))
    group = aio.Group()
    tasks = []
    close_at = ctx.pick('close_at', range(p.close)) if p.close else None
    cancel_at = ctx.pick('cancel_at', range(p.cancel)) if p.cancel else None
    closer = (ctx.pick('closer', ['close', 'module']) if p.close and p.modules
              else 'close')
    for i, n in enumerate(p.requests):
        source = common.Source(
            ctx.pick(f'src{i}', [common.SourceType.EVENTER,
                                 common.SourceType.MODULE]), i)
        events = [r.register_event(f'r{i}_{j}', 1000 + i * 10 + j)
                  for j in range(n)]
        r.requests.append((source, events))
        t = loop.create_task(r.register(engine, source, events))
        tasks.append(t)
        if not p.concurrent:
            await t
    empty = await r.register(engine, source, []) if not p.close else None
    if empty:
        ctx.check(empty[0] == 'ok' and list(empty[1]) == [],
                  'register without events')

    for i in range(max(p.close, p.cancel)):
        if i == close_at:
            if closer == 'close':
                engine.close()
            else:
                r.instances[0].close()
        if i == cancel_at:
            tasks[0].cancel()
        await asyncio.sleep(0)
    if not p.close:
        await loop.settle()
        if r.failed:
            ctx.check(engine.is_closing, 'engine not closed on failure')
        else:
            ctx.check(engine.is_open, 'engine closed')
            ctx.check(all(t.done() for t in tasks), 'register not finished')
    late = None
    if closer != 'close':
        await loop.settle()
        ctx.check(engine.is_closing, 'engine not closed with module')
    await engine.async_close()
    late = await r.register(engine, common.Source(
        common.SourceType.EVENTER, 99), [r.register_event('late', 0)])
    ctx.check(late[0] == 'error', 'closed engine registers events')
    await loop.settle()
    ctx.check(all(t.done() for t in tasks), 'register never finished')
    ctx.check(engine.is_closed, 'not closed')
    for m in r.instances:
        ctx.check(m.is_closed, 'module not closed')
    results = [t.result() if not t.cancelled() else ('cancelled', None)
               for t in tasks]
    verify(ctx, r, server_id, last, subs, results)
    ctx.reach('end')
    if r.failed:
        ctx.reach('failed')
    del group


def verify(ctx, r, server_id, last, subs, results):
    p = ctx.params
    clean = not r.failed and not p.close
    pending = list(range(len(r.requests)))
    registered = {}
    prev = last.session
    source_of = {m.source: i for i, m in enumerate(r.instances)}
    log = list(r.log)
    i = 0
    stopped = False
    backend_i = 0
    last_ts = None
    while i < len(log):
        ctx.check(not stopped, 'activity after engine has stopped')
        starts, calls, stops = [], [], []
        while i < len(log) and log[i][0] == 'start':
            starts.append(log[i])
            i += 1
        while i < len(log) and log[i][0] == 'process':
            calls.append(log[i])
            i += 1
        while i < len(log) and log[i][0] == 'stop':
            stops.append(log[i])
            i += 1
        if i >= len(log) or log[i][0] != 'register':
            ctx.fail('session without end')
        events = log[i][1]
        i += 1
        backend_i += 1
        ctx.check(len(events) > 0, 'session without events')

        sid = events[0].id.session
        stopped = (events[0].payload is not None and
                   ctx.eq(events[0].payload.data, 'STOPPED'))
        for j, e in enumerate(events):
            ctx.check(ctx.and_(e.id.server == server_id,
                               e.id.session == sid,
                               e.id.instance == j + 1), 'event id')
            ctx.check(ctx.and_(e.timestamp.s == events[0].timestamp.s,
                               e.timestamp.us == 0),
                      'timestamp of events in session')
            ctx.check(ctx.or_(*(e.timestamp.s == t.s
                                for t in r.clock.values)), 'timestamp')
        if last_ts is not None:
            ctx.check(events[0].timestamp.s >= last_ts.s, 'time goes back')
        last_ts = events[0].timestamp
        if clean:
            ctx.check(sid == prev + 1, 'session id not sequential')
        else:
            ctx.check(sid > prev, 'session id does not increase')
        prev = sid

        if stopped:
            # what precedes is session which was interrupted
            ctx.check(len(events) == 1 and
                      events[0].type == ('event', str(server_id), 'engine')
                      and events[0].source_timestamp is None, 'STOPPED event')
            if clean:
                ctx.check(not (starts or calls or stops),
                          'session without registration')
            continue

        # request of this session
        data = events[0].payload.data
        n = [k for k in pending
             if r.requests[k][1][0].payload.data == data]
        ctx.check(len(n) == 1, 'registration without request')
        n = n[0]
        if p.queue > 10:
            # (ones cancelled before they are made are left out)
            ctx.check(all(n > k for k in registered), 'order of requests')
        pending.remove(n)
        registered[n] = (backend_i, events)
        source, reg = r.requests[n]

        # modules notified of session
        for xs, what in ((starts, 'start'), (stops, 'stop')):
            ctx.check([x[1] for x in xs] == [m.source for m in r.instances],
                      f'session {what} notification')
            for x in xs:
                ctx.check(x[2] == sid, f'session id of {what} notification')

        # content of session
        expected = [(source, e) for e in reg]
        for c in calls:
            if c[4]:
                expected.extend((c[1], e) for e in c[4])
        ctx.check(len(events) == len(expected), 'events in session')
        for e, (_, x) in zip(events, expected):
            ctx.check(ctx.eq(
                (e.type, e.source_timestamp, e.payload),
                (x.type, x.source_timestamp, x.payload)),
                'content of event')

        # processing
        for m, (module, q) in enumerate(zip(r.instances, subs)):
            mine = [c for c in calls if source_of[c[1]] == m]
            exp = [(s, e) for e, (s, _) in zip(events, expected)
                   if lib.spec_any(ctx, e.type, q)]
            ctx.check(len(mine) == len(exp),
                      f'{len(mine)} events processed, expected {len(exp)}')
            for c, (s, e) in zip(mine, exp):
                ctx.check(c[2] == s, 'source of processed event')
                ctx.check(ctx.eq(c[3], e), 'processed event')
    ctx.check(stopped, 'STOPPED not registered')
    first = [e for e in log if e[0] == 'register'][0][1][0]
    if clean or 0 in registered:
        ctx.check(first.payload.data == 'STARTED' and
                  first.type == ('event', str(server_id), 'engine') and
                  first.source_timestamp is None, 'STARTED is not first')

    # results
    for k, (status, value) in enumerate(results):
        k += 1
        if clean:
            ctx.check(k in registered or status == 'cancelled',
                      'request not registered')
            ctx.check(status != 'error', 'registration failed')
        if status == 'cancelled':
            ctx.check(bool(p.cancel) and k == 1, 'cancelled')
        if status != 'ok':
            continue
        ctx.check(k in registered, 'result without registration')
        no, events = registered[k]
        if r.none_at is not None and no <= p.none and r.none_at == no:
            ctx.check(value is None, 'result of failed registration')
            ctx.reach('none')
            continue
        value = list(value) if value is not None else None
        n = len(r.requests[k][1])
        ctx.check(value is not None and len(value) == n, 'size of result')
        for a, b in zip(value, events):
            ctx.check(ctx.eq(a, b), 'result of registration')


def engine(ctx):
    r = Run(ctx)
    simloop.run(ctx, lambda ctx, loop: _engine_run(ctx, loop, r), r.clock)


def jobs(tier):
    quick = tier == 'quick'
    base = dict(modules=1, outputs=0, fail=0, none=0, pause=False,
                requests=(1,), concurrent=True, close=0, cancel=0,
                queue=1024, types=TYPES, subs=['?', 'a', 'b'])
    fixed = dict(types=['a'], subs=['?'])

    def job(name, bounds, require=(), **kw):
        return Job(name, engine, {**base, **kw}, require=('end', *require),
                   bounds=bounds)

    yield job('requests', '3 requests of up to 3 events, no modules',
              modules=0, requests=(1, 3, 2))
    yield job('sequential', '2 requests in sequence, 1 module, 2 outputs',
              requests=(2, 1), outputs=1 if quick else 2, concurrent=False)
    yield job('modules', '1 request, 2 modules, produced events',
              modules=2, requests=(2 if not quick else 1,), outputs=2)
    yield job('paused', '2 concurrent requests, 2 asynchronous modules, '
              '1 produced event', modules=2, requests=(1, 1), outputs=1,
              pause=True)
    yield job('none', '3 requests, any of which backend does not register',
              require=('none',), requests=(1, 2, 1), none=4, modules=0)
    yield job('cancel', '2 requests, first one cancelled at any moment',
              requests=(1, 1), pause=True, cancel=14)
    yield job('failure', '2 requests, 2 modules, any call failed',
              require=('failed',), modules=2, requests=(1, 1), outputs=1,
              fail=14)
    yield job('close', '3 requests, closed at any moment',
              modules=2, requests=(1, 1, 1), outputs=1, pause=True, close=28,
              **(fixed if quick else dict(types=['a', 'b'],
                                          subs=['?', 'a'])))
    yield job('close-full', '3 requests, queue of one, closed at any moment',
              modules=1, requests=(1, 2, 1), pause=True, close=14, queue=1,
              **fixed)
    if not quick:
        yield job('modules3', '3 modules, 2 produced events', modules=3,
                  requests=(1,), outputs=2)
        yield job('close-cancel', '2 requests, cancelled and closed',
                  modules=1, requests=(1, 1), pause=True, close=16,
                  cancel=12)
        yield job('failure-close', '2 requests, failure and closing',
                  modules=1, requests=(1, 1), pause=True, close=14, fail=10)
