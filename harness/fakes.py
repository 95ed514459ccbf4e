"""Environment of the server: backend and modules under harness control"""

import asyncio

from hat import aio

from hat.event import common


class Clock:
    """Arbitrary non-decreasing time"""

    def __init__(self, ctx, hi=2 ** 40):
        self.ctx = ctx
        self.values = []
        self.hi = hi

    def __call__(self):
        ctx = self.ctx
        i = len(self.values)
        t = common.Timestamp(ctx.int(f'clock{i}', 0, self.hi), 0)
        if self.values:
            ctx.assume(t.s >= self.values[-1].s)
        self.values.append(t)
        return t


class Backend(common.Backend):
    """Remembers what is registered.

    `on_register(events)`, if set, decides the result."""

    def __init__(self, last=None, log=None):
        self._group = aio.Group()
        self.last = last
        self.log = log if log is not None else []
        self.registered = []      # lists of events
        self.on_register = None
        self.on_query = None
        self.on_flush = None
        self.flushed = 0
        self.registered_cb = None

    @property
    def async_group(self):
        return self._group

    async def get_last_event_id(self, server_id):
        if callable(self.last):
            return await aio.call(self.last, server_id)
        if self.last is None:
            ids = [e.id for i in self.registered for e in i
                   if e.id.server == server_id]
            return max(ids, default=common.EventId(server_id, 0, 0))
        return self.last

    async def register(self, events):
        events = list(events)
        self.registered.append(events)
        self.log.append(('register', events))
        result = events
        if self.on_register:
            result = await aio.call(self.on_register, events)
        if self.registered_cb and events:
            await aio.call(self.registered_cb, events)
        return result

    async def query(self, params):
        self.log.append(('query', params))
        return await aio.call(self.on_query, params)

    async def flush(self):
        self.log.append(('flush', None))
        if self.on_flush:
            await aio.call(self.on_flush)
        self.flushed += 1


class Module(common.Module):

    def __init__(self, conf, engine, source):
        self.conf = conf
        self.engine = engine
        self.source = source
        self._group = aio.Group()
        self._subscription = conf['subscription']
        conf['instances'].append(self)

    @property
    def async_group(self):
        return self._group

    @property
    def subscription(self):
        return self._subscription

    def on_session_start(self, session_id):
        return self.conf['call'](self, 'start', session_id, None)

    def on_session_stop(self, session_id):
        return self.conf['call'](self, 'stop', session_id, None)

    def process(self, source, event):
        return self.conf['call'](self, 'process', source, event)


async def create(conf, engine, source):
    pause = conf.get('pause', 0)
    for _ in range(pause):
        await asyncio.sleep(0)
    if conf.get('fail'):
        raise Exception('module not created')
    return Module(conf, engine, source)


info = common.ModuleInfo(create=create)
