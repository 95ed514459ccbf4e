import asyncio
import contextlib
import logging
import logging.config
import os

from hat import aio
from hat import json
from hat.drivers import tcp

from hat.event import common
from hat.event import eventer
from hat.event.server import main as _main

from pysym import simloop
from pysym.job import Job
from . import lib, net, lmdbenv, monitor
from .c08_registration import ASSUMPTIONS as _B
from .c15_notify import ASSUMPTIONS as _A


ASSUMPTIONS = [
    *_A, *_B,
    "validation of data against schemas: model of the used part of JSON "
    "schema (validated by runs with real jsonschema)",
    "aio.run_asyncio runs the main coroutine on simulated event loop and "
    "cancels it as signal does; logging.config.dictConfig is a stand-in "
    "which remembers configurations"]

ADDR = tcp.Address('127.0.0.1', 23001)
ADMINER = tcp.Address('127.0.0.1', 23003)
LOG = {'version': 1}

# path: (kinds of valid values, required)
SERVER = {
    ('type',): ((), False),
    ('version',): (('str',), False),
    ('name',): (('str',), True),
    ('server_id',): (('int',), True),
    ('server_token',): (('str', 'null'), False),
    ('log',): ((), False),
    ('backend',): ((), True),
    ('backend', 'module'): ((), True),
    ('modules',): (('array',), True),
    ('modules', 0): ((), False),
    ('modules', 0, 'module'): ((), True),
    ('modules', 1, 'module'): ((), True),
    ('modules', 1, 'level'): (('int',), True),
    ('modules', 2, 'level'): (('int',), True),
    ('eventer_server',): ((), True),
    ('eventer_server', 'host'): (('str',), True),
    ('eventer_server', 'port'): (('int',), True),
    ('adminer_server',): ((), False),
    ('adminer_server', 'host'): (('str',), True),
    ('adminer_server', 'port'): (('int',), True),
    ('monitor_component',): ((), False),
    ('monitor_component', 'host'): (('str',), True),
    ('monitor_component', 'port'): (('int',), True),
    ('monitor_component', 'group'): (('str',), True)}

NUMBER = ('int', 'float')

LMDB = {
    ('backend', 'db_path'): (('path',), True),
    ('backend', 'identifier'): (('str', 'null'), True),
    ('backend', 'flush_period'): (NUMBER, True),
    ('backend', 'cleanup_period'): (NUMBER, True),
    ('backend', 'conditions'): (('array',), True),
    ('backend', 'conditions', 0): ((), False),
    ('backend', 'conditions', 0, 'subscriptions'): (('array',), True),
    ('backend', 'conditions', 0, 'condition'): ((), True),
    ('backend', 'latest'): ((), True),
    ('backend', 'latest', 'subscriptions'): (('array',), True),
    ('backend', 'latest', 'subscriptions', 0): (('array',), False),
    ('backend', 'latest', 'subscriptions', 0, 0): (('str',), False),
    ('backend', 'timeseries'): (('array',), True),
    ('backend', 'timeseries', 0): ((), False),
    ('backend', 'timeseries', 0, 'order_by'): ((), True),
    ('backend', 'timeseries', 0, 'subscriptions'): (('array',), True),
    ('backend', 'timeseries', 0, 'limit'): (('object',), False),
    ('backend', 'timeseries', 0, 'limit', 'min_entries'): (NUMBER, False),
    ('backend', 'timeseries', 0, 'limit', 'max_entries'): (NUMBER, False),
    ('backend', 'timeseries', 0, 'limit', 'duration'): (NUMBER, False),
    ('backend', 'timeseries', 0, 'limit', 'size'): (NUMBER, False),
    ('backend', 'timeseries_max_results'): (('int',), False),
    ('backend', 'timeseries_event_type_cache_size'): (('int',), False)}

KINDS = ('missing', 'null', 'bool', 'int', 'float', 'str', 'array', 'object')


def base(path, log):
    return {
        'type': 'event',
        'version': 'x',
        **({'log': LOG} if log else {}),
        'name': 'srv1',
        'server_id': 1,
        'server_token': None,
        'backend': {
            'module': 'hat.event.backends.lmdb',
            'db_path': path,
            'identifier': None,
            'flush_period': 30,
            'cleanup_period': 86400,
            'conditions': [{'subscriptions': [['b', '*']],
                            'condition': {'type': 'all',
                                          'conditions': []}}],
            'latest': {'subscriptions': [['*']]},
            'timeseries': [{'order_by': 'TIMESTAMP',
                            'subscriptions': [['*']],
                            'limit': {'min_entries': 1, 'max_entries': 10,
                                      'duration': 10.5, 'size': 10000}}],
            'timeseries_max_results': 10,
            'timeseries_event_type_cache_size': 10},
        'modules': [{'module': 'harness.fakes', 'level': 'x'},
                    {'module': 'harness.strict', 'level': 1},
                    {'module': 'harness.strict', 'level': 2}],
        'eventer_server': {'host': ADDR.host, 'port': ADDR.port},
        'adminer_server': {'host': ADMINER.host, 'port': ADMINER.port},
        'monitor_component': {'host': monitor.ADDR.host,
                              'port': monitor.ADDR.port,
                              'group': 'event'}}


def change(ctx, conf, name, fields):
    """Change one element, result is validity"""
    path = ctx.pick(f'{name}_path', list(fields))
    kind = ctx.pick(f'{name}_kind', KINDS)
    parent = conf
    for i in path[:-1]:
        parent = parent[i]
    last = path[-1]
    valid, required = fields[path]
    if kind == 'missing':
        if isinstance(last, int):
            parent.pop(last)
            return True
        del parent[last]
        return not required
    if kind == 'null':
        parent[last] = None
    elif kind == 'bool':
        parent[last] = ctx.flag(f'{name}_bool')
    elif kind == 'int':
        parent[last] = ctx.int(f'{name}_int', 1, 60000)
    elif kind == 'float':
        parent[last] = ctx.pick(f'{name}_float', (1.5, 60000.25))
    elif kind == 'str':
        if 'path' in valid:
            return True
        parent[last] = ctx.text(f'{name}_str', lib.SEGS)
    elif kind == 'array':
        parent[last] = []
    elif kind == 'object':
        parent[last] = {}
    return kind in valid


def resolve(repo, ref):
    schema_id, _, pointer = ref.partition('#')
    data = repo[schema_id]
    for i in pointer.split('/')[1:]:
        data = data[i]
    return data


def is_type(kind, data):
    if kind == 'null':
        return data is None
    if kind == 'boolean':
        return isinstance(data, bool)
    if kind == 'string':
        return isinstance(data, str)
    if kind == 'array':
        return isinstance(data, list)
    if kind == 'object':
        return isinstance(data, dict)
    if isinstance(data, bool):
        return False
    if isinstance(data, int):
        return True
    if isinstance(data, float):
        return kind == 'number' or data.is_integer()
    return False


def accepts(repo, schema, data):
    """Model of JSON schema (part of it which is used)"""
    for key, x in schema.items():
        if key == '$ref':
            ok = accepts(repo, resolve(repo, x), data)
        elif key == 'type':
            ok = any(is_type(i, data)
                     for i in (x if isinstance(x, list) else [x]))
        elif key == 'const':
            ok = json.equals(x, data)
        elif key == 'enum':
            ok = any(json.equals(i, data) for i in x)
        elif key == 'oneOf':
            ok = len([i for i in x if accepts(repo, i, data)]) == 1
        elif key == 'required':
            ok = not isinstance(data, dict) or all(i in data for i in x)
        elif key == 'properties':
            ok = not isinstance(data, dict) or all(
                accepts(repo, i, data[k]) for k, i in x.items() if k in data)
        elif key == 'items':
            ok = not isinstance(data, list) or all(
                accepts(repo, x, i) for i in data)
        elif key in ('patternProperties', '$schema', '$id', '$defs', 'title',
                     'description', 'default'):
            ok = True
        else:
            raise NotImplementedError(key)
        if not ok:
            return False
    return True


class Validator:

    def __init__(self, repo):
        self.repo = repo

    def validate(self, schema_id, data):
        if not accepts(self.repo, {'$ref': schema_id}, data):
            raise Exception('invalid data')


VALIDATORS = ['DefaultSchemaValidator', 'PySchemaValidator',
              'RsSchemaValidator']


class Process:
    """Environment of the process"""

    def __init__(self, ctx, network):
        self.ctx = ctx
        self.network = network
        self.runs = 0
        self.logs = []
        self.scenario = None
        self.cancelled = False

    def init_asyncio(self, policy=None):
        pass

    def run_asyncio(self, future, **kw):
        self.runs += 1

        async def main(ctx, loop):
            task = asyncio.ensure_future(future)
            driver = loop.create_task(self.scenario(loop, task))
            try:
                return await task
            finally:
                self.left = [t for t in asyncio.all_tasks(loop)
                             if t not in (driver, asyncio.current_task())]
                await asyncio.wait([driver])
                driver.result()

        return simloop.run(self.ctx, main)

    @contextlib.contextmanager
    def installed(self):
        saved = (aio.init_asyncio, aio.run_asyncio,
                 logging.config.dictConfig)
        validators = {i: getattr(json, i) for i in VALIDATORS
                      if hasattr(json, i)}
        if self.ctx.symbolic:
            for i in validators:
                setattr(json, i, Validator)
        aio.init_asyncio = self.init_asyncio
        aio.run_asyncio = self.run_asyncio
        logging.config.dictConfig = self.logs.append
        try:
            yield
        finally:
            (aio.init_asyncio, aio.run_asyncio,
             logging.config.dictConfig) = saved
            for i, x in validators.items():
                setattr(json, i, x)


def validate(ctx):
    """Exactly valid configurations are accepted"""
    p = ctx.params
    with lmdbenv.scratch() as path, net.installed() as network:
        r = Process(ctx, network)
        log = ctx.flag('log')
        conf = base(path, log)
        instances = []
        for m in conf['modules']:
            m.update(subscription=common.create_subscription([('*',)]),
                     call=lambda *args: None, instances=instances)
        valid = True
        for i, fields in enumerate(p.fields):
            try:
                valid = change(ctx, conf, f'c{i}', fields) and valid
            except (KeyError, TypeError, IndexError):
                ctx.assume(False)      # element does not exist

        async def scenario(loop, task):
            await loop.settle()
            ctx.reach('run')
            task.cancel()

        r.scenario = scenario
        error = None
        with r.installed():
            try:
                _main.sync_main(conf)
            except Exception as e:
                error = e
        if valid:
            ctx.check(error is None and r.runs == 1,
                      'valid configuration refused')
            ctx.check(r.logs == ([LOG] if 'log' in conf else []),
                      'log configuration')
            ctx.reach('valid')
        else:
            ctx.check(error is not None, 'invalid configuration accepted')
            ctx.check(not r.runs and not r.logs, 'started')
            ctx.check(not os.path.exists(path), 'database is created')
            ctx.reach('invalid')
        ctx.check(not network.servers, 'listening')


def lifecycle(ctx):
    """Cancelled at any moment, everything is closed"""
    p = ctx.params
    with lmdbenv.scratch() as path, net.installed() as network:
        r = Process(ctx, network)
        conf = base(path, True)
        del conf['backend']['timeseries'][0]['limit']
        with_monitor = ctx.flag('monitor')
        if not with_monitor:
            del conf['monitor_component']
        instances = []

        def call(module, op, x, event):
            if op == 'process':
                return slow(event)

        duration = ctx.pick('duration', (0, 1))

        async def slow(event):
            if duration:
                await aio.uncancellable(asyncio.sleep(duration))
            for _ in range(p.slow):
                await asyncio.sleep(0)

        conf['modules'][1:] = []
        for m in conf['modules']:
            m.update(subscription=common.create_subscription([('*',)]),
                     call=call, instances=instances)
        registered = []

        async def register(client):
            with contextlib.suppress(ConnectionError):
                for i in range(3):
                    events = await client.register([common.RegisterEvent(
                        type=('a', str(i)), source_timestamp=None,
                        payload=None)], True)
                    if events is not None:
                        registered.extend(e.id for e in events)

        async def scenario(loop, task):
            mon = None
            if with_monitor:
                mon = monitor.Monitor()
                await mon.listen()
                mon.names['srv1'] = 1
            moment = ctx.pick('moment', ('start', 'running'))
            if moment == 'running':
                await asyncio.sleep(1)
                await loop.settle()
                ctx.check(r.logs == [LOG], 'log configuration')
                if with_monitor:
                    ctx.check(mon.find('srv1'), 'not in monitor')
                    await mon.send()
                    await loop.settle()
                c = await eventer.connect(ADDR, 'c')
                ctx.check(c.status == common.Status.OPERATIONAL, 'status')
                loop.create_task(register(c))
                ctx.reach('running')
            await loop.steps(ctx.pick('gap', p.gap))
            cause = ctx.pick('cause', ('signal', 'signals', 'module'))
            if cause == 'module':
                if not instances:
                    cause = 'signal'
                else:
                    instances[0].close()
            if cause.startswith('signal'):
                task.cancel()
            if cause == 'signals':
                await loop.steps(ctx.pick('gap2', p.gap2))
                task.cancel()
            await asyncio.wait([task])
            ctx.reach(cause)
            left = [i for i in network.servers if i != monitor.ADDR]
            ctx.check(not left, 'still listening')
            await loop.settle()
            ctx.check(all(m.is_closed for m in instances),
                      'module is not closed')
            ctx.check(not mon or not mon.conns, 'connected to monitor')
            db = await lmdbenv.create(conf['backend'])
            result = await db.query(common.QueryTimeseriesParams())
            await db.async_close()
            ids = [e.id for e in result.events]
            ctx.check(all(i in ids for i in registered),
                      'registered event is not persisted')
            if registered:
                ctx.reach('registered')
            network.servers.pop(monitor.ADDR, None)

        r.scenario = scenario
        with r.installed():
            _main.sync_main(conf)
        ctx.check(r.runs == 1, 'runs')
        ctx.reach('end')


def jobs(tier):
    quick = tier == 'quick'

    def job(name, f, bounds, require, **kw):
        return Job(name, f, kw, require=require, bounds=bounds)

    yield job('server', validate, 'any change of one element of the '
              'configuration of server', ('valid', 'invalid', 'run'),
              fields=[SERVER])
    yield job('backend', validate, 'any change of one element of the '
              'configuration of backend', ('valid', 'invalid', 'run'),
              fields=[LMDB])
    yield job('cancel', lifecycle, 'end of server at any moment',
              ('end', 'running', 'signal', 'signals', 'module',
               'registered'),
              gap=range(0, 60, 3 if quick else 1),
              gap2=range(0, 20, 6 if quick else 2), slow=1)
    if not quick:
        yield job('both', validate, 'any change of two elements of the '
                  'configuration', ('valid', 'invalid', 'run'),
                  fields=[SERVER, LMDB])
