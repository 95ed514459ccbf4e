"""LMDB backend which is known to the harness"""

from hat import aio

from hat.event import common


async def create(conf, registered_cb, flushed_cb):
    if conf.get('fail'):
        raise Exception('backend not created')
    info = common.import_backend_info('hat.event.backends.lmdb')
    backend = await aio.call(info.create, conf, registered_cb, flushed_cb)
    conf['instances'].append(backend)
    return backend


info = common.BackendInfo(create=create)
