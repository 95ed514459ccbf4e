"""Monitor server (as seen by its clients) under harness control.

Speaks the observer protocol of hat-monitor over simulated transport; the
client side is real code of `hat.monitor`."""

import contextlib

from hat.drivers import chatter
from hat.drivers import tcp
from hat.monitor.observer import common

from hat import json


ADDR = tcp.Address('127.0.0.1', 23010)

BlessingReq = common.BlessingReq
BlessingRes = common.BlessingRes


def info(cid, name='s', group='event', data=None, req=None, res=None,
         ready=True, mid=0, rank=1):
    return common.ComponentInfo(
        cid=cid, mid=mid, name=name, group=group, data=data, rank=rank,
        blessing_req=BlessingReq(req, None),
        blessing_res=BlessingRes(res, ready))


class Monitor:

    def __init__(self):
        self.conns = {}          # connection: info
        self.extra = []          # other components
        self.auto = True         # distribute changes at once
        self.next_cid = 1
        self.names = {}          # name: last token requested

    async def listen(self, addr=ADDR):
        self.srv = await chatter.listen(self._on_connection, addr)

    def _on_connection(self, conn):
        conn.async_group.spawn(self._loop, conn)

    async def _loop(self, conn):
        cid = self.next_cid
        self.next_cid += 1
        try:
            while True:
                msg_type, msg = await common.receive_msg(conn)
                assert msg_type == 'HatObserver.MsgClient'
                name = msg['name']
                self.conns[conn] = common.ComponentInfo(
                    cid=cid, mid=0, name=name, group=msg['group'],
                    data=json.decode(msg['data']), rank=1,
                    blessing_req=BlessingReq(self.names.get(name), None),
                    blessing_res=common.blessing_res_from_sbs(
                        msg['blessingRes']))
                if self.auto:
                    await self.send()
        except ConnectionError:
            pass
        finally:
            conn.close()
            self.conns.pop(conn, None)

    def components(self):
        return [*self.conns.values(), *self.extra]

    def find(self, name):
        return [i for i in self.conns.values() if i.name == name]

    async def send(self):
        """Distribute the state"""
        components = [common.component_info_to_sbs(i)
                      for i in self.components()]
        for conn, i in list(self.conns.items()):
            try:
                await common.send_msg(conn, 'HatObserver.MsgServer', {
                    'cid': i.cid, 'mid': 0, 'components': components})
            except ConnectionError:
                pass

    async def bless(self, name, token):
        """Change requested token"""
        self.names[name] = token
        for conn, i in list(self.conns.items()):
            if i.name == name:
                self.conns[conn] = i._replace(
                    blessing_req=BlessingReq(token, None))
        await self.send()

    async def close_req(self, name):
        for conn, i in list(self.conns.items()):
            if i.name == name:
                with contextlib.suppress(ConnectionError):
                    await common.send_msg(conn, 'HatObserver.MsgClose', None)

    async def lose(self, name):
        for conn, i in list(self.conns.items()):
            if i.name == name:
                conn.close()
