"""Network: chatter connections of the code under test over simulated
transport.

Everything above the byte stream is the real `hat.drivers.chatter` code
(queues, conversations, closing); transport is reliable ordered channel of
messages in each direction.  Delivery happens in following iteration of the
event loop, or when the harness decides (`hold`)."""

import asyncio
import collections
import contextlib

from hat import aio
from hat.drivers import chatter
from hat.drivers import tcp
from hat.drivers.net import TcpConnectionInfo
from hat.drivers.tcp import Address


class End(aio.Resource):
    """One end of the transport (stands for net.Connection)"""

    def __init__(self, net, name):
        self.net = net
        self.name = name
        self._async_group = aio.Group()
        self.peer = None
        self.rx = collections.deque()
        self.flight = collections.deque()      # sent by the peer
        self.eof = False
        self.waiter = None
        self.hold = net.hold
        self.stalled = False     # nothing can be written
        self.sent = []
        self.async_group.spawn(aio.call_on_cancel, self._on_close)

    @property
    def async_group(self):
        return self._async_group

    @property
    def info(self):
        return TcpConnectionInfo(name=self.name,
                                 local_addr=Address('127.0.0.1', 1),
                                 remote_addr=Address('127.0.0.1', 2))

    async def write(self, msg):
        if not self.is_open:
            raise ConnectionError()
        while self.stalled:
            await asyncio.sleep(0)
            if not self.is_open:
                raise ConnectionError()
        self.sent.append(msg)
        self.peer._arrive(msg)

    async def drain(self):
        pass

    async def read(self):
        while not self.rx:
            if self.eof:
                raise ConnectionError()
            self.waiter = asyncio.get_running_loop().create_future()
            try:
                await self.waiter
            finally:
                self.waiter = None
        return self.rx.popleft()

    def _arrive(self, msg):
        self.flight.append(msg)
        if not self.hold:
            asyncio.get_running_loop().call_soon(self.deliver)

    def deliver(self):
        """Deliver next message (or the end of stream)"""
        if not self.flight:
            return False
        msg = self.flight.popleft()
        if msg is None:
            self._end()
        else:
            self.rx.append(msg)
            self._wake()
        return True

    def release(self):
        self.hold = False
        while self.deliver():
            pass

    def lose(self):
        """Connection is lost: nothing more is received"""
        self.flight.clear()
        self._end()

    def _end(self):
        self.eof = True
        self._wake()
        self.close()

    def _wake(self):
        if self.waiter and not self.waiter.done():
            self.waiter.set_result(None)

    def _on_close(self):
        # what is already sent is delivered to the peer
        self.eof = True
        self.flight.clear()
        if not self.peer.eof:
            self.peer._arrive(None)


class Conn(chatter.Connection):

    async def _read(self):
        return await self._conn.read()

    async def _write(self, msg):
        await self._conn.write(msg)


class Server(aio.Resource):

    def __init__(self, net, cb, addr, bind, kw):
        self.net = net
        self.cb = cb
        self.addr = addr
        self.bind = bind
        self.kw = kw
        self._async_group = aio.Group()
        self.async_group.spawn(aio.call_on_cancel, self._on_close)

    @property
    def async_group(self):
        return self._async_group

    def _on_close(self):
        if self.net.servers.get(self.addr) is self:
            del self.net.servers[self.addr]

    async def _on_connection(self, end):
        conn = None
        try:
            conn = self.net.conn(end, self.kw)
            self.net.accepted.append(conn)
            try:
                await aio.call(self.cb, conn)
            except Exception:
                await aio.uncancellable(conn.async_close())
            except BaseException:
                await aio.uncancellable(conn.async_close())
                raise
            if self.bind:
                await conn.wait_closing()
            else:
                conn = None
        finally:
            if conn:
                await aio.uncancellable(conn.async_close())


class Net:

    def __init__(self):
        self.servers = {}
        self.hold = False
        self.ends = []        # (client end, server end)
        self.accepted = []
        self.attempts = []    # (time, address)

    def conn(self, end, kw):
        return Conn(conn=end,
                    ping_delay=None,
                    ping_timeout=20,
                    receive_queue_size=kw.get('receive_queue_size', 1024),
                    send_queue_size=kw.get('send_queue_size', 1024))

    async def connect(self, addr, *, ping_delay=20, ping_timeout=20, **kw):
        self.attempts.append((asyncio.get_running_loop().time(), addr))
        await asyncio.sleep(0)
        server = self.servers.get(addr)
        if server is None or not server.is_open:
            raise ConnectionRefusedError()
        a, b = End(self, kw.get('name') or 'client'), End(self, 'server')
        a.peer, b.peer = b, a
        self.ends.append((a, b))
        server.async_group.spawn(server._on_connection, b)
        return self.conn(a, kw)

    async def listen(self, connection_cb, addr, *, ping_delay=20,
                     ping_timeout=20, bind_connections=True, **kw):
        if addr in self.servers:
            raise OSError('address in use')
        server = Server(self, connection_cb, addr, bind_connections, kw)
        self.servers[addr] = server
        return server

    def release(self):
        self.hold = False
        for pair in self.ends:
            for end in pair:
                end.release()


ADDR = tcp.Address('127.0.0.1', 23012)


@contextlib.contextmanager
def installed():
    """Use simulated network instead of chatter's own"""
    net = Net()
    saved = chatter.connect, chatter.listen
    chatter.connect, chatter.listen = net.connect, net.listen
    try:
        yield net
    finally:
        chatter.connect, chatter.listen = saved
