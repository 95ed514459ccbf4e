"""LMDB backend in a scratch directory, with its reference model."""

import contextlib
import os
import shutil
import tempfile

from hat import aio

from hat.event import common

from pysym import lmdbmodel, simloop
from . import lib


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='verif-lmdb-')
    lmdbmodel.reset()
    try:
        yield os.path.join(d, 'event.db')
    finally:
        lmdbmodel.reset()
        shutil.rmtree(d, ignore_errors=True)


ALL = [['*']]


def conf(path, identifier=None, flush_period=1000000, cleanup_period=1000000,
         conditions=(), latest=ALL, timeseries=None, **kw):
    if timeseries is None:
        timeseries = [{'order_by': 'TIMESTAMP', 'subscriptions': ALL}]
    return {'db_path': path,
            'identifier': identifier,
            'flush_period': flush_period,
            'cleanup_period': cleanup_period,
            'conditions': list(conditions),
            'latest': {'subscriptions': latest},
            'timeseries': timeseries,
            **kw}


async def create(c, registered_cb=None, flushed_cb=None):
    info = common.import_backend_info('hat.event.backends.lmdb')
    return await aio.call(info.create, c, registered_cb, flushed_cb)


def run(ctx, f, now=None):
    """Run f(ctx, loop, path)"""
    with scratch() as path:
        return simloop.run(ctx, lambda ctx, loop: f(ctx, loop, path), now)


# --- events ------------------------------------------------------------------

def event(ctx, name, servers=None, types=('a', 'b', 'c'), source=None,
          type_=None, payload=None, small=False):
    """Event with arbitrary id and timestamp"""
    hi = 2 ** 16 if small else lib.I64
    server = (ctx.int(f'{name}_srv', 0, hi) if servers is None else
              ctx.pick(f'{name}_srv', servers))
    return common.Event(
        id=common.EventId(server=server,
                          session=ctx.int(f'{name}_ses', 0, hi),
                          instance=ctx.int(f'{name}_ins', 0, hi)),
        type=((ctx.text(f'{name}_type', types),) if type_ is None else type_),
        timestamp=lib.timestamp(ctx, f'{name}_t',
                                -hi if small else -2 ** 63,
                                hi if small else 2 ** 63 - 1),
        source_timestamp=source,
        payload=payload)


def ordered(ctx, events):
    """Assume: registered as engines do - ids of each server increase,
    timestamps do not decrease, id is not the initial one"""
    for i, a in enumerate(events):
        ctx.assume(ctx.or_(a.id.session > 0, a.id.instance > 0))
        for b in events[:i]:
            same = ctx.eq(a.id.server, b.id.server)
            ctx.assume(ctx.implies(same, ctx.and_(
                lib.lt_id(ctx, b.id, a.id),
                ctx.not_(lib.lt_ts(ctx, a.timestamp, b.timestamp)))))


# --- reference model ---------------------------------------------------------

class Model:
    """What the backend is expected to contain"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.last = []          # (server id, event id, timestamp), one each
        self.accepted = []
        self.latest = []        # one event of each type

    def last_of(self, server):
        for i, (s, _, __) in enumerate(self.last):
            if self.ctx.eq(s, server):
                return i
        return None

    def last_event_id(self, server):
        i = self.last_of(server)
        if i is None:
            return common.EventId(server, 0, 0)
        return self.last[i][1]

    def acceptable(self, e):
        ctx = self.ctx
        i = self.last_of(e.id.server)
        if i is None:
            return ctx.or_(e.id.session > 0, e.id.instance > 0)
        _, last_id, last_ts = self.last[i]
        return ctx.and_(lib.lt_id(ctx, last_id, e.id),
                        ctx.not_(lib.lt_ts(ctx, e.timestamp, last_ts)))

    def register(self, e):
        if not self.acceptable(e):
            return False
        i = self.last_of(e.id.server)
        if i is None:
            self.last.append((e.id.server, e.id, e.timestamp))
        else:
            self.last[i] = (e.id.server, e.id, e.timestamp)
        self.accepted.append(e)
        self.add_latest(e)
        return True

    def add_latest(self, e):
        for i, p in enumerate(self.latest):
            if self.ctx.eq(p.type, e.type):
                if not self.newer(p, e):
                    self.latest[i] = e
                return
        self.latest.append(e)

    def newer(self, a, b):
        """a is known to be after b, which is registered later"""
        ctx = self.ctx
        if ctx.eq(a.id.server, b.id.server):
            return lib.lt_id(ctx, b.id, a.id)
        return lib.lt_ts(ctx, b.timestamp, a.timestamp)

    def of_server(self, server):
        return [e for e in self.accepted
                if self.ctx.eq(e.id.server, server)]

    def sorted(self, events, key):
        """Insertion sort: stable, ascending by key then id"""
        ctx = self.ctx
        out = []
        for e in events:
            i = len(out)
            while i:
                p = out[i - 1]
                if ctx.or_(lib.lt_ts(ctx, key(e), key(p)),
                           ctx.and_(ctx.eq(key(e), key(p)),
                                    lib.lt_id(ctx, e.id, p.id))):
                    i -= 1
                else:
                    break
            out.insert(i, e)
        return out


def same_list(ctx, got, expected, msg):
    got = list(got)
    ctx.check(len(got) == len(expected),
              f'{msg}: {len(got)} events, expected {len(expected)}')
    for a, b in zip(got, expected):
        ctx.check(ctx.eq(a, b), f'{msg}: wrong event')


def same_set(ctx, got, expected, msg):
    got = list(got)
    ctx.check(len(got) == len(expected),
              f'{msg}: {len(got)} events, expected {len(expected)}')
    for b in expected:
        ctx.check(ctx.or_(*(ctx.eq(a, b) for a in got)),
                  f'{msg}: event missing')
