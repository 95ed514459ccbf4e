"""Deterministic asyncio event loop with virtual time.

Executor jobs run inside the loop (atomically, in order of submission, one
loop iteration after it; or held back until the harness lets them run), so
that schedules are chosen by the harness - by symbolic variables."""

import asyncio
import collections
import contextlib
import itertools
import sys
import time
import warnings

from hat.aio import group as _group

from . import engine as E


class Stuck(Exception):
    """Nothing can happen any more, or no progress"""


class _Hash:

    _hash_counter = itertools.count()

    def __hash__(self):
        return self._hash


class SimTask(asyncio.Task):

    def __init__(self, coro, *, loop, **kw):
        self._hash = loop.next_id()
        super().__init__(coro, loop=loop, **kw)

    def __hash__(self):
        return self._hash


class SimFuture(asyncio.Future):

    def __init__(self, *, loop):
        self._hash = loop.next_id()
        super().__init__(loop=loop)

    def __hash__(self):
        return self._hash


def _group_hash(self):
    try:
        return self._sim_hash
    except AttributeError:
        loop = self._loop
        self._sim_hash = (loop.next_id() if isinstance(loop, SimLoop)
                          else id(self))
        return self._sim_hash


class _Selector:

    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        self.loop._select(timeout)
        return []

    def close(self):
        pass


class SimLoop(asyncio.BaseEventLoop):

    def __init__(self, max_iterations=20000):
        super().__init__()
        self._selector = _Selector(self)
        self._vt = 0.0
        self._ids = itertools.count(1)
        self._jobs = collections.deque()
        self.hold = False
        self.iterations = 0
        self.max_iterations = max_iterations
        self.set_task_factory(
            lambda loop, coro, **kw: SimTask(coro, loop=loop, **kw))
        self.set_exception_handler(lambda loop, context: None)

    def next_id(self):
        return next(self._ids)

    def time(self):
        return self._vt

    def create_future(self):
        return SimFuture(loop=self)

    def call_soon_threadsafe(self, callback, *args, context=None):
        return self.call_soon(callback, *args, context=context)

    def _write_to_self(self):
        pass

    def _process_events(self, event_list):
        pass

    def _select(self, timeout):
        if E.current is not None and E.current.pending_error is not None:
            raise E.current.pending_error
        self.iterations += 1
        if self.iterations > self.max_iterations:
            raise Stuck('no end of activity')
        if timeout is None:
            raise Stuck('deadlock: nothing left to happen')
        if timeout > 0:
            self._vt += timeout

    # --- executor jobs

    def run_in_executor(self, executor, func, *args):
        self._check_closed()
        if executor is not None and getattr(executor, '_shutdown', False):
            raise RuntimeError('cannot schedule new futures after shutdown')
        future = self.create_future()
        self._jobs.append((func, args, future))
        if not self.hold:
            self.call_soon(self._next_job)
        return future

    def _next_job(self):
        # jobs released in the meantime
        if self._jobs and not self.hold:
            self.run_job()

    @property
    def jobs(self):
        """Number of jobs waiting"""
        return len(self._jobs)

    def run_job(self):
        func, args, future = self._jobs.popleft()
        if future.cancelled():
            return
        try:
            result = func(*args)
        except E.PathSteering:
            raise
        except BaseException as e:
            self.call_soon(_set_exception, future, e)
        else:
            self.call_soon(_set_result, future, result)

    def release(self):
        """Let waiting and future jobs run"""
        self.hold = False
        for _ in range(len(self._jobs)):
            self.call_soon(self._next_job)

    async def settle(self, limit=500):
        """Run until nothing is ready (without passing of time)"""
        for _ in range(limit):
            if not self._ready and (self.hold or not self._jobs):
                return
            await asyncio.sleep(0)
        raise Stuck('no end of activity')

    async def steps(self, n):
        for _ in range(n):
            await asyncio.sleep(0)


def _set_result(future, result):
    if not future.done():
        future.set_result(result)


def _set_exception(future, e):
    if not future.done():
        future.set_exception(e)


_clock = None


def _patched_now():
    return _clock()


_orig_now = None


def _patch_now():
    global _orig_now
    from hat.event import common
    if _orig_now is None:
        _orig_now = common.now
    for name, m in list(sys.modules.items()):
        if name.startswith('hat.event') and \
                m.__dict__.get('now') is _orig_now:
            m.now = _patched_now


def run(ctx, main, now=None):
    """Run coroutine function main(ctx, loop) to the end.

    `now` is function providing current timestamp of the code."""
    global _clock
    _group.Group.__hash__ = _group_hash
    warnings.simplefilter('ignore')
    loop = SimLoop()
    if now is None:
        from hat.event import common

        def now():
            return common.Timestamp(1000 + int(loop.time()),
                                    int(loop.time() * 1e6) % 10 ** 6)
    _clock = now
    _patch_now()
    orig_time = time.time
    time.time = lambda: 1000.0 + loop.time()
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(main(ctx, loop))
    finally:
        time.time = orig_time
        _dispose(loop)
        asyncio.set_event_loop(None)


def _dispose(loop):
    eng = E.current
    if eng is not None:
        saved, eng.pending_error = eng.pending_error, E.PathAbort()
    try:
        asyncio._set_running_loop(loop)
        for _ in range(20):
            tasks = sorted((t for t in asyncio.all_tasks(loop)
                            if not t.done()), key=lambda t: t._hash)
            if not tasks:
                break
            for t in tasks:
                t._log_destroy_pending = False
                with contextlib.suppress(BaseException):
                    t.get_coro().close()
            break
        asyncio._set_running_loop(None)
        loop._ready.clear()
        loop._scheduled.clear()
        loop.close()
    finally:
        asyncio._set_running_loop(None)
        if eng is not None:
            eng.pending_error = saved
