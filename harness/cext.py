"""Shared part of harnesses of C extension modules"""

import gc
import importlib
import json
import os
import sys

from pysym.capi import ModelModule, RealModule
from pysym.ctx import jsonable
from pysym.llvm import Fault

# odd texts: wildcards followed by zero, prefixes, more than one byte
SEGS = ['?', '*', 'a', 'b', '', '*\0', '?\0', 'a\0b', 'ab', '\u00e9', '**',
        '\u00e9\u010d']

WRAPPERS = {'_csubscription': 'hat.event.common.subscription.csubscription',
            '_ctree': 'hat.event.common.collection.ctree'}


class Text(str):
    """Text with its own reference count"""


_texts = []


def value(ctx, x):
    if ctx.symbolic:
        return x
    x = Text(x)
    _texts.append(x)
    return x


def segment(ctx, name, exclude=()):
    return value(ctx, ctx.text(name, SEGS, exclude=exclude))


def query_type(ctx, name, n):
    return tuple(segment(ctx, f'{name}_{i}', ('*',) if i + 1 < n else ())
                 for i in range(n))


def event_type(ctx, name, n):
    return tuple(segment(ctx, f'{name}_{i}', ('?', '*')) for i in range(n))


def wrapper(name, mod):
    """Python wrapper over (other instance of) extension module"""
    full = WRAPPERS[name]
    package = importlib.import_module(full.rsplit('.', 1)[0])
    if full not in sys.modules:
        key = f'{package.__name__}.{name}'
        sys.modules[key] = mod
        setattr(package, name, mod)
        importlib.import_module(full)
    w = sys.modules[full]
    setattr(w, name, mod)
    return w


def run(ctx, name, body, fail_at=None):
    """body(ctx, wrapper module, extension module) uses the extension; nothing
    is left behind when it ends"""
    reverse = ctx.flag('reverse')
    if ctx.symbolic:
        try:
            mod = ModelModule(name, reverse, fail_at)
            body(ctx, wrapper(name, mod), mod)
            leaks = mod.leaks()
        except Fault as e:
            ctx.fail(f'fault: {e}')
        if leaks:
            ctx.fail(f'not released: {leaks}')
        return
    # extension can end the process
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(r)
        try:
            out = _real(ctx, name, body, reverse, fail_at)
        except BaseException as e:
            out = {'failure': ctx.failure or f'{type(e).__name__}: {e}'}
        out['observations'] = [[n, jsonable(v)]
                               for n, v in ctx.observations]
        os.write(w, json.dumps(out).encode())
        os._exit(0)
    os.close(w)
    data = b''
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        data += x
    os.close(r)
    status = os.waitpid(pid, 0)[1]
    if not data or status:
        ctx.fail(f'process ended by the extension: {status}')
    out = json.loads(data)
    ctx.observations = [tuple(i) for i in out['observations']]
    if out['failure']:
        ctx.fail(out['failure'])


def _real(ctx, name, body, reverse, fail_at):
    gc.collect()
    gc.freeze()
    mod = RealModule(name, reverse, fail_at)
    w = wrapper(name, mod)
    mod.start()
    body(ctx, w, mod)
    ctx.observations = json.loads(json.dumps(
        [[n, jsonable(v)] for n, v in ctx.observations]))
    gc.collect()
    if mod.live():
        ctx.fail('not released: memory')
    for i in range(len(_texts)):
        # list and argument
        if sys.getrefcount(_texts[i]) != 2:
            ctx.fail('wrong reference count')
    _texts.clear()
    n = len(ctx.observations)
    for _ in range(10):
        mod.start()
        body(ctx, w, mod)
        del ctx.observations[n:]
    gc.collect()
    # number of blocks fluctuates
    for _ in range(15):
        before = sys.getallocatedblocks()
        for _ in range(50):
            mod.start()
            body(ctx, w, mod)
            del ctx.observations[n:]
            _texts.clear()
        gc.collect()
        if mod.live():
            ctx.fail('not released: memory')
        if sys.getallocatedblocks() - before < 50:
            break
    else:
        ctx.fail('not released: objects')
    return {'failure': None}
