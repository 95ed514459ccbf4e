"""LMDB with operation hooks.

Module object which replaces `lmdb`.  In concrete runs it wraps the real
library; in symbolic runs storage is an ordered map whose keys and values may
be symbolic (order decided by the solver).  Environments of the model live in
memory, identified by path (an empty file marks existence).

`hook(op)` is called before each operation with effect (and before commit):
fault injection and crash points.  Semantics of the model are compared with
the real library by tools/lmdb_conformance.py."""

import os
import sys
import types

import lmdb as real

from . import values as V
from . import symbytes as B


hook = None
symbolic = False
stores = {}          # path -> {db name: [(key, value), ...]}


def reset():
    global hook
    hook = None
    stores.clear()


def _op(name):
    if hook is not None:
        hook(name)


class _Database:

    def __init__(self, name, raw):
        self.name = name
        self.raw = raw


class Environment:

    def __init__(self, path, map_size=10485760, subdir=True, readonly=False,
                 metasync=True, sync=True, map_async=False, mode=0o755,
                 create=True, readahead=True, writemap=False, meminit=True,
                 max_readers=126, max_dbs=0, max_spare_txns=1, lock=True):
        _op('env_open')
        self._path = os.fspath(path)
        self._readonly = readonly
        self._raw = None
        self._closed = False
        if not symbolic:
            self._raw = real.Environment(
                self._path, map_size=map_size, subdir=subdir,
                readonly=readonly, metasync=metasync, sync=False,
                map_async=map_async, mode=mode, create=create,
                max_dbs=max_dbs, lock=lock)
            return
        if not os.path.exists(self._path):
            if readonly or not create:
                raise real.Error(f'{self._path}: No such file or directory')
            open(self._path, 'w').close()
            stores.pop(self._path, None)
        self._store = stores.setdefault(self._path, {})
        self._writer = None

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def _check(self):
        if self._closed:
            raise real.Error('Attempt to operate on closed/deleted/dropped '
                             'object.')

    def path(self):
        return self._path

    def close(self):
        if self._closed:
            return
        _op('env_close')
        self._closed = True
        if self._raw is not None:
            self._raw.close()

    def sync(self, force=False):
        pass

    def flags(self):
        return self._raw.flags() if self._raw else {}

    def open_db(self, key=None, txn=None, reverse_key=False, dupsort=False,
                create=True, integerkey=False, integerdup=False,
                dupfixed=False):
        self._check()
        if reverse_key or dupsort or integerkey:
            raise V.eng()._err(_limitation('lmdb flags'))
        _op('open_db')
        if self._raw is not None:
            return _Database(key, self._raw.open_db(
                key, txn=txn and txn._raw, create=create))
        data = txn._data if txn is not None else self._store
        if key not in data:
            if not create or self._readonly:
                raise real.NotFoundError('mdb_dbi_open: MDB_NOTFOUND: No '
                                         'matching key/data pair found')
            data[key] = []
        return _Database(key, None)

    def begin(self, db=None, parent=None, write=False, buffers=False):
        return Transaction(self, db, parent, write, buffers)

    def stat(self):
        return {'entries': len(self._store)} if symbolic else self._raw.stat()

    def info(self):
        return {} if symbolic else self._raw.info()


def _limitation(msg):
    from .engine import Limitation
    return Limitation(msg)


class Transaction:

    def __init__(self, env, db=None, parent=None, write=False, buffers=False):
        env._check()
        _op('begin_write' if write else 'begin')
        self._env = env
        self._write = write
        self._db = db
        self._done = False
        self._raw = None
        if env._raw is not None:
            self._raw = env._raw.begin(db=db and db.raw, write=write,
                                       buffers=buffers)
            return
        if write:
            if env._readonly:
                raise real.ReadonlyError('txn')
            if env._writer is not None:
                raise _limitation('concurrent write transactions')
            env._writer = self
        self._data = {k: list(v) for k, v in env._store.items()}

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if self._done:
            return
        if t is None:
            self.commit()
        else:
            self.abort()

    def id(self):
        return 0

    def commit(self):
        if self._done:
            return
        if self._write:
            try:
                _op('commit')
            except BaseException:
                self.abort()
                raise
        self._done = True
        if self._raw is not None:
            return self._raw.commit()
        if self._write:
            self._env._writer = None
            self._env._store.update(self._data)

    def abort(self):
        if self._done:
            return
        self._done = True
        if self._raw is not None:
            return self._raw.abort()
        if self._write:
            self._env._writer = None

    def cursor(self, db=None):
        return Cursor(db or self._db, self)

    def stat(self, db):
        if self._raw is not None:
            return self._raw.stat(db.raw)
        n = len(self._data.get(db.name, []))
        # small databases: all entries in a single leaf page
        return {'psize': 4096, 'depth': 1 if n else 0, 'branch_pages': 0,
                'leaf_pages': 1 if n else 0, 'overflow_pages': 0,
                'entries': n}

    def drop(self, db, delete=True):
        self._chk_write()
        _op('drop')
        if self._raw is not None:
            return self._raw.drop(db.raw, delete)
        if delete:
            self._data.pop(db.name)
        else:
            self._data[db.name] = []

    def _chk_write(self):
        if self._raw is None and not self._write:
            raise real.ReadonlyError('txn')

    def get(self, key, default=None, db=None):
        return Cursor(db or self._db, self).get(key, default)

    def put(self, key, value, dupdata=True, overwrite=True, append=False,
            db=None):
        return Cursor(db or self._db, self).put(key, value,
                                                overwrite=overwrite)

    def delete(self, key, value=b'', db=None):
        c = Cursor(db or self._db, self)
        return c.set_key(key) and c.delete()

    def pop(self, key, db=None):
        return Cursor(db or self._db, self).pop(key)

    def replace(self, key, value, db=None):
        return Cursor(db or self._db, self).replace(key, value)


def _lt(a, b):
    return bool(a < b) if not isinstance(b, V.Sym) or isinstance(a, V.Sym) \
        else bool(b > a)


def _eq(a, b):
    return bool(V.deep_eq(a, b))


class Cursor:

    def __init__(self, db, txn):
        self._txn = txn
        self._raw = None
        if txn._raw is not None:
            self._raw = txn._raw.cursor(db.raw)
            return
        if txn._done:
            raise real.Error('Attempt to operate on closed/deleted/dropped '
                             'object.')
        self._name = db.name
        self._pos = None
        self._lost = False      # position of native cursor unknown

    @property
    def _items(self):
        if self._txn._done:
            raise real.Error('Attempt to operate on closed/deleted/dropped '
                             'object.')
        return self._txn._data[self._name]

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def close(self):
        if self._raw is not None:
            self._raw.close()

    def _set(self, pos):
        ok = 0 <= pos < len(self._items)
        self._pos = pos if ok else None
        self._lost = not ok
        return ok

    def _known(self):
        if self._lost and self._items:
            raise _limitation('relative move of lmdb cursor after a failed '
                              'lookup')

    def first(self):
        if self._raw is not None:
            return self._raw.first()
        return self._set(0)

    def last(self):
        if self._raw is not None:
            return self._raw.last()
        return self._set(len(self._items) - 1)

    def next(self):
        if self._raw is not None:
            return self._raw.next()
        self._known()
        return self._set(0 if self._pos is None else self._pos + 1)

    def prev(self):
        if self._raw is not None:
            return self._raw.prev()
        self._known()
        return self._set(len(self._items) - 1 if self._pos is None
                         else self._pos - 1)

    def _bound(self, key):
        """Index of first item with key >= `key`"""
        items = self._items
        for i, (k, _) in enumerate(items):
            if not _lt(k, key):
                return i
        return len(items)

    def set_range(self, key):
        if self._raw is not None:
            return self._raw.set_range(key)
        if not key:
            return self.first()
        return self._set(self._bound(key))

    def set_key(self, key):
        if self._raw is not None:
            return self._raw.set_key(key)
        i = self._find(key)
        self._pos = i
        self._lost = i is None
        return i is not None

    def _find(self, key):
        items = self._items
        i = self._bound(key)
        if i < len(items) and _eq(items[i][0], key):
            return i
        return None

    def key(self):
        if self._raw is not None:
            return self._raw.key()
        return b'' if self._pos is None else self._items[self._pos][0]

    def value(self):
        if self._raw is not None:
            return self._raw.value()
        return b'' if self._pos is None else self._items[self._pos][1]

    def item(self):
        return self.key(), self.value()

    def get(self, key, default=None):
        if self._raw is not None:
            return self._raw.get(key, default)
        return self.value() if self.set_key(key) else default

    def put(self, key, val, dupdata=True, overwrite=True, append=False):
        self._txn._chk_write()
        _op('put')
        if self._raw is not None:
            return self._raw.put(key, val, overwrite=overwrite)
        if len(key) == 0 or len(key) > 511:
            raise real.BadValsizeError('mdb_put: MDB_BAD_VALSIZE')
        if not isinstance(val, (V.Sym, bytes, bytearray, memoryview)):
            raise TypeError('a bytes-like object is required')
        items = self._items
        key, val = _snap(key), _snap(val)
        i = self._bound(key)
        if i < len(items) and _eq(items[i][0], key):
            self._pos = i
            self._lost = False
            if not overwrite:
                return False
            items[i] = (items[i][0], val)
            return True
        items.insert(i, (key, val))
        self._pos = i
        self._lost = False
        return True

    def putmulti(self, items, dupdata=True, overwrite=True, append=False):
        n = a = 0
        for k, v in items:
            n += 1
            a += bool(self.put(k, v, overwrite=overwrite))
        return n, a

    def pop(self, key):
        self._txn._chk_write()
        _op('pop')
        if self._raw is not None:
            return self._raw.pop(key)
        i = self._find(key)
        if i is None:
            self._pos = None
            self._lost = True
            return None
        r = self._items.pop(i)[1]
        self._pos = i if i < len(self._items) else None
        self._lost = self._pos is None
        return r

    def replace(self, key, val):
        self._txn._chk_write()
        _op('put')
        if self._raw is not None:
            return self._raw.replace(key, val)
        old = self.get(key)
        self.put(key, val)
        return old

    def delete(self, dupdata=False):
        self._txn._chk_write()
        _op('delete')
        if self._raw is not None:
            return self._raw.delete()
        if self._pos is None:
            return False
        self._items.pop(self._pos)
        if self._pos >= len(self._items):
            self._pos = None
            self._lost = True
        return True

    def count(self):
        return 1

    def _iter(self, step, keys, values):
        # position is read on each step
        ok = self._pos is not None
        if not ok:
            ok = self.first() if step > 0 else self.last()
        while ok:
            r = self.item()
            yield (r if keys and values else r[0] if keys else r[1])
            ok = self.next() if step > 0 else self.prev()

    def iternext(self, keys=True, values=True):
        if self._raw is not None:
            return self._raw.iternext(keys, values)
        return self._iter(1, keys, values)

    def iterprev(self, keys=True, values=True):
        if self._raw is not None:
            return self._raw.iterprev(keys, values)
        return self._iter(-1, keys, values)

    def __iter__(self):
        return self.iternext()


def _snap(x):
    return x if isinstance(x, V.Sym) else bytes(x)


def install(sym):
    global symbolic
    symbolic = sym
    m = types.ModuleType('lmdb')
    for n in dir(real):
        if not n.startswith('__'):
            setattr(m, n, getattr(real, n))
    m.Environment = m.open = Environment
    m.Transaction = Transaction
    m.Cursor = Cursor
    m._Database = _Database
    m.__version__ = getattr(real, '__version__', '0')
    sys.modules['lmdb'] = m


assert B
