"""C extension modules of the repository: model (interpreted LLVM IR over a
model of CPython API and of hash table of hat-util) and the real thing
(compiled with gcc; hash table is a stand-in).

Both provide the same interface to harnesses: `module(name)` with types whose
instances wrap objects of the extension."""

import atexit
import gc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sysconfig
import tempfile

from . import paths
from . import values as V
from .llvm import (Block, BytesBlock, Fault, FuncPtr, Machine, Module, Ptr,
                   TextBlock, Unsupported, compile_ir, concrete)

CMODEL = os.path.join(paths.VERIF, 'cmodel')
SOURCES = {'_csubscription': 'src_c/py/subscription/_csubscription.c',
           '_ctree': 'src_c/py/collection/_ctree.c'}

_modules = {}


def ir(name):
    if name not in _modules:
        _modules[name] = Module(compile_ir(
            os.path.join(paths.REPO, SOURCES[name]),
            os.path.join(CMODEL, 'include')), SOURCES[name])
    return _modules[name]


# --- model

class Obj(Block):
    """Python object"""

    def __init__(self, m, kind, value=None, size=16):
        m.counter += 1
        super().__init__(f'{kind}{m.counter}', size, 'object')
        self.machine = m
        self.type = kind
        self.value = value
        self.rc = 1
        self.text = None
        self.constant = False
        self.made = False
        m.objects.add(self)

    def immortal(self):
        """CPython never releases texts of at most one (Latin-1) character
        which it creates"""
        return self.made and bool(len(self.value) <= 1)

    def destroy(self):
        m = self.machine
        self.alive = False
        m.objects.discard(self)
        if self.type in ('tuple', 'deque', 'set'):
            for i in self.value:
                if i is not None:
                    m.decref(i)
        elif self.type == 'iter':
            m.decref(self.value[0])


class Api(Machine):

    def __init__(self, module, reverse=False, fail_at=None):
        self.objects = set()
        self.error = None
        self.reverse = reverse
        self.fail_at = fail_at      # number of operation which fails
        self.failed = False
        self.dropped = []           # references dropped by Python
        self.nalloc = 0
        super().__init__(module, API)
        self.constants = {}
        for n in ('None', 'True', 'False'):
            self._constant(n)

    def _constant(self, n):
        if n not in self.constants:
            o = Obj(self, 'constant', n)
            o.constant = True
            self.objects.discard(o)
            self.constants[n] = o
        return self.constants[n]

    def obj(self, p, kind=None):
        if not isinstance(p, Ptr) or not isinstance(p.block, Obj) or p.off:
            raise Fault('object expected')
        if not p.block.alive and not p.block.immortal():
            raise Fault(f'use of released object: {p.block.name}')
        if kind and p.block.type != kind:
            raise Fault(f'{kind} expected instead of {p.block.type}')
        return p.block

    def decref(self, o):
        if not o.alive and not o.immortal():
            raise Fault(f'use of released object: {o.name}')
        if o.constant or not o.alive:
            return
        o.rc -= 1
        if o.rc > 0:
            return
        if o.type == 'instance':
            dealloc = o.cls.value['slots'].get(52)
            if dealloc is None:
                raise Unsupported('type without dealloc')
            o.rc = 1        # alive until it releases itself
            self.call(dealloc, [Ptr(o)])
            if o.alive:
                raise Fault('object is not released')
            return
        if o.type == 'capsule' and o.value[2] != 0:
            o.rc = 1
            self.call(o.value[2], [Ptr(o)])
        o.destroy()

    def drain(self):
        while self.dropped:
            self.decref(self.dropped.pop(0))

    def fails(self):
        """Fault of allocation (of memory or hash table)"""
        self.nalloc += 1
        if self.fail_at is not None and self.nalloc == self.fail_at:
            self.failed = True
            return True
        return False

    def cstr(self, p):
        block, off = self.deref(p)
        if isinstance(block, TextBlock):
            block.check_alive()
            if off == 0:
                return block.text
        out = b''
        while True:
            c = concrete(block.load(off, 1)) & 255
            if not c:
                return out.decode()
            out += bytes([c])
            off += 1

    def chars(self, p, n):
        """Text of n bytes"""
        block, off = self.deref(p)
        if isinstance(block, TextBlock) and off == 0:
            block.check_alive()
            size = block.length()
            if size < n:
                raise Fault('access out of bounds of text')
            if size == n:
                return block.text
        n = concrete(n)
        out = bytes(concrete(block.load(off + i, 1)) & 255 for i in range(n))
        return out.decode()


def new(m, kind, value=None):
    return Ptr(Obj(m, kind, value))


def _slots(m, p, size=16):
    """Array of (id, pointer) ended with zero"""
    block, off = m.deref(p)
    out = []
    while True:
        k = block.load(off, 4)
        if not k:
            return out
        out.append((k, block.load(off + 8, 8)))
        off += size


def _model_newref(m, o):
    m.obj(o).rc += 1
    return o


def _incref(m, o):
    m.obj(o).rc += 1


def _malloc(m, n):
    n = concrete(n)
    if m.fails():
        return 0
    return Ptr(m.new('memory', n))


def _calloc(m, n, k):
    p = _malloc(m, concrete(n) * concrete(k))
    if p != 0:
        p.block.zero = True
    return p


def _object_free(m, p):
    if isinstance(p, Ptr) and isinstance(p.block, Obj):
        o = m.obj(p)
        if o.type != 'instance':
            raise Fault('release of object of other type')
        o.alive = False
        m.objects.discard(o)
        return
    m.release(p)


def _generic_alloc(m, t, n):
    t = m.obj(t, 'type')
    o = Obj(m, 'instance', None, t.value['size'])
    o.cls = t
    o.zero = True
    t.rc += 1
    return Ptr(o)


def _type_from_spec(m, mod, spec, bases=0):
    block, off = m.deref(spec)
    slots = dict(_slots(m, block.load(off + 24, 8)))
    methods = {}
    p = slots.get(64, 0)
    if p != 0:
        mb, mo = m.deref(p)
        while True:
            name = mb.load(mo, 8)
            if name == 0:
                break
            methods[m.cstr(name)] = (mb.load(mo + 8, 8), mb.load(mo + 16, 4))
            mo += 32
    return new(m, 'type', {'size': block.load(off + 8, 4), 'slots': slots,
                           'methods': methods,
                           'name': m.cstr(block.load(off, 8))})


def _add_type(m, mod, t):
    o = m.obj(t, 'type')
    o.rc += 1
    m.obj(mod).value[o.value['name'].rsplit('.', 1)[1]] = o
    return 0


def _add_ref(m, mod, name, o):
    if o == 0:
        return -1
    m.obj(o).rc += 1
    m.obj(mod).value[m.cstr(name)] = m.obj(o)
    return 0


def _add_object(m, mod, name, o):
    if o == 0:
        return -1
    m.obj(mod).value[m.cstr(name)] = m.obj(o)
    return 0


def _set_error(m, t, msg=None):
    m.error = m.obj(t).value


def _no_memory(m):
    m.error = 'MemoryError'
    return 0


def _type(m, p):
    o = m.obj(p)
    if o.type == 'instance':
        return Ptr(o.cls)
    return Ptr(m._constant('type ' + o.type))


def _utf8(m, p, size=0):
    o = m.obj(p)
    if o.type != 'str':
        m.error = 'TypeError'
        return 0
    if o.text is None:
        o.text = TextBlock(f'text of {o.name}', o.value, o)
    if size != 0:
        b, off = m.deref(size)
        b.store(off, 8, o.text.length())
    return Ptr(o.text)


def _from_string(m, s, n=None, e=None):
    text = m.cstr(s) if n is None else m.chars(s, n)
    p = new(m, 'str', text)
    p.block.made = True
    return p


def _compare_ascii(m, o, s):
    v = m.obj(o, 'str').value
    s = m.cstr(s)
    if v == s:
        return 0
    return 1 if v > s else -1


def _tuple_new(m, n):
    n = concrete(n)
    if n < 0:
        raise Fault('negative size of tuple')
    return new(m, 'tuple', [None] * n)


def _size(m, p):
    o = m.obj(p)
    if o.type not in ('tuple', 'deque', 'set'):
        m.error = 'TypeError'
        return -1
    return len(o.value)


def _tuple_get(m, p, i):
    o = m.obj(p, 'tuple')
    i = concrete(i)
    if not 0 <= i < len(o.value):
        m.error = 'IndexError'
        return 0
    if o.value[i] is None:
        raise Fault('item of tuple is not set')
    return Ptr(o.value[i])


def _tuple_set(m, p, i, x):
    o = m.obj(p, 'tuple')
    i = concrete(i)
    if not 0 <= i < len(o.value):
        raise Fault('index out of range of tuple')
    if o.value[i] is not None:
        m.decref(o.value[i])
    o.value[i] = m.obj(x)
    return 0


def _tuple_slice(m, p, a, b):
    items = m.obj(p, 'tuple').value[max(0, concrete(a)):concrete(b)]
    for i in items:
        i.rc += 1
    return new(m, 'tuple', list(items))


def _iter(m, p):
    o = m.obj(p)
    if o.type not in ('tuple', 'deque', 'set'):
        m.error = 'TypeError'
        return 0
    o.rc += 1
    return new(m, 'iter', [o, 0])


def _next(m, p):
    o = m.obj(p, 'iter')
    items, i = o.value
    if i >= len(items.value):
        return 0
    o.value[1] = i + 1
    items.value[i].rc += 1
    return Ptr(items.value[i])


def _in(m, o, s):
    for i in s.value:
        if i is o or i.value == o.value:
            return True
    return False


def _set_add(m, s, o):
    s, o = m.obj(s, 'set'), m.obj(o)
    if not _in(m, o, s):
        o.rc += 1
        s.value.append(o)
    return 0


def _bool(m, v):
    return Ptr(m._constant('True' if v else 'False'))


def _capsule(m, p, name, d):
    if p == 0:
        m.error = 'ValueError'
        return 0
    return new(m, 'capsule', [p, name, d])


def _capsule_get(m, p, name):
    o = m.obj(p)
    if o.type != 'capsule':
        m.error = 'ValueError'
        return 0
    return o.value[0]


def _import(m, name):
    return new(m, 'module', {'name': m.cstr(name)})


def _getattr(m, o, name):
    o = m.obj(o)
    name = m.cstr(name)
    if (o.type, name) == ('module', 'deque') and \
            o.value['name'] == 'collections':
        return Ptr(m._constant('deque'))
    raise Unsupported(f'attribute {name}')


def _call_object(m, f, args=0):
    if m.obj(f).value != 'deque' or args != 0:
        raise Unsupported('call of object')
    return new(m, 'deque', [])


def _call_method(m, o, name, fmt, *args):
    o = m.obj(o)
    if (o.type, m.cstr(name), m.cstr(fmt)) not in (
            ('deque', 'append', '(O)'), ('deque', 'append', 'O')):
        raise Unsupported('call of method')
    if m.cstr(fmt) == 'O' and m.obj(args[0]).type == 'tuple':
        raise Unsupported('tuple as arguments')
    x = m.obj(args[0])
    x.rc += 1
    o.value.append(x)
    return Ptr(m._constant('None'))


def _parse_tuple(m, args, fmt, *dst):
    o = m.obj(args, 'tuple')
    fmt = m.cstr(fmt)
    if set(fmt) != {'O'} or len(fmt) != len(dst):
        raise Unsupported(f'format {fmt}')
    if len(o.value) != len(fmt):
        m.error = 'TypeError'
        return 0
    for d, x in zip(dst, o.value):
        b, off = m.deref(d)
        b.store(off, 8, Ptr(x))
    return 1


def _strcmp(m, a, b):
    (ab, ao), (bb, bo) = m.deref(a), m.deref(b)
    i = 0
    while True:
        x, y = ab.load(ao + i, 1), bb.load(bo + i, 1)
        if x != y:
            return -1 if _u8(x) < _u8(y) else 1
        if x == 0:
            return 0
        i += 1


def _u8(x):
    if x < 0:
        return x + 256
    return x


def _memcmp(m, a, b, n, stop=False):
    (ab, ao), (bb, bo) = m.deref(a), m.deref(b)
    i = 0
    while i < n:
        x, y = ab.load(ao + i, 1), bb.load(bo + i, 1)
        if x != y:
            return -1 if _u8(x) < _u8(y) else 1
        if stop and x == 0:
            return 0
        i += 1
    return 0


def _strlen(m, p):
    block, off = m.deref(p)
    i = 0
    while block.load(off + i, 1) != 0:
        i += 1
    return i


# hash table

class Table(Block):

    def __init__(self, m):
        m.counter += 1
        super().__init__(f'table{m.counter}', 64, 'table')
        self.entries = []
        m.tables.add(self)


class Entry(Block):

    def __init__(self, m, key, value):
        m.counter += 1
        super().__init__(f'entry{m.counter}', 8, 'entry')
        self.key = key
        self.value = value
        self.text = TextBlock(f'key of {self.name}', key, self)


def _table(m, p):
    block, off = m.deref(p)
    if not isinstance(block, Table):
        raise Fault('hash table expected')
    if not block.alive:
        raise Fault('use of released hash table')
    return block


def _entry(m, p):
    block, off = m.deref(p)
    if not isinstance(block, Entry):
        raise Fault('iterator expected')
    if not block.alive:
        raise Fault('use of released hash table')
    return block


def _ht_create(m, a):
    if m.fails():
        return 0
    return Ptr(Table(m))


def _ht_clear(m, t):
    t = _table(m, t)
    for e in t.entries:
        e.alive = False
    t.entries = []
    return t


def _ht_destroy(m, t):
    t = _ht_clear(m, t)
    t.alive = False
    m.tables.discard(t)


def _find(t, key):
    for e in t.entries:
        if e.key == key:
            return e


def _ht_set(m, t, key, n, value):
    t = _table(m, t)
    key = m.chars(key, n)
    e = _find(t, key)
    if e:
        e.value = value
        return 0
    if m.fails():
        return 1
    t.entries.append(Entry(m, key, value))
    return 0


def _ht_get(m, t, key, n):
    t = _table(m, t)
    e = _find(t, m.chars(key, n))
    return e.value if e else 0


def _ht_pop(m, t, key, n):
    t = _table(m, t)
    e = _find(t, m.chars(key, n))
    if not e:
        return 0
    e.alive = False
    t.entries.remove(e)
    return e.value


def _ht_next(m, t, p):
    t = _table(m, t)
    entries = t.entries[::-1] if m.reverse else t.entries
    i = 0 if p == 0 else entries.index(_entry(m, p)) + 1
    return Ptr(entries[i]) if i < len(entries) else 0


def _exception(n):
    def f(m):
        b = Block(n, 8, 'global')
        b.store(0, 8, Ptr(m._constant(n)))
        return b
    return f


API = {
    '@Model_None': lambda m: m._constant('None'),
    '@Model_True': lambda m: m._constant('True'),
    '@Model_False': lambda m: m._constant('False'),
    '@hat_py_allocator': lambda m: Block('allocator', 8, 'global'),
    **{f'@PyExc_{n}': _exception(n)
       for n in ('TypeError', 'ValueError', 'RuntimeError', 'KeyError',
                 'MemoryError', 'IndexError', 'Exception', 'SystemError')},
    'Model_type': _type,
    'Model_refcnt': lambda m, o: m.obj(o).rc,
    'Model_incref': _incref,
    'Model_decref': lambda m, o: m.decref(m.obj(o)),
    'Model_newref': _model_newref,
    'Model_xnewref': lambda m, o: o if o == 0 else _model_newref(m, o),
    'PyMem_Malloc': _malloc,
    'PyObject_Malloc': _malloc,
    'PyMem_Calloc': _calloc,
    'PyMem_Free': lambda m, p: m.release(p),
    'PyObject_Free': _object_free,
    'PyObject_Del': _object_free,
    'PyType_GenericAlloc': _generic_alloc,
    'PyType_FromModuleAndSpec': _type_from_spec,
    'PyType_FromSpec': lambda m, s: _type_from_spec(m, 0, s),
    'PyModule_AddObjectRef': _add_ref,
    'PyModule_AddObject': _add_object,
    'PyModule_AddType': _add_type,
    'PyErr_SetString': _set_error,
    'PyErr_SetNone': _set_error,
    'PyErr_NoMemory': _no_memory,
    'PyErr_Occurred': lambda m: (0 if m.error is None
                                 else Ptr(m._constant(m.error))),
    'PyErr_Clear': lambda m: setattr(m, 'error', None),
    'PyUnicode_Check': lambda m, o: int(m.obj(o).type == 'str'),
    'PyTuple_Check': lambda m, o: int(m.obj(o).type == 'tuple'),
    'PyCapsule_CheckExact': lambda m, o: int(m.obj(o).type == 'capsule'),
    'PyUnicode_AsUTF8AndSize': _utf8,
    'PyUnicode_AsUTF8': _utf8,
    'PyUnicode_FromString': _from_string,
    'PyUnicode_FromStringAndSize': _from_string,
    'PyUnicode_DecodeUTF8': _from_string,
    'PyUnicode_CompareWithASCIIString': _compare_ascii,
    'PyUnicode_GetLength': lambda m, o: len(m.obj(o, 'str').value),
    'PyTuple_New': _tuple_new,
    'PyTuple_Size': _size,
    'PyTuple_GetItem': _tuple_get,
    'PyTuple_SetItem': _tuple_set,
    'PyTuple_GetSlice': _tuple_slice,
    'PyObject_GetIter': _iter,
    'PyIter_Next': _next,
    'PySet_New': lambda m, x: new(m, 'set', []),
    'PySet_Add': _set_add,
    'PySet_Contains': lambda m, s, o: int(_in(m, m.obj(o), m.obj(s, 'set'))),
    'PyBool_FromLong': _bool,
    'PyCapsule_New': _capsule,
    'PyCapsule_GetPointer': _capsule_get,
    'PyImport_ImportModule': _import,
    'PyObject_GetAttrString': _getattr,
    'PyObject_CallObject': _call_object,
    'PyObject_CallNoArgs': _call_object,
    'PyObject_CallMethod': _call_method,
    'PyArg_ParseTuple': _parse_tuple,
    'strcmp': _strcmp,
    'memcmp': _memcmp,
    'strncmp': lambda m, a, b, n: _memcmp(m, a, b, n, True),
    'strlen': _strlen,
    'hat_ht_create': _ht_create,
    'hat_ht_destroy': _ht_destroy,
    'hat_ht_clear': lambda m, t: _ht_clear(m, t) and None,
    'hat_ht_set': _ht_set,
    'hat_ht_get': _ht_get,
    'hat_ht_pop': _ht_pop,
    'hat_ht_count': lambda m, t: len(_table(m, t).entries),
    'hat_ht_iter_next': _ht_next,
    'hat_ht_iter_key': lambda m, i: Ptr(_entry(m, i).text),
    'hat_ht_iter_key_size': lambda m, i: _entry(m, i).text.length(),
    'hat_ht_iter_value': lambda m, i: _entry(m, i).value,
}

_EXC = {'TypeError': TypeError, 'ValueError': ValueError,
        'RuntimeError': RuntimeError, 'KeyError': KeyError,
        'MemoryError': MemoryError, 'IndexError': IndexError,
        'Exception': Exception, 'SystemError': SystemError}


class ModelModule:
    """Loaded module: attributes are its types"""

    def __init__(self, name, reverse=False, fail_at=None):
        self._m = m = Api.__new__(Api)
        m.tables = set()
        Api.__init__(m, ir(name), reverse)
        defs = []
        m.api = {**API, 'PyModuleDef_Init': lambda m, d: defs.append(d) or
                 Ptr(m._constant('def'))}
        m.call(f'PyInit_{name}', [])
        block, off = m.deref(defs[0])
        self._obj = mod = Obj(m, 'module', {})
        for k, f in _slots(m, block.load(off + 40, 8)):
            if k == 2 and m.call(f, [Ptr(mod)]):
                raise Fault('module is not initialized')
        for n, t in mod.value.items():
            if t.rc != 1:
                raise Fault('reference count of type')
            setattr(self, n, self._class(t))
        m.fail_at = fail_at
        m.nalloc = 0

    def _class(self, t):
        api = self._m
        methods = t.value['methods']

        class Type:

            def __init__(self, *args):
                api.drain()
                a = _to_obj(api, tuple(args))
                f = t.value['slots'][65]
                try:
                    self._obj = _result(api, api.call(
                        f, [Ptr(t), Ptr(a), 0]), raw=True)
                finally:
                    api.decref(a)

            def __del__(self):
                if '_obj' in self.__dict__:
                    api.dropped.append(self._obj)

            def __getattr__(self, name):
                if name.startswith('_') or name not in methods:
                    raise AttributeError(name)
                f, flags = methods[name]

                def method(*args):
                    api.drain()
                    a = None
                    if flags == 1:
                        a = _to_obj(api, tuple(args))
                    elif flags == 8:
                        a = _to_obj(api, args[0])
                    r = api.call(f, [Ptr(self._obj), Ptr(a) if a else 0])
                    try:
                        return _result(api, r)
                    finally:
                        if a:
                            api.decref(a)
                return method

        Type.__name__ = t.value['name']
        return Type

    def leaks(self):
        m = self._m
        m.drain()
        r = self._leaks()
        if r:
            gc.collect()
            m.drain()
            r = self._leaks()
        return r

    def _leaks(self):
        m = self._m
        rest = [o for o in m.objects if o.type not in ('type', 'module') and
                not o.immortal()]
        types = [o for o in m.objects if o.type == 'type' and o.rc != 1]
        if m.heap or m.tables or rest or types:
            return repr(sorted(map(repr, [*m.heap, *m.tables, *rest,
                                          *types])))
        return None

    @property
    def failed(self):
        return self._m.failed


class Wrapped:
    """Object of model held by Python"""

    def __init__(self, m, o):
        self._m = m
        self._obj = o

    def __del__(self):
        self._m.dropped.append(self._obj)


def _to_obj(m, x):
    if isinstance(x, tuple) or isinstance(x, list):
        return Obj(m, 'tuple', [_to_obj(m, i) for i in x])
    if isinstance(x, V.SymInt):
        return Obj(m, 'value', x)
    if not isinstance(x, V.SymStr) and hasattr(x, '_obj'):
        x._obj.rc += 1
        return x._obj
    if isinstance(x, (str, V.SymStr)):
        return Obj(m, 'str', x)
    if hasattr(x, '__iter__'):
        return Obj(m, 'deque', [_to_obj(m, i) for i in x])
    return Obj(m, 'value', x)


def _from_obj(o):
    if o.type in ('tuple', 'deque', 'set'):
        items = [_from_obj(i) for i in o.value]
        return tuple(items) if o.type == 'tuple' else items
    if o.type in ('str', 'value'):
        return o.value
    if o.constant:
        return {'None': None, 'True': True, 'False': False}[o.value]
    raise Unsupported(f'result {o.type}')


def _result(m, p, raw=False):
    if p == 0:
        e, m.error = m.error, None
        if e is None:
            raise SystemError('returned NULL without setting an exception')
        raise _EXC[e]()
    if m.error is not None:
        e, m.error = m.error, None
        raise SystemError('returned a result with an exception set')
    o = m.obj(p)
    if raw:
        return o
    if o.type == 'capsule':
        return Wrapped(m, o)
    r = _from_obj(o)
    m.decref(o)
    return r


# --- the real thing

_built = {}


def build(name):
    """Extension compiled from sources of the repository"""
    if name not in _built:
        d = tempfile.mkdtemp(prefix='verif-ext-')
        atexit.register(shutil.rmtree, d, True)
        so = os.path.join(d, f'{name}.so')
        subprocess.run(
            ['gcc', '-shared', '-fPIC', '-O1', '-g', '-w', '-I',
             sysconfig.get_paths()['include'],
             '-I', os.path.join(CMODEL, 'real'),
             '-include', os.path.join(CMODEL, 'real', 'track.h'),
             '-o', so, os.path.join(paths.REPO, SOURCES[name]),
             os.path.join(CMODEL, 'real', 'ht.c')], check=True)
        _built[name] = so
    return _built[name]


class RealModule:

    def __init__(self, name, reverse=False, fail_at=None):
        import ctypes
        so = build(name)
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        spec = importlib.util.spec_from_file_location(name, so, loader=loader)
        mod = importlib.util.module_from_spec(spec)
        loader.exec_module(mod)
        self._lib = ctypes.CDLL(so)
        ctypes.c_int.in_dll(self._lib, 'track_reverse').value = int(reverse)
        ctypes.c_long.in_dll(self._lib, 'track_fail_at').value = -1
        for n in dir(mod):
            if not n.startswith('_'):
                setattr(self, n, getattr(mod, n))
        self._fail_at = fail_at

    def start(self):
        import ctypes
        for n, v in (('track_count', 0), ('track_fail_at', self._fail_at or
                                          -1), ('track_failed', 0)):
            ctypes.c_long.in_dll(self._lib, n).value = v

    @property
    def failed(self):
        import ctypes
        return bool(ctypes.c_long.in_dll(self._lib, 'track_failed').value)

    def live(self):
        import ctypes
        return ctypes.c_long.in_dll(self._lib, 'track_live').value
