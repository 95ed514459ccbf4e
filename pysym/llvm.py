"""Symbolic execution of C: interpreter of LLVM IR.

Source is translated with clang -O0.  Pointers and control are concrete (the
engine forks on symbolic branch conditions), integers may be symbolic values
of the engine.  Memory is a set of blocks of typed cells; access to released
memory, access out of bounds, use of memory which wasn't written, double
release and undefined arithmetic are faults."""

import re
import subprocess

from . import values as V


class Fault(Exception):
    """Undefined behaviour or misuse of API"""


class Unsupported(Exception):
    pass


CLANG = 'clang-18'
called = set()          # functions of the code under test


def compile_ir(src, include):
    p = subprocess.run([CLANG, '-O0', '-S', '-emit-llvm', '-w',
                        '-Werror=implicit-function-declaration',
                        '-fno-discard-value-names', '-I', include, '-o', '-',
                        src], capture_output=True, text=True)
    if p.returncode:
        raise Unsupported('translation: ' + p.stderr[-500:])
    return p.stdout


# --- types: ('i', bits) ('ptr',) ('struct', [types]) ('array', n, type)

_TOK = re.compile(r'c"(?:[^"\\]|\\.)*"|"[^"]*"|[%@][\w.$-]+|%"[^"]*"|'
                  r'-?\d+|\.\.\.|[\w.]+|[{}()\[\]<>,=*!#:]')


def tokens(text):
    return _TOK.findall(text)


class Parser:

    def __init__(self, toks, module):
        self.t = toks
        self.i = 0
        self.m = module

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ''

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, *xs):
        if self.peek() in xs:
            return self.next()

    def expect(self, x):
        if self.next() != x:
            raise Unsupported(f'{x} expected: {" ".join(self.t)}')

    def type(self):
        x = self.next()
        if x == '[':
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('array', n, t)
        if x == '{':
            ts = []
            while not self.accept('}'):
                ts.append(self.type())
                self.accept(',')
            return ('struct', ts)
        if x == 'ptr':
            return ('ptr',)
        if x == 'void':
            return ('void',)
        if re.fullmatch(r'i\d+', x):
            return ('i', int(x[1:]))
        if x[0] == '%':
            return ('named', x)
        raise Unsupported(f'type {x}')

    ATTRS = {'noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'nocapture',
             'readonly', 'writeonly', 'readnone', 'immarg', 'inreg', 'returned',
             'dso_local', 'fastcc', 'tail', 'notail', 'musttail', 'local_unnamed_addr'}

    def attrs(self):
        while True:
            if self.peek() in self.ATTRS:
                self.next()
            elif self.peek() in ('align', 'dereferenceable',
                                 'dereferenceable_or_null'):
                self.next()
                if self.accept('('):
                    self.next()
                    self.expect(')')
                else:
                    self.next()
            else:
                return

    def value(self, type):
        """('c', constant), ('r', register), ('g', global) or
        ('agg', [...]) ..."""
        x = self.next()
        if x[0] == '%':
            return ('r', x)
        if x[0] == '@':
            return ('g', x[1:])
        if x in ('null', 'zeroinitializer', 'false'):
            return ('c', 0) if x != 'zeroinitializer' else ('zero',)
        if x == 'true':
            return ('c', 1)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x[0] == 'c' and x[1:2] == '"':
            s = x[2:-1].encode('latin1')
            s = re.sub(rb'\\([0-9a-fA-F]{2})',
                       lambda m: bytes([int(m[1], 16)]), s)
            return ('bytes', s)
        if re.fullmatch(r'-?\d+', x):
            return ('c', int(x))
        if x in ('{', '['):
            out = []
            end = '}' if x == '{' else ']'
            while not self.accept(end):
                t = self.type()
                out.append((t, self.value(t)))
                self.accept(',')
            return ('agg', out)
        if x == 'getelementptr':
            self.accept('inbounds')
            self.expect('(')
            t = self.type()
            self.expect(',')
            args = [self.typed()]
            while self.accept(','):
                args.append(self.typed())
            self.expect(')')
            return ('gep', t, args)
        raise Unsupported(f'value {x}')

    def typed(self):
        t = self.type()
        self.attrs()
        return (t, self.value(t))


class Module:

    def __init__(self, text, name=''):
        self.name = name
        self.structs = {}
        self.globals = {}       # name -> (type, init or None)
        self.functions = {}     # name -> Function
        lines = text.splitlines()
        i = 0
        while i < len(lines):
            line = lines[i]
            i += 1
            m = re.match(r'(%\S+) = type (.*)', line)
            if m:
                if m[2] != 'opaque':
                    self.structs[m[1]] = Parser(tokens(m[2]), self).type()
                continue
            m = re.match(r'@(\S+) = (.*)', line)
            if m:
                self._global(m[1], m[2])
                continue
            if line.startswith('define '):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                f = Function(self, line, body)
                self.functions[f.name] = f

    def _global(self, name, text):
        p = Parser(tokens(text), self)
        external = False
        while p.peek() not in ('global', 'constant'):
            x = p.next()
            external |= x == 'external'
            if not x:
                raise Unsupported(f'global {text}')
        p.next()
        t = p.type()
        self.globals[name] = (t, None if external else p.value(t))

    def resolve(self, t):
        return self.structs[t[1]] if t[0] == 'named' else t

    def align(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            return max(1, t[1] // 8)
        if t[0] == 'ptr':
            return 8
        if t[0] == 'array':
            return self.align(t[2])
        return max([1] + [self.align(i) for i in t[1]])

    def size(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            return max(1, t[1] // 8)
        if t[0] == 'ptr':
            return 8
        if t[0] == 'array':
            return t[1] * self.size(t[2])
        offs, end = self.layout(t)
        a = self.align(t)
        return -(-end // a) * a

    def layout(self, t):
        offs, pos = [], 0
        for x in t[1]:
            a = self.align(x)
            pos = -(-pos // a) * a
            offs.append(pos)
            pos += self.size(x)
        return offs, pos


_ARITH = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
          'udiv', 'sdiv', 'urem', 'srem'}
_CAST = {'sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'}


class Function:

    def __init__(self, module, head, body):
        m = re.match(r'define .*?@([\w.$]+)\((.*)\)', head)
        self.name = m[1]
        p = Parser(tokens(m[2]), module)
        self.params = []
        while p.peek():
            if p.accept('...'):
                break
            p.type()
            p.attrs()
            self.params.append(p.next())
            p.accept(',')
        self.blocks = {}
        self.entry = None
        cur = None
        joined = []
        for line in body:
            # switch spans lines
            if joined and joined[-1].count('[') > joined[-1].count(']'):
                joined[-1] += ' ' + line.strip()
            else:
                joined.append(line)
        for line in joined:
            line = line.split(' ;')[0].split(';')[0].rstrip()
            if not line:
                continue
            m = re.match(r'("?[\w.$-]+"?):', line)
            if m and not line.startswith(' '):
                cur = []
                self.blocks['%' + m[1]] = cur
                if self.entry is None:
                    self.entry = '%' + m[1]
                continue
            if cur is None:
                cur = []
                # unnamed entry block is numbered after parameters
                self.entry = f'%{len(self.params)}'
                self.blocks[self.entry] = cur
            cur.append(self._inst(Parser(tokens(line), module)))

    def _inst(self, p):
        dst = None
        if p.peek(1) == '=':
            dst = p.next()
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op == 'alloca':
            return (op, dst, p.type())
        if op == 'load':
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            return (op, dst, t, p.typed()[1])
        if op == 'store':
            p.accept('volatile')
            t, v = p.typed()
            p.expect(',')
            return (op, None, t, v, p.typed()[1])
        if op == 'getelementptr':
            p.accept('inbounds')
            t = p.type()
            args = []
            while p.accept(','):
                args.append(p.typed())
            return (op, dst, t, args)
        if op == 'icmp':
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            return (op, dst, pred, t, a, p.value(t))
        if op in _ARITH:
            flags = set()
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
                flags.add(p.next())
            t = p.type()
            a = p.value(t)
            p.expect(',')
            return ('arith', dst, op, flags, t, a, p.value(t))
        if op in _CAST:
            p.accept('nneg')
            t = p.type()
            v = p.value(t)
            if op == 'freeze':
                return ('cast', dst, op, t, v, t)
            p.expect('to')
            return ('cast', dst, op, t, v, p.type())
        if op == 'br':
            if p.accept('label'):
                return (op, None, p.next())
            t, v = p.typed()
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            return ('cbr', None, v, a, p.next())
        if op == 'switch':
            t, v = p.typed()
            p.expect(',')
            p.expect('label')
            default = p.next()
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct, cv = p.typed()
                p.expect(',')
                p.expect('label')
                cases.append((cv, p.next()))
            return (op, None, v, default, cases)
        if op == 'phi':
            t = p.type()
            arms = []
            while p.accept('['):
                v = p.value(t)
                p.expect(',')
                arms.append((v, p.next()))
                p.expect(']')
                p.accept(',')
            return (op, dst, arms)
        if op == 'select':
            c = p.typed()
            p.expect(',')
            a = p.typed()
            p.expect(',')
            return (op, dst, c[1], a[1], p.typed()[1])
        if op == 'ret':
            t = p.type()
            return (op, None, None if t[0] == 'void' else p.value(t))
        if op == 'unreachable':
            return (op, None)
        if op == 'call':
            p.attrs()
            p.type()
            if p.accept('('):       # type of variadic function
                while not p.accept(')'):
                    p.next()
            f = p.value(None)
            p.expect('(')
            args = []
            while not p.accept(')'):
                args.append(p.typed()[1])
                p.accept(',')
            return (op, dst, f, args)
        raise Unsupported(f'instruction {op}')


# --- memory

class Block:

    def __init__(self, name, size, kind):
        self.name = name
        self.size = size
        self.kind = kind
        self.alive = True
        self.cells = {}         # offset -> (size, value)
        self.zero = False       # content not written is zero

    def __repr__(self):
        return f'<{self.name}>'

    def _check(self, off, n):
        if not self.alive:
            raise Fault(f'use of released memory: {self.name}')
        if not 0 <= off <= self.size - n:
            raise Fault(f'access out of bounds: {self.name}')

    def load(self, off, n):
        self._check(off, n)
        c = self.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        for o, (k, v) in self.cells.items():
            if o < off + n and off < o + k:
                raise Unsupported('partial access to memory')
        if self.zero:
            return 0
        raise Fault(f'use of memory which is not initialized: {self.name}')

    def store(self, off, n, v):
        self._check(off, n)
        for o, (k, _) in list(self.cells.items()):
            if o != off and o < off + n and off < o + k:
                if o >= off and o + k <= off + n:
                    del self.cells[o]
                else:
                    raise Unsupported('partial access to memory')
        self.cells[off] = (n, v)

    def copy(self, off, src, src_off, n):
        self._check(off, n)
        src._check(src_off, n)
        new = {}
        for o, (k, v) in src.cells.items():
            if src_off <= o and o + k <= src_off + n:
                new[o - src_off + off] = (k, v)
            elif o < src_off + n and src_off < o + k:
                raise Unsupported('partial copy of memory')
        for o, (k, v) in list(self.cells.items()):
            if off <= o and o + k <= off + n:
                del self.cells[o]
        if src.zero and not self.zero:
            # padding and members which weren't written
            if n != src.size or n != self.size:
                raise Unsupported('partial copy of zeros')
            self.zero = True
        self.cells.update(new)


class BytesBlock(Block):
    """Constant bytes"""

    def __init__(self, name, data, kind='global'):
        super().__init__(name, len(data), kind)
        self.data = data

    def load(self, off, n):
        self._check(off, n)
        if n != 1:
            raise Unsupported('wide access to text')
        return self.data[off] - 256 * (self.data[off] > 127)

    def store(self, off, n, v):
        raise Fault('write to constant')


class TextBlock(Block):
    """UTF-8 text (possibly symbolic), followed by zero"""

    def __init__(self, name, text, owner=None):
        super().__init__(name, 0, 'text')
        self.text = text
        self.owner = owner

    def check_alive(self):
        if not self.alive or (self.owner is not None and
                              not self.owner.alive):
            raise Fault(f'use of released memory: {self.name}')

    def _choose(self, f):
        t = self.text
        if isinstance(t, V.SymStr):
            r = f(t.pool.texts[-1].encode())
            for i in range(len(t.pool.texts) - 2, -1, -1):
                v = f(t.pool.texts[i].encode())
                r = z3_if(t.e == i, v, r)
            return V.mkint(r) if not isinstance(r, int) else r
        return f(t.encode())

    def length(self):
        return self._choose(len)

    def load(self, off, n):
        self.check_alive()
        if n != 1 or off < 0:
            raise Unsupported('wide access to text')
        if self.length() < off:
            raise Fault('access out of bounds of text')

        def byte(b):
            x = b[off] if off < len(b) else 0
            return x - 256 * (x > 127)
        return self._choose(byte)

    def store(self, off, n, v):
        raise Fault('write to constant')


def z3_if(c, a, b):
    import z3
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    return z3.If(c, z3.IntVal(a) if isinstance(a, int) else a,
                 z3.IntVal(b) if isinstance(b, int) else b)


class Ptr:
    __slots__ = ('block', 'off')

    def __init__(self, block, off=0):
        self.block = block
        self.off = off

    def __eq__(self, other):
        return (isinstance(other, Ptr) and self.block is other.block and
                self.off == other.off)

    def __hash__(self):
        return hash((id(self.block), self.off))

    def __repr__(self):
        return f'{self.block}+{self.off}'


class FuncPtr:

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, FuncPtr) and self.name == other.name

    def __hash__(self):
        return hash(self.name)


UNDEF = object()


def is_ptr(x):
    return isinstance(x, (Ptr, FuncPtr))


class Machine:

    def __init__(self, module, api, max_steps=200000):
        self.m = module
        self.api = api          # name -> function(machine, args)
        self.steps = max_steps
        self.heap = set()       # blocks which aren't released
        self.globals = {}
        self.counter = 0
        self.depth = 0
        for name, (t, init) in module.globals.items():
            if init is None:
                continue
            if init[0] == 'bytes':
                b = BytesBlock(name, init[1])
            else:
                b = Block(name, module.size(t), 'global')
            self.globals[name] = b
        for name, (t, init) in module.globals.items():
            if init is not None and init[0] != 'bytes':
                self._init(self.globals[name], 0, t, init)

    def _init(self, block, off, t, v):
        t = self.m.resolve(t)
        if v[0] == 'zero':
            if off == 0 and self.m.size(t) == block.size:
                block.zero = True
            else:
                block.zero = True   # rest is written explicitly
            return
        if v[0] == 'agg':
            if t[0] == 'struct':
                offs = self.m.layout(t)[0]
            else:
                s = self.m.size(t[2])
                offs = [i * s for i in range(t[1])]
            for o, (et, ev) in zip(offs, v[1]):
                self._init(block, off + o, et, ev)
            return
        if v[0] == 'undef':
            return
        if v[0] == 'bytes':
            for i, b in enumerate(v[1]):
                block.store(off + i, 1, b - 256 * (b > 127))
            return
        block.store(off, self.m.size(t), self._eval(v, {}))

    def new(self, name, size, kind='heap'):
        self.counter += 1
        b = Block(f'{name}{self.counter}', size, kind)
        if kind == 'heap':
            self.heap.add(b)
        return b

    def release(self, p):
        if p == 0:
            return
        if not isinstance(p, Ptr) or p.off or p.block.kind != 'heap':
            raise Fault('release of invalid pointer')
        if not p.block.alive:
            raise Fault(f'released twice: {p.block.name}')
        p.block.alive = False
        self.heap.discard(p.block)

    # --- evaluation

    def _eval(self, v, regs):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'r':
            x = regs[v[1]]
            return x
        if k == 'g':
            return self._global(v[1])
        if k == 'gep':
            return self._gep(v[1], v[2], regs)
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return 0
        raise Unsupported(f'value {k}')

    def _global(self, name):
        if name in self.globals:
            return Ptr(self.globals[name])
        if name in self.m.functions:
            return FuncPtr(name)
        x = self.api.get('@' + name)
        if x is not None:
            self.globals[name] = x(self)
            return Ptr(self.globals[name])
        if name in self.api:
            return FuncPtr(name)
        raise Unsupported(f'symbol {name}')

    def _gep(self, t, args, regs):
        p = self._eval(args[0][1], regs)
        off = 0
        idx = [concrete(self._eval(a[1], regs)) for a in args[1:]]
        off += idx[0] * self.m.size(t)
        for i in idx[1:]:
            t = self.m.resolve(t)
            if t[0] == 'struct':
                off += self.m.layout(t)[0][i]
                t = t[1][i]
            else:
                t = t[2]
                off += i * self.m.size(t)
        if p == 0 and not isinstance(p, V.Sym):
            if off == 0:
                return 0
            raise Fault('arithmetic on null pointer')
        if not isinstance(p, Ptr):
            raise Unsupported('pointer arithmetic')
        return Ptr(p.block, p.off + off)

    def deref(self, p, what='access'):
        if is_ptr(p) and isinstance(p, Ptr):
            return p.block, p.off
        if isinstance(p, int) and p == 0:
            raise Fault(f'{what} through null pointer')
        raise Fault(f'{what} through invalid pointer')

    def call(self, name, args):
        if isinstance(name, FuncPtr):
            name = name.name
        f = self.m.functions.get(name)
        if f is None:
            g = self.api.get(name)
            if g is None:
                raise Unsupported(f'function {name}')
            return g(self, *args)
        called.add(f'{self.m.name}:{name}')
        self.depth += 1
        if self.depth > 60:
            raise Fault('recursion without bound')
        try:
            return self._run(f, args)
        finally:
            self.depth -= 1

    def _run(self, f, args):
        regs = dict(zip(f.params, args))
        stack = []
        label, prev = f.entry, None
        try:
            while True:
                block = f.blocks[label]
                # phis read values of previous block
                phis = [i for i in block if i[0] == 'phi']
                new = [self._eval(next(v for v, l in i[2] if l == prev), regs)
                       for i in phis]
                for i, v in zip(phis, new):
                    regs[i[1]] = v
                for ins in block[len(phis):]:
                    self.steps -= 1
                    if self.steps < 0:
                        raise Fault('does not end (bound on instructions)')
                    op = ins[0]
                    if op == 'br':
                        label, prev = ins[2], label
                        break
                    if op == 'cbr':
                        c = self._bool(self._eval(ins[2], regs))
                        label, prev = ins[3 if c else 4], label
                        break
                    if op == 'switch':
                        v = self._eval(ins[2], regs)
                        target = ins[3]
                        for cv, l in ins[4]:
                            if v == self._eval(cv, regs):
                                target = l
                                break
                        label, prev = target, label
                        break
                    if op == 'ret':
                        return (None if ins[2] is None
                                else self._eval(ins[2], regs))
                    if op == 'unreachable':
                        raise Fault('unreachable code')
                    r = self._step(ins, regs, stack)
                    if ins[1] is not None:
                        regs[ins[1]] = r
        finally:
            for b in stack:
                b.alive = False

    @staticmethod
    def _bool(v):
        if v is UNDEF:
            raise Fault('use of undefined value')
        if is_ptr(v):
            return True
        return bool(v)

    def _step(self, ins, regs, stack):
        op = ins[0]
        if op == 'alloca':
            self.counter += 1
            b = Block(f'{ins[1]}{self.counter}', self.m.size(ins[2]), 'stack')
            stack.append(b)
            return Ptr(b)
        if op == 'load':
            block, off = self.deref(self._eval(ins[3], regs))
            return block.load(off, self.m.size(ins[2]))
        if op == 'store':
            v = self._eval(ins[3], regs)
            block, off = self.deref(self._eval(ins[4], regs))
            if v is not UNDEF:
                block.store(off, self.m.size(ins[2]), v)
            return
        if op == 'getelementptr':
            return self._gep(ins[2], ins[3], regs)
        if op == 'icmp':
            return self._icmp(ins[2], ins[3], self._eval(ins[4], regs),
                              self._eval(ins[5], regs))
        if op == 'arith':
            return self._arith(ins[2], ins[3], ins[4],
                               self._eval(ins[5], regs),
                               self._eval(ins[6], regs))
        if op == 'cast':
            return self._cast(ins[2], ins[3], self._eval(ins[4], regs),
                              ins[5])
        if op == 'select':
            c = self._bool(self._eval(ins[2], regs))
            return self._eval(ins[3 if c else 4], regs)
        if op == 'call':
            return self._call(ins, regs)
        raise Unsupported(f'instruction {op}')

    def _call(self, ins, regs):
        kind, name = ins[2][0], ins[2][1]
        args = [self._eval(a, regs) for a in ins[3]]
        if kind == 'r':
            name = regs[name]
            if not isinstance(name, FuncPtr):
                raise Fault('call of invalid pointer')
            name = name.name
        if name.startswith('llvm.memcpy') or \
                name.startswith('llvm.memmove') or name in ('memcpy',
                                                            'memmove'):
            d, do = self.deref(args[0])
            s, so = self.deref(args[1])
            d.copy(do, s, so, concrete(args[2]))
            return args[0]
        if name.startswith('llvm.memset') or name == 'memset':
            d, do = self.deref(args[0])
            n = concrete(args[2])
            d._check(do, n)
            if args[1] != 0:
                raise Unsupported('memset')
            if do == 0 and n == d.size:
                d.cells.clear()
                d.zero = True
            else:
                if n:
                    raise Unsupported('partial memset')
            return args[0]
        if name.startswith('llvm.'):
            if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume')):
                return None
            if name.startswith('llvm.expect'):
                return args[0]
            raise Unsupported(name)
        return self.call(name, args)

    def _icmp(self, pred, t, a, b):
        if a is UNDEF or b is UNDEF:
            raise Fault('use of undefined value')
        if is_ptr(a) or is_ptr(b):
            if pred in ('eq', 'ne'):
                return int((a == b) == (pred == 'eq'))
            if not (isinstance(a, Ptr) and isinstance(b, Ptr) and
                    a.block is b.block):
                raise Fault('comparison of unrelated pointers')
            a, b = a.off, b.off
            t = ('i', 64)
        if isinstance(a, V.SymBool):
            a = a._int()
        if isinstance(b, V.SymBool):
            b = b._int()
        if pred[0] == 'u' and t[0] == 'i':
            a, b = unsigned(a, t[1]), unsigned(b, t[1])
        elif isinstance(a, int) and isinstance(b, int) and t[0] == 'i' and \
                t[1] > 1:
            a, b = signed(a, t[1]), signed(b, t[1])
        k = pred[-2:]
        r = (a == b if k == 'eq' else a != b if k == 'ne' else
             a < b if k == 'lt' else a <= b if k == 'le' else
             a > b if k == 'gt' else a >= b)
        return int(r) if isinstance(r, bool) else r

    def _arith(self, op, flags, t, a, b):
        if a is UNDEF or b is UNDEF:
            raise Fault('use of undefined value')
        n = t[1]
        if n == 1:
            # logical
            if not isinstance(a, V.Sym) and not isinstance(b, V.Sym):
                a, b = a & 1, b & 1
                return {'and': a & b, 'or': a | b, 'xor': a ^ b,
                        'add': a ^ b, 'sub': a ^ b}[op]
            a = a if isinstance(a, V.SymBool) else bool(a & 1)
            b = b if isinstance(b, V.SymBool) else bool(b & 1)
            if op == 'and':
                return V.band(a, b)
            if op == 'or':
                return V.bor(a, b)
            if op == 'xor':
                return V.bor(V.band(a, V.bnot(b)), V.band(V.bnot(a), b))
            raise Unsupported(f'{op} i1')
        if is_ptr(a) or is_ptr(b):
            raise Unsupported('pointer arithmetic')
        if isinstance(a, V.SymBool):
            a = a._int()
        if isinstance(b, V.SymBool):
            b = b._int()
        sym = isinstance(a, V.Sym) or isinstance(b, V.Sym)
        if op in ('add', 'sub', 'mul'):
            r = a + b if op == 'add' else a - b if op == 'sub' else a * b
            if sym:
                return r        # sizes and characters: no wrapping
            if 'nsw' in flags and signed(r, n) != r and \
                    not (r == unsigned(r, n)):
                raise Fault('signed overflow')
            return signed(r, n)
        if sym:
            a, b = concrete(a), concrete(b)
        ua, ub = unsigned(a, n), unsigned(b, n)
        sa, sb = signed(a, n), signed(b, n)
        if op in ('udiv', 'sdiv', 'urem', 'srem') and not ub:
            raise Fault('division by zero')
        if op in ('shl', 'lshr', 'ashr') and ub >= n:
            raise Fault('shift')
        r = {'and': lambda: ua & ub, 'or': lambda: ua | ub,
             'xor': lambda: ua ^ ub, 'shl': lambda: ua << ub,
             'lshr': lambda: ua >> ub, 'ashr': lambda: sa >> ub,
             'udiv': lambda: ua // ub, 'urem': lambda: ua % ub,
             'sdiv': lambda: abs(sa) // abs(sb) *
             (1 if (sa < 0) == (sb < 0) else -1),
             'srem': lambda: abs(sa) % abs(sb) * (-1 if sa < 0 else 1)}[op]()
        return signed(r, n)

    def _cast(self, op, t, v, to):
        if v is UNDEF or is_ptr(v):
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
                return v
            if v is UNDEF:
                raise Fault('use of undefined value')
            raise Unsupported('cast of pointer')
        if op == 'zext':
            if isinstance(v, V.SymBool):
                return v._int()
            return unsigned(v, t[1])
        if op == 'sext':
            if isinstance(v, V.SymBool):
                return -v._int()
            return -(v & 1) if t[1] == 1 and isinstance(v, int) else v
        if op == 'trunc':
            if isinstance(v, V.Sym):
                if to[1] == 1:
                    return v != 0 if not isinstance(v, V.SymBool) else v
                return v        # sizes and characters
            return v & 1 if to[1] == 1 else signed(v, to[1])
        return v


def signed(v, n):
    if isinstance(v, V.Sym) or is_ptr(v):
        return v
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


def unsigned(v, n):
    if isinstance(v, V.SymInt):
        if v < 0:
            return v + (1 << n)
        return v
    if isinstance(v, V.Sym) or is_ptr(v):
        return v
    return v & ((1 << n) - 1)


def concrete(v):
    return int(v) if isinstance(v, V.Sym) else v
