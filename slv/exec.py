"""Symbolic executor for the parsed IR.  One Exec instance = one execution along one sequence of branch decisions."""
import math, struct
from fractions import Fraction
from . import term as t
from .term import T, isc, mk
from .ir import Module, IRError


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """this path cannot continue (infeasible / assertion failure recorded / bound reached)"""
    def __init__(self, why):
        self.why = why


class Bound(Exception):
    pass


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Obj:
    __slots__ = ('name', 'size', 'cells', 'ro', 'n', 'alive')
    cnt = 0

    def __init__(self, name, size, ro=False):
        self.name, self.size, self.ro = name, size, ro
        self.cells = {}
        self.alive = True
        Obj.cnt += 1
        self.n = Obj.cnt


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return '&%s+%r' % (self.obj.name if self.obj else 'null', self.off)


NULL = Ptr(None, 0)


class FnPtr:
    def __init__(self, name):
        self.name = name


def tyname(ty):
    if ty[0] == 'f':
        return {32: 'f32', 64: 'f64', 80: 'f80'}[ty[1]]
    if ty[0] == 'i':
        return 'i%d' % ty[1]
    raise Unsupported(str(ty))


MATH1 = {}
for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt', 'exp', 'log', 'log10', 'trunc', 'round', 'floor', 'ceil', 'cbrt', 'sinh',
           'cosh', 'tanh', 'log2', 'exp2'):
    MATH1[_n] = (_n, 'f64')
    MATH1[_n + 'f'] = (_n, 'f32')
    MATH1[_n + 'l'] = (_n, 'f80')
MATH2 = {}
for _n in ('atan2', 'fmod', 'pow', 'hypot', 'remainder'):
    MATH2[_n] = (_n, 'f64')
    MATH2[_n + 'f'] = (_n, 'f32')


class Exec:
    """Concrete/symbolic interpreter.  `ctl` supplies decide(cond) and pick(intterm)."""

    def __init__(self, mod, ctl, shared, max_steps=4000000):
        self.m = mod
        self.ctl = ctl
        self.shared = shared          # cache of read-only global objects
        self.globs = {}
        self.steps = 0
        self.max_steps = max_steps
        self.calls = {}
        self.stubs = {}
        self.depth = 0
        self.loc = ''
        self.trace = []               # external effects, e.g. nanosleep
        self.rng = 0

    # ---------------------------------------------------------------- globals & values
    def glob(self, name):
        o = self.globs.get(name)
        if o is not None:
            return o
        if name in self.m.globals:
            ty, init, const = self.m.globals[name]
            if const and name in self.shared:
                o = self.shared[name]
            else:
                o = Obj(name, self.m.sizeof(ty), const)
                if init is not None:
                    self.init(o, 0, ty, init)
                if const:
                    self.shared[name] = o
            self.globs[name] = o
            return o
        if name in self.m.funcs or name in self.m.decls:
            return FnPtr(name)
        raise Unsupported('global ' + name)

    def init(self, o, off, ty, v):
        ty = self.m.resolve(ty)
        k = v[0]
        if k in ('zero', 'undef'):
            self.zero(o, off, ty)
        elif k == 'bytes':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b - 256 if b > 127 else b)
        elif k == 'agg':
            if ty[0] in ('arr', 'vec'):
                s = self.m.sizeof(ty[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.init(o, off + i * s, et, ev)
            else:
                for i, (et, ev) in enumerate(v[1]):
                    fo, ft = self.m.field_off(ty, i)
                    self.init(o, off + fo, ft, ev)
        else:
            o.cells[off] = (self.m.sizeof(ty), self.val(v, None))

    def zero(self, o, off, ty):
        ty = self.m.resolve(ty)
        if ty[0] in ('arr', 'vec'):
            s = self.m.sizeof(ty[2])
            for i in range(ty[1]):
                self.zero(o, off + i * s, ty[2])
        elif ty[0] == 'st':
            for i in range(len(ty[2])):
                fo, ft = self.m.field_off(ty, i)
                self.zero(o, off + fo, ft)
        elif ty[0] == 'f':
            o.cells[off] = (self.m.sizeof(ty), 0.0)
        elif ty[0] == 'ptr':
            o.cells[off] = (8, NULL)
        else:
            o.cells[off] = (self.m.sizeof(ty), 0)

    def val(self, v, env):
        k = v[0]
        if k == 'loc':
            return env[v[1]]
        if k == 'ci':
            n = v[2]
            if n == 1:
                return v[1] & 1
            return t.wrap_s(v[1], n)
        if k == 'cf':
            return v[1]
        if k == 'glob':
            g = self.glob(v[1])
            return g if isinstance(g, FnPtr) else Ptr(g, 0)
        if k == 'null':
            return NULL
        if k == 'undef':
            ty = self.m.resolve(v[1])
            if ty[0] in ('vec', 'arr'):
                return [UNDEF] * ty[1]
            if ty[0] == 'st':
                return [UNDEF] * len(ty[2])
            return UNDEF
        if k == 'zero':
            ty = self.m.resolve(v[1])
            if ty[0] in ('vec', 'arr'):
                return [self.val(('zero', ty[2]), env)] * ty[1]
            if ty[0] == 'st':
                return [self.val(('zero', x), env) for x in ty[2]]
            return 0.0 if ty[0] == 'f' else NULL if ty[0] == 'ptr' else 0
        if k == 'cgep':
            return self.gep(v[1], self.val(v[2], env), [(it, self.val(iv, env)) for it, iv in v[3]])
        if k == 'agg':
            return [self.val(x[1], env) for x in v[1]]
        if k == 'bytes':
            return [b - 256 if b > 127 else b for b in v[1]]
        if k == 'ccast':
            return self.cast(v[1], v[2], self.val(v[3], env), v[4])
        raise Unsupported(str(v))

    def use(self, x, what='value'):
        """a value that is about to be computed with: must not be undefined"""
        if x is UNDEF:
            self.ctl.ub(False, 'use of uninitialised %s in %s' % (what, self.loc))
            raise PathEnd('uninit')
        return x

    # ---------------------------------------------------------------- memory
    def gep(self, bt, p, idx):
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        off = p.off
        ty = bt
        for j, (it, iv) in enumerate(idx):
            iv = self.use(iv, 'index')
            if j == 0:
                off = t.iadd(off, t.imul(iv, self.m.sizeof(ty)))
            else:
                ty = self.m.resolve(ty)
                if ty[0] in ('arr', 'vec'):
                    ty = ty[2]
                    off = t.iadd(off, t.imul(iv, self.m.sizeof(ty)))
                else:
                    fo, ty = self.m.field_off(ty, iv)
                    off = t.iadd(off, fo)
        return Ptr(p.obj, off)

    def addr(self, p, n, what):
        if not isinstance(p, Ptr):
            raise Unsupported('deref %r' % (p,))
        o = p.obj
        if o is None:
            self.ctl.ub(False, 'null dereference (%s) in %s' % (what, self.loc))
            raise PathEnd('null')
        if not o.alive:
            self.ctl.ub(False, 'use of dead stack object (%s) in %s' % (what, self.loc))
            raise PathEnd('dead')
        off = p.off
        if isinstance(off, T):
            okc = t.band(t.le(0, off), t.le(off, o.size - n))
            if okc is not True:
                self.ctl.ub(okc, 'out-of-bounds %s of %s in %s' % (what, o.name, self.loc))
            off = self.ctl.pick(off)
        if off < 0 or off + n > o.size:
            self.ctl.ub(False, 'out-of-bounds %s of %s+%d in %s' % (what, o.name, off, self.loc))
            raise PathEnd('oob')
        return o, off

    def load(self, ty, p):
        ty = self.m.resolve(ty)
        if ty[0] in ('vec', 'arr'):
            s = self.m.sizeof(ty[2])
            return [self.load(ty[2], self.gep(('i', 8), p, [(None, i * s)])) for i in range(ty[1])]
        if ty[0] == 'st':
            return [self.load(ft, self.gep(('i', 8), p, [(None, fo)])) for fo, ft in
                    [self.m.field_off(ty, i) for i in range(len(ty[2]))]]
        n = self.m.sizeof(ty)
        o, off = self.addr(p, n, 'read')
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.retype(c[1], ty)
        return self.load_bytes(o, off, n, ty)

    def retype(self, v, ty):
        if v is UNDEF or isinstance(v, (Ptr, FnPtr)):
            return v
        if isinstance(v, T):
            isf = v.ty in ('f32', 'f64', 'f80', 'real')
            if isf != (ty[0] == 'f'):
                return self.bits(v, ty)
            return v
        if isinstance(v, float) != (ty[0] == 'f'):
            return self.bits(v, ty)
        if ty[0] == 'i' and ty[1] == 1:
            return v & 1
        return v

    def bits(self, v, ty):
        if isc(v):
            if isinstance(v, float):
                fmt = '<f' if ty[1] == 32 else '<d'
                b = struct.pack(fmt, v)
                return int.from_bytes(b, 'little', signed=True)
            fmt = '<f' if ty[1] == 32 else '<d'
            return struct.unpack(fmt, int(v).to_bytes(ty[1] // 8, 'little', signed=True))[0]
        raise Unsupported('bit reinterpretation of symbolic value')

    def load_bytes(self, o, off, n, ty):
        bs = bytearray()
        for i in range(n):
            got = None
            for q in range(off + i, max(-1, off + i - 16), -1):
                c = o.cells.get(q)
                if c is not None and q + c[0] > off + i:
                    got = (q, c)
                    break
            if got is None:
                return UNDEF
            q, (cn, cv) = got
            if not isc(cv) or cv is UNDEF or isinstance(cv, (Ptr, FnPtr)):
                if cv is UNDEF:
                    return UNDEF
                raise Unsupported('partial read of symbolic cell of %s' % o.name)
            if isinstance(cv, float):
                b = struct.pack('<f' if cn == 4 else '<d', cv)
            else:
                b = int(cv).to_bytes(cn, 'little', signed=cv < 0)
            bs.append(b[off + i - q])
        if ty[0] == 'f':
            return struct.unpack('<f' if n == 4 else '<d', bytes(bs))[0]
        if ty[0] == 'i':
            return int.from_bytes(bytes(bs), 'little', signed=True)
        raise Unsupported('byte-wise pointer load')

    def store(self, ty, v, p):
        ty = self.m.resolve(ty)
        if ty[0] in ('vec', 'arr'):
            s = self.m.sizeof(ty[2])
            for i in range(ty[1]):
                self.store(ty[2], v[i], self.gep(('i', 8), p, [(None, i * s)]))
            return
        if ty[0] == 'st':
            for i in range(len(ty[2])):
                fo, ft = self.m.field_off(ty, i)
                self.store(ft, v[i], self.gep(('i', 8), p, [(None, fo)]))
            return
        n = self.m.sizeof(ty)
        o, off = self.addr(p, n, 'write')
        if o.ro:
            self.ctl.ub(False, 'write to read-only %s in %s' % (o.name, self.loc))
            raise PathEnd('ro')
        self.put(o, off, n, v)

    def put(self, o, off, n, v):
        c = o.cells.get(off)
        if c is None or c[0] != n:
            self.clear(o, off, n)
        o.cells[off] = (n, v)

    def clear(self, o, off, n):
        for q in range(max(0, off - 15), off + n):
            c = o.cells.get(q)
            if c is not None and q + c[0] > off:
                if q >= off and q + c[0] <= off + n:
                    del o.cells[q]
                else:
                    # split a concrete cell into bytes
                    cn, cv = c
                    if cv is UNDEF:
                        del o.cells[q]
                        continue
                    if not isc(cv) or isinstance(cv, (Ptr, FnPtr)):
                        raise Unsupported('partial overwrite of symbolic cell')
                    b = struct.pack('<f' if cn == 4 else '<d', cv) if isinstance(cv, float) else int(cv).to_bytes(cn, 'little', signed=cv < 0)
                    del o.cells[q]
                    for i in range(cn):
                        if not (off <= q + i < off + n):
                            o.cells[q + i] = (1, b[i] - 256 if b[i] > 127 else b[i])

    def memcpy(self, d, s, n):
        if n == 0:
            return
        do, doff = self.addr(d, n, 'write')
        so, soff = self.addr(s, n, 'read')
        if do.ro:
            self.ctl.ub(False, 'write to read-only %s' % do.name)
            raise PathEnd('ro')
        cs = [(q, c) for q, c in so.cells.items() if soff <= q < soff + n]
        for q, c in cs:
            if q + c[0] > soff + n:
                raise Unsupported('memcpy splits a cell')
        self.clear(do, doff, n)
        for q, c in cs:
            do.cells[q - soff + doff] = c

    def memset(self, d, v, n):
        if n == 0:
            return
        do, doff = self.addr(d, n, 'write')
        self.clear(do, doff, n)
        for i in range(n):
            do.cells[doff + i] = (1, v)

    def cstr(self, p, limit=4096):
        """list of chars up to NUL; chars may be symbolic: forks on NUL-ness"""
        i = 0
        while i < limit:
            c = self.use(self.load(('i', 8), self.gep(('i', 8), p, [(None, i)])), 'char')
            yield c
            i += 1

    # ---------------------------------------------------------------- calls
    def call(self, name, args):
        if name in self.stubs:
            return self.stubs[name](self, args)
        f = self.m.funcs.get(name)
        if f is None:
            return self.external(name[1:], args)
        self.calls[name] = self.calls.get(name, 0) + 1
        self.depth += 1
        if self.depth > 60:
            raise Bound('recursion depth')
        saved = self.loc
        self.loc = name
        allocas = []
        try:
            return self.run(f, args, allocas)
        finally:
            self.depth -= 1
            self.loc = saved
            for o in allocas:
                o.alive = False

    def run(self, f, args, allocas):
        env = {}
        for (ty, nm), v in zip(f.params, args):
            env[nm] = v
        blk = f.entry
        prev = None
        val = self.val
        while True:
            ins = f.blocks[blk]
            # phis evaluated in parallel
            i = 0
            if ins and ins[0].op == 'phi':
                upd = []
                while ins[i].op == 'phi':
                    upd.append((ins[i].res, val(ins[i].a[1][prev], env)))
                    i += 1
                for r, v in upd:
                    env[r] = v
            n = len(ins)
            while i < n:
                x = ins[i]
                i += 1
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Bound('step limit')
                op = x.op
                a = x.a
                if op == 'bin':
                    env[x.res] = self.binop(a[0], a[1], val(a[2], env), val(a[3], env), a[4])
                elif op == 'load':
                    env[x.res] = self.load(a[0], val(a[1], env))
                elif op == 'store':
                    self.store(a[0], val(a[1], env), val(a[2], env))
                elif op == 'gep':
                    env[x.res] = self.gep(a[0], val(a[1], env), [(it, val(iv, env)) for it, iv in a[2]])
                elif op == 'call':
                    callee = a[1]
                    if callee[0] == 'glob':
                        nm = callee[1]
                    else:
                        fp = val(callee, env)
                        if not isinstance(fp, FnPtr):
                            raise Unsupported('indirect call')
                        nm = fp.name
                    if nm.startswith('@llvm.dbg') or nm.startswith('@llvm.lifetime') or nm.startswith('@llvm.assume'):
                        continue
                    r = self.call(nm, [val(v, env) for ty, v in a[2]])
                    if x.res is not None:
                        env[x.res] = r
                elif op == 'br':
                    prev, blk = blk, a[0]
                    break
                elif op == 'cbr':
                    c = self.use(val(a[0], env), 'branch condition')
                    tk = self.ctl.decide(self.tobool(c))
                    prev, blk = blk, (a[1] if tk else a[2])
                    break
                elif op == 'icmp':
                    env[x.res] = self.icmp(a[0], a[1], val(a[2], env), val(a[3], env))
                elif op == 'fcmp':
                    env[x.res] = self.fcmp(a[0], a[1], val(a[2], env), val(a[3], env))
                elif op == 'cast':
                    env[x.res] = self.cast(a[0], a[1], val(a[2], env), a[3])
                elif op == 'fneg':
                    v = val(a[1], env)
                    env[x.res] = v if v is UNDEF else t.fneg(v, tyname(self.m.resolve(a[0])))
                elif op == 'ret':
                    return None if a[0] is None else val(a[1], env)
                elif op == 'alloca':
                    cnt = 1
                    if a[1] is not None:
                        cnt = val(a[1][1], env)
                        if not isc(cnt):
                            cnt = self.ctl.pick(cnt)
                    o = Obj('%s:%s' % (f.name, x.res), self.m.sizeof(a[0]) * cnt)
                    allocas.append(o)
                    env[x.res] = Ptr(o, 0)
                elif op == 'select':
                    c = self.use(val(a[0], env), 'select condition')
                    u, w = val(a[2], env), val(a[3], env)
                    if u is w or (isc(u) and isc(w) and type(u) == type(w) and not isinstance(u, (list, Ptr)) and u == w):
                        env[x.res] = u
                    else:
                        env[x.res] = u if self.ctl.decide(self.tobool(c)) else w
                elif op == 'switch':
                    v = self.use(val(a[1], env), 'switch value')
                    prev = blk
                    blk = a[2]
                    if isc(v):
                        for cv, lb in a[3]:
                            if cv == v:
                                blk = lb
                                break
                    else:
                        for cv, lb in a[3]:
                            if self.ctl.decide(t.eq(v, cv)):
                                blk = lb
                                break
                    break
                elif op == 'copy':
                    env[x.res] = val(a[1], env)
                elif op == 'unreachable':
                    raise PathEnd('unreachable')
                elif op == 'extractel':
                    env[x.res] = val(a[1], env)[val(a[2], env)]
                elif op == 'insertel':
                    v = list(val(a[1], env))
                    v[val(a[3], env)] = val(a[2], env)
                    env[x.res] = v
                elif op == 'extractvalue':
                    v = val(a[1], env)
                    for q in a[2]:
                        v = v[q]
                    env[x.res] = v
                elif op == 'insertvalue':
                    v = list(val(a[1], env))
                    if len(a[4]) != 1:
                        raise Unsupported('nested insertvalue')
                    v[a[4][0]] = val(a[3], env)
                    env[x.res] = v
                else:
                    raise Unsupported('instruction %s %s' % (op, x.a))
            else:
                raise Unsupported('fallthrough in %s' % f.name)

    def tobool(self, c):
        if isc(c):
            return bool(c)
        return c

    # ---------------------------------------------------------------- operations
    def binop(self, op, ty, a, b, fl):
        ty = self.m.resolve(ty)
        if ty[0] == 'vec':
            return [self.binop(op, ty[2], x, y, fl) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF:
            self.use(UNDEF, 'operand')
        if ty[0] == 'f':
            tn = tyname(ty)
            if op == 'frem':
                return t.fmath('fmod', (a, b), tn)
            if op == 'fdiv':
                self.ctl.fdiv(a, b, self.loc)
            return t.fbin(op, a, b, tn)
        n = ty[1]
        tn = 'i%d' % n
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported('pointer arithmetic in integers')
        if n == 1:
            a, b = self.tobool(a), self.tobool(b)
            if op == 'and':
                return t.band(a, b) if not (isc(a) and isc(b)) else int(a and b)
            if op == 'or':
                return t.bor(a, b) if not (isc(a) and isc(b)) else int(a or b)
            if op == 'xor':
                return t.bnot(t.beq(a, b)) if not (isc(a) and isc(b)) else int(a != b)
            raise Unsupported('i1 ' + op)
        m = 1 << (n - 1)

        def arith(r, what):
            if 'nsw' in fl:
                if isc(r):
                    if not (-m <= r < m):
                        self.ctl.ub(False, 'signed overflow in %s (%s)' % (self.loc, what))
                        raise PathEnd('overflow')
                    return r
                c = t.band(t.le(-m, r), t.le(r, m - 1))
                if c is not True:
                    self.ctl.ub(c, 'signed overflow in %s (%s)' % (self.loc, what))
                return r
            return t.wrap_s(r, n)
        if op == 'add':
            return arith(t.iadd(a, b, tn), 'add')
        if op == 'sub':
            return arith(t.isub(a, b, tn), 'sub')
        if op == 'mul':
            return arith(t.imul(a, b, tn), 'mul')
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            if isc(b):
                if b == 0:
                    self.ctl.ub(False, 'division by zero in %s' % self.loc)
                    raise PathEnd('div0')
            else:
                self.ctl.ub(t.ne(b, 0), 'division by zero in %s' % self.loc)
            if op[0] == 'u':
                a, b = self.to_u(a, n), self.to_u(b, n)
                r = t.isdiv(a, b) if op == 'udiv' else t.isrem(a, b)
                return t.wrap_s(r, n)
            if not (isc(b) and b != -1):
                self.ctl.ub(t.bnot(t.band(t.eq(a, -m), t.eq(b, -1))), 'division overflow in %s' % self.loc)
            if not isc(a) and isc(b) and b not in (0, 1, -1):
                (al, ah) = t.irange(a)
                if (al is None or al < 0) and (ah is None or ah > 0):
                    # sign of the dividend undecided: fork, so that only floor divisions remain
                    q = t.ifloordiv(a, abs(b)) if self.ctl.decide(t.le(0, a)) else t.ineg(t.ifloordiv(t.ineg(a), abs(b)))
                    if op == 'srem':
                        r = t.isub(a, t.imul(q, abs(b)))
                        return r
                    return q if b > 0 else t.ineg(q)
            return t.isdiv(a, b, tn) if op == 'sdiv' else t.isrem(a, b, tn)
        if op in ('shl', 'lshr', 'ashr'):
            if not isc(b):
                b = self.ctl.pick(b)
            if not (0 <= b < n):
                self.ctl.ub(False, 'bad shift in %s' % self.loc)
                raise PathEnd('shift')
            if op == 'shl':
                return arith(t.imul(a, 1 << b, tn), 'shl')
            if op == 'ashr':
                return t.ifloordiv(a, 1 << b)
            return t.wrap_s(t.ifloordiv(self.to_u(a, n), 1 << b), n)
        if isc(a) and isc(b):
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
        if isc(a):
            a, b = b, a
        if isc(b):
            if op == 'and':
                if b == -1: return a
                if b == 0: return 0
                if b > 0 and (b & (b + 1)) == 0:
                    return t.imod(a, b + 1)
                if b < 0 and ((-b) & (-b - 1)) == 0:      # clear low bits
                    k = -b
                    return t.isub(a, t.imod(a, k))
            if op == 'xor' and b == -1:
                return t.isub(-1, a)
            if op == 'or':
                if b == 0: return a
                if b == 1:
                    return t.iadd(t.isub(a, t.imod(a, 2)), 1)
            if op == 'xor' and b == 0: return a
            if op == 'xor' and b == 1:
                r = t.imod(a, 2)
                return t.iadd(t.isub(a, r), t.isub(1, r))
        raise Unsupported('symbolic bitwise %s' % op)

    def icmp(self, pr, ty, a, b):
        if a is UNDEF or b is UNDEF:
            self.use(UNDEF, 'comparison operand')
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                return int(same == (pr == 'eq'))
            if pr in ('eq', 'ne'):
                if a.obj is not b.obj:
                    r = False
                else:
                    r = t.eq(a.off, b.off)
                r = r if pr == 'eq' else t.bnot(r)
                return int(r) if isc(r) else r
            if a.obj is b.obj and a.obj is not None:
                ty = ('i', 64)
                a, b = a.off, b.off
                pr = pr.replace('u', 's')
            else:
                raise Unsupported('pointer order comparison')
        if self.m.resolve(ty) == ('i', 1):
            a, b = self.tobool(a), self.tobool(b)
            if pr == 'eq': r = t.beq(a, b)
            elif pr == 'ne': r = t.bnot(t.beq(a, b))
            else: raise Unsupported('i1 icmp ' + pr)
            return int(r) if isc(r) else r
        if pr[0] == 'u':
            n = self.m.resolve(ty)[1]
            a, b = self.to_u(a, n), self.to_u(b, n)
            pr = 's' + pr[1:]
        if pr == 'eq': r = t.eq(a, b)
        elif pr == 'ne': r = t.ne(a, b)
        elif pr == 'slt': r = t.lt(a, b)
        elif pr == 'sle': r = t.le(a, b)
        elif pr == 'sgt': r = t.lt(b, a)
        elif pr == 'sge': r = t.le(b, a)
        else: raise Unsupported('icmp ' + pr)
        return int(r) if isc(r) else r

    def fcmp(self, pr, ty, a, b):
        if a is UNDEF or b is UNDEF:
            self.use(UNDEF, 'comparison operand')
        if pr == 'true': return 1
        if pr == 'false': return 0
        if pr == 'oeq': r = t.eq(a, b)
        elif pr == 'une': r = t.bnot(t.eq(a, b))
        elif pr == 'olt': r = t.lt(a, b)
        elif pr == 'ole': r = t.le(a, b)
        elif pr == 'ogt': r = t.lt(b, a)
        elif pr == 'oge': r = t.le(b, a)
        elif pr == 'ult': r = t.bnot(t.le(b, a))
        elif pr == 'ule': r = t.bnot(t.lt(b, a))
        elif pr == 'ugt': r = t.bnot(t.le(a, b))
        elif pr == 'uge': r = t.bnot(t.lt(a, b))
        elif pr == 'one': r = t.bor(t.lt(a, b), t.lt(b, a))
        elif pr == 'ueq': r = t.bnot(t.bor(t.lt(a, b), t.lt(b, a)))
        elif pr == 'ord':
            r = True if not isc(a) or a == a else False
            if r and isc(b): r = b == b
        elif pr == 'uno':
            r = False if not isc(a) or a == a else True
            if not r and isc(b): r = b != b
        else: raise Unsupported('fcmp ' + pr)
        return int(r) if isc(r) else r

    def cast(self, op, ft, v, tt):
        ft, tt = self.m.resolve(ft), self.m.resolve(tt)
        if v is UNDEF:
            return UNDEF
        if ft[0] == 'vec' or tt[0] == 'vec':
            if op == 'bitcast' and ft[0] == 'vec' and tt[0] == 'vec' and ft[1] == tt[1]:
                return v
            raise Unsupported('vector cast')
        if op == 'trunc':
            n = tt[1]
            if n == 1:
                if isc(v):
                    return v & 1
                if v.lo is not None and v.lo >= 0 and v.hi is not None and v.hi <= 1:
                    if v.op == 'b2i':
                        return v.a[0]
                    return t.eq(v, 1)
                return t.eq(t.imod(v, 2), 1)
            return t.wrap_s(v, n)
        if op == 'zext':
            if ft[1] == 1:
                if isc(v):
                    return int(bool(v))
                return mk('b2i', (v,), 'int', 0, 1)
            return t.to_u(v, ft[1])
        if op == 'sext':
            if ft[1] == 1:
                if isc(v):
                    return -int(bool(v))
                return t.imul(mk('b2i', (v,), 'int', 0, 1), -1)
            return v
        if op in ('fpext', 'fptrunc'):
            return t.fconv(v, tyname(tt))
        if op == 'sitofp':
            return t.i2f(v, tyname(tt))
        if op == 'uitofp':
            if ft[1] == 1:
                v = int(bool(v)) if isc(v) else mk('b2i', (v,), 'int', 0, 1)
            return t.i2f(self.to_u(v, max(ft[1], 2)), tyname(tt))
        if op in ('fptosi', 'fptoui'):
            n = tt[1]
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if op == 'fptosi' else (0, (1 << n) - 1)
            if isc(v):
                if v != v or math.isinf(v) or not (lo <= int(v) <= hi):
                    self.ctl.ub(False, 'float to int out of range in %s' % self.loc)
                    raise PathEnd('fptosi')
                r = int(v)
                return r if op == 'fptosi' else t.wrap_s(r, n)
            c = t.band(t.lt(lo - 1, v), t.lt(v, hi + 1))
            self.ctl.ub(c, 'float to int out of range in %s' % self.loc)
            r = t.roundint('trunc', v, self.ctl.decide)
            if r is None:
                r = mk('f2i', (v,), 'int', lo, hi)
            return t.wrap_s(r, n) if op == 'fptoui' else r
        if op == 'bitcast':
            if ft[0] == tt[0]:
                return v
            return self.bits(v, tt)
        if op == 'ptrtoint' or op == 'inttoptr':
            raise Unsupported(op)
        raise Unsupported('cast ' + op)

    # ---------------------------------------------------------------- externals
    def absf(self, v, tn):
        if isc(v):
            return abs(v)
        return v if self.ctl.decide(t.le(0.0, v)) else t.fneg(v, tn)

    def math(self, nm, a, tn):
        """libm; rounding operations on terms with an integer part are taken over the integers"""
        if nm in ('trunc', 'round', 'floor', 'ceil') and not isc(a[0]):
            r = t.roundint(nm, a[0], self.ctl.decide)
            if r is not None:
                return t.i2f(r, tn)
        elif nm == 'atan2' and not isc(a[0]) and not isc(a[1]):
            # atan2(k sin w, k cos w), k > 0, -pi < w < pi
            (ky, sy), (kx, sx) = t.factor_of('sin', a[0]), t.factor_of('cos', a[1])
            if sy is not None and sy is sx and ky is kx and (ky is None or isinstance(ky, t.T) and ky.lo is not None and ky.lo > 0):
                P = t.frac(3.1415926)
                if self.ctl.decide(t.band(t.lt(-P, sy), t.lt(sy, P))):
                    return sy
        elif nm == 'fmod' and not isc(a[0]):
            cm, dm = t.rlin(a[1])
            if not dm and cm > 0 and cm.denominator == 1:
                c, d = t.rlin(a[0])
                if any(t.is_int_atom(k) for k in d):
                    q = t.roundint('trunc', t.unrlin(c / cm, {k: v / cm for k, v in d.items()}), self.ctl.decide)
                    if q is not None:
                        cq, dq = t.lin(q)
                        c = c - cq * cm
                        d = dict(d)
                        for k, v in dq.items():
                            n = d.get(k, 0) - v * cm
                            if n == 0: d.pop(k, None)
                            else: d[k] = n
                        return t.unrlin(c, d)
        if nm == 'pow' and isc(a[0]) and isinstance(a[1], T):
            e = a[1].a[0] if a[1].op == 'fc' and isinstance(a[1].a[0], T) else a[1]
            if e.op == 'i2f':
                return self.math(nm, [a[0], float(self.ctl.pick(e.a[0]))], tn)
        return t.fmath(nm, tuple(a[:1] if nm in t.ONE else a), tn)

    def to_u(self, x, n):
        """unsigned reading of a signed n-bit value; wide values whose sign is open are told apart by a fork"""
        if isc(x) or n < 32 or (x.lo is not None and x.lo >= 0):
            return t.to_u(x, n)
        return x if self.ctl.decide(t.le(0, x)) else t.iadd(x, 1 << n)

    def external(self, n, a):
        if n.startswith('llvm.'):
            p = n.split('.')
            base = p[1]
            tn = {'f32': 'f32', 'f64': 'f64', 'f80': 'f80'}.get(p[-1], None)
            if base in ('memcpy', 'memmove'):
                ln = a[2] if isc(a[2]) else self.ctl.pick(a[2])
                if base == 'memmove' or True:
                    return self.memcpy(a[0], a[1], ln)
            if base == 'memset':
                ln = a[2] if isc(a[2]) else self.ctl.pick(a[2])
                return self.memset(a[0], a[1], ln)
            if base in ('round', 'trunc', 'floor', 'ceil', 'sqrt', 'sin', 'cos', 'exp', 'log', 'log10', 'pow', 'exp2', 'log2'):
                for x in a:
                    self.use(x)
                return self.math(base, a, tn)
            if base == 'fabs':
                return self.absf(self.use(a[0]), tn)
            if base in ('minnum', 'maxnum', 'minimum', 'maximum'):
                lo = base.startswith('min')
                x, y = self.use(a[0]), self.use(a[1])
                if isc(x) and isc(y):
                    return min(x, y) if lo else max(x, y)
                return x if self.ctl.decide(t.lt(x, y) if lo else t.lt(y, x)) else y
            if base in ('smax', 'smin', 'umax', 'umin'):
                x, y = a
                c = t.lt(x, y) if base[1:] == 'min' else t.lt(y, x)
                return x if self.ctl.decide(c) else y
            if base == 'abs':
                return a[0] if self.ctl.decide(t.le(0, a[0])) else t.ineg(a[0])
            if base == 'copysign':
                m = self.absf(self.use(a[0]), tn)
                s = self.use(a[1])
                neg = (math.copysign(1.0, s) < 0) if isc(s) else self.ctl.decide(t.lt(s, 0.0))
                return t.fneg(m, tn) if neg else m
            if base in ('fmuladd', 'fma'):
                return t.fbin('fadd', t.fbin('fmul', a[0], a[1], tn), a[2], tn)
            if base in ('stacksave',):
                return NULL
            if base in ('stackrestore', 'dbg', 'lifetime', 'prefetch'):
                return None
            if base == 'is' and p[2] == 'constant':
                return 0
            if base == 'is' and p[2] == 'fpclass':
                # real semantics: symbolic values are finite
                msk = a[1]
                v = a[0]
                if isc(v):
                    if v != v: return int(bool(msk & 3))
                    if math.isinf(v): return int(bool(msk & (0x200 if v > 0 else 4)))
                    if v == 0: return int(bool(msk & (0x40 if math.copysign(1, v) > 0 else 0x20)))
                    return int(bool(msk & (0x100 if v > 0 else 8)))
                if msk == 0x1f8 or msk == 504: return 1
                if msk == 3 or msk == 516: return 0
                raise Unsupported('fpclass')
            if base == 'trap':
                self.ctl.ub(False, 'trap in %s' % self.loc)
                raise PathEnd('trap')
            if base in ('smul', 'sadd', 'ssub', 'umul', 'uadd', 'usub'):
                raise Unsupported(n)
            raise Unsupported('intrinsic ' + n)
        if n in MATH1:
            nm, tn = MATH1[n]
            self.use(a[0], 'argument of ' + n)
            self.ctl.mathdom(nm, a, self.loc)
            return self.math(nm, a, tn)
        if n in MATH2:
            nm, tn = MATH2[n]
            self.use(a[0]); self.use(a[1])
            self.ctl.mathdom(nm, a, self.loc)
            if nm == 'hypot':
                if isc(a[0]) and isc(a[1]):
                    return t.fmath(nm, tuple(a), tn)
                return t.fmath('sqrt', (t.fbin('fadd', t.fbin('fmul', a[0], a[0], tn), t.fbin('fmul', a[1], a[1], tn), tn),), tn)
            return self.math(nm, a, tn)
        if n in ('fabs', 'fabsf', 'fabsl'):
            return self.absf(self.use(a[0]), {'fabs': 'f64', 'fabsf': 'f32', 'fabsl': 'f80'}[n])
        if n in ('fmax', 'fmin', 'fmaxf', 'fminf'):
            return self.external('llvm.%snum.%s' % (n[1:4], 'f32' if n.endswith('f') and len(n) == 5 else 'f64'), a)
        if n in ('copysign', 'copysignf'):
            return self.external('llvm.copysign.' + ('f32' if n.endswith('f') else 'f64'), a)
        if n in ('modf', 'modff'):
            tn = 'f32' if n == 'modff' else 'f64'
            ip = self.math('trunc', [a[0]], tn)
            self.store(('f', 32 if tn == 'f32' else 64), ip, a[1])
            return t.fbin('fsub', a[0], ip, tn)
        if n in ('sincos', 'sincosf'):
            tn = 'f32' if n.endswith('f') else 'f64'
            ty = ('f', 32 if tn == 'f32' else 64)
            self.store(ty, t.fmath('sin', (a[0],), tn), a[1])
            self.store(ty, t.fmath('cos', (a[0],), tn), a[2])
            return None
        if n in ('lround', 'lroundf', 'llround', 'llroundf'):
            tn = 'f32' if n.endswith('f') else 'f64'
            return self.cast('fptosi', ('f', 32 if tn == 'f32' else 64), self.math('round', [a[0]], tn), ('i', 64))
        if n == 'ldexp' and isc(a[1]):
            return t.fbin('fmul', a[0], 2.0 ** a[1], 'f64')
        if n in ('nextafterf',):
            import numpy as np
            if isc(a[0]) and isc(a[1]):
                return float(np.nextafter(np.float32(a[0]), np.float32(a[1])))
        if n == '__cxa_guard_acquire':
            o, off = self.addr(a[0], 1, 'guard')
            c = o.cells.get(off)
            return 0 if c is not None and c[1] not in (0,) else 1
        if n == '__cxa_guard_release':
            o, off = self.addr(a[0], 1, 'guard')
            self.put(o, off, 1, 1)
            return None
        if n == '__assert_fail':
            msg = bytes(c & 255 for c in self._cs(a[0])).decode('latin1')
            self.ctl.ub(False, 'assert(%s) fails in %s' % (msg, self.loc))
            raise PathEnd('assert')
        if n == 'strlen':
            i = 0
            for c in self.cstr(a[0]):
                if self.ctl.decide(t.eq(c, 0)):
                    return i
                i += 1
            raise Bound('strlen')
        if n in ('strncmp', 'strcmp'):
            lim = 4096
            if n == 'strncmp':
                lim = a[2] if isc(a[2]) else self.ctl.pick(a[2])
            i = 0
            g1, g2 = self.cstr(a[0]), self.cstr(a[1])
            while i < lim:
                c1, c2 = next(g1), next(g2)
                if isc(c1) and isc(c2):
                    if c1 != c2:
                        return -1 if (c1 & 255) < (c2 & 255) else 1
                    if c1 == 0:
                        return 0
                else:
                    if not self.ctl.decide(t.eq(c1, c2)):
                        return -1 if self.ctl.decide(t.lt(t.to_u(c1, 8), t.to_u(c2, 8))) else 1
                    if self.ctl.decide(t.eq(c1, 0)):
                        return 0
                i += 1
            return 0
        if n == 'memcmp':
            for i in range(a[2]):
                c1 = self.load(('i', 8), self.gep(('i', 8), a[0], [(None, i)]))
                c2 = self.load(('i', 8), self.gep(('i', 8), a[1], [(None, i)]))
                if not self.ctl.decide(t.eq(c1, c2)):
                    return -1 if self.ctl.decide(t.lt(t.to_u(c1, 8), t.to_u(c2, 8))) else 1
            return 0
        if n in ('toupper', 'tolower', 'isupper', 'islower', 'isalpha', 'isdigit', 'isspace'):
            c = a[0]
            lo = lambda v, x, y: self.ctl.decide(t.band(t.le(x, v), t.le(v, y)))
            if n == 'toupper': return t.iadd(c, -32) if lo(c, 97, 122) else c
            if n == 'tolower': return t.iadd(c, 32) if lo(c, 65, 90) else c
            if n == 'isupper': return int(lo(c, 65, 90))
            if n == 'islower': return int(lo(c, 97, 122))
            if n == 'isdigit': return int(lo(c, 48, 57))
            if n == 'isalpha': return int(lo(c, 65, 90) or lo(c, 97, 122))
        if n in ('abs', 'labs', 'llabs'):
            m = -(1 << (31 if n == 'abs' else 63))
            c = t.ne(a[0], m)
            if c is not True:
                self.ctl.ub(c, 'abs overflow in %s' % self.loc)
            return a[0] if self.ctl.decide(t.le(0, a[0])) else t.ineg(a[0])
        if n in ('memcpy', 'memmove'):
            self.memcpy(a[0], a[1], a[2] if isc(a[2]) else self.ctl.pick(a[2]))
            return a[0]
        if n == 'memset':
            self.memset(a[0], a[1], a[2] if isc(a[2]) else self.ctl.pick(a[2]))
            return a[0]
        if n in ('nanosleep', 'clock_nanosleep', 'sleep', 'usleep'):
            rem = None
            if n == 'sleep':
                sec, ns = a[0], 0
            elif n == 'usleep':
                sec, ns = 0, t.imul(a[0], 1000)
            else:
                if n == 'clock_nanosleep':
                    a = a[2:]
                sec, ns = [self.load(('i', 64), self.gep(('i', 8), a[0], [(None, 8 * i)])) for i in (0, 1)]
                rem = a[1]
            self.trace.append((sec, ns))
            left = getattr(self.ctl, 'interrupt', None)
            if left is not None and self.ctl.decide(t.le(left, sec)):
                self.ctl.interrupt = None
                if rem is not None and rem.obj is not None:
                    for i, v in ((0, left), (1, 0)):
                        self.store(('i', 64), v, self.gep(('i', 8), rem, [(None, 8 * i)]))
                if n == 'sleep':
                    return left
                e = self.errno_obj()
                e.cells[0] = (4, 4)
                return 4 if n == 'clock_nanosleep' else -1
            return 0
        if n == '__errno_location':
            return Ptr(self.errno_obj(), 0)
        if n in ('_Znwm', '_Znam', 'malloc'):
            sz = a[0] if isc(a[0]) else self.ctl.pick(a[0])
            return Ptr(Obj('heap', sz), 0)
        if n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'):
            if a[0].obj is not None:
                a[0].obj.alive = False
            return None
        if n in ('__cxa_atexit',):
            return 0
        raise Unsupported('external function ' + n)

    def errno_obj(self):
        o = self.globs.get('errno')
        if o is None:
            o = Obj('errno', 4)
            o.cells[0] = (4, 4)
            self.globs['errno'] = o
        return o

    def _cs(self, p):
        r = []
        for c in self.cstr(p):
            if not isc(c) or c == 0:
                break
            r.append(c)
        return r
