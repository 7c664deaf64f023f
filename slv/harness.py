"""Harness layer: one Python harness runs symbolically (over the IR, all paths) and concretely (over the compiled code)."""
import math, time, random, ctypes, subprocess, struct, os, json, sys, traceback
from fractions import Fraction
import z3
from . import term as t
from .term import T, isc
from .exec import Exec, Obj, Ptr, NULL, FnPtr, UNDEF, PathEnd, Bound, Unsupported
from .ir import Module
from .real import NF, TooBig, PI as QPI
from . import smt

LAY = {'d': 8, 'f': 4, 'i': 4, 'b': 1, 'c': 1, 'p': 8, 'l': 8}
LTY = {'d': ('f', 64), 'f': ('f', 32), 'i': ('i', 32), 'b': ('i', 8), 'c': ('i', 8), 'p': ('ptr',), 'l': ('i', 64)}


def offsets(lay):
    off, r = 0, []
    for c in lay:
        s = LAY[c]
        off = (off + s - 1) // s * s
        r.append(off)
        off += s
    al = max([LAY[c] for c in lay] or [1])
    return r, (off + al - 1) // al * al


class Image:
    """everything regenerated from /repo for this run"""

    def __init__(self, b):
        self.mod = Module(b['ll'])
        self.so = b['so']
        self.dir = b['dir']
        names = [n[1:] for n in self.mod.funcs]
        out = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True).stdout.split('\n')
        self.sym = {}
        for n, d in zip(names, out):
            if d.startswith('sla::') and '(' in d and '::' not in d[5:d.index('(')] and '<' not in d[5:d.index('(')]:
                base = d[5:d.index('(')]
                self.sym.setdefault(base, []).append('@' + n)
        self.demangle = {'@' + n: d for n, d in zip(names, out)}
        self._lib = None
        self._syms = None
        self.shared = {}

    def lookup(self, base, nargs=None):
        c = self.sym.get(base)
        if not c:
            raise Unsupported('no definition of sla::%s' % base)
        if len(c) > 1 and nargs is not None:
            c = [x for x in c if len(self.mod.funcs[x].params) == nargs] or c
        return c[0]

    def lib(self):
        if self._lib is None:
            self._lib = ctypes.CDLL(self.so)
        return self._lib

    def local_symbols(self):
        if self._syms is None:
            o = subprocess.run(['nm', self.so], capture_output=True, text=True).stdout
            self._syms = {l.split()[2]: int(l.split()[0], 16) for l in o.splitlines() if len(l.split()) == 3}
        return self._syms

    def fresh_lib(self):
        """a private copy of the library, with its own static state"""
        import shutil, tempfile
        f = tempfile.NamedTemporaryFile(prefix='slv_', suffix='.so', dir=self.dir, delete=False)
        f.close()
        shutil.copy(self.so, f.name)
        l = ctypes.CDLL(f.name)
        os.unlink(f.name)
        return l


class Infeasible(Exception):
    pass


# =====================================================================================================  symbolic
def zeros(x):
    """terms that must vanish when x does (square roots and sums of squares)"""
    if isc(x):
        return []
    if x.op == 'sqrt' or x.op == 'fconv' or x.op == 'fneg':
        return [x.a[0]] + zeros(x.a[0])
    def sq(y):
        if (isc(y) and y == 0) or (isinstance(y, T) and y.op == 'fc' and y.a[0] == 0):
            return []
        if isinstance(y, T) and y.op == 'fmul' and y.a[0] is y.a[1]:
            return [y.a[0]]
        if isinstance(y, T) and y.op == 'fadd':
            u, v = sq(y.a[0]), sq(y.a[1])
            return u + v if u is not None and v is not None else None
        return None
    return sq(x) or []


def derived(c):
    z = None
    if c.op == 'feq':
        a, b = c.a
        if isc(a): a, b = b, a
        if (isc(b) and b == 0) or (isinstance(b, T) and b.op == 'fc' and b.a[0] == 0):
            z = a
    elif c.op == 'fle' and (isc(c.a[1]) and c.a[1] == 0):
        if isinstance(c.a[0], T) and (c.a[0].op == 'sqrt' or zeros(c.a[0])):
            z = c.a[0]
    elif c.op == 'not' and c.a[0].op == 'flt' and isc(c.a[0].a[0]) and c.a[0].a[0] == 0:
        y = c.a[0].a[1]
        if isinstance(y, T) and (y.op == 'sqrt' or zeros(y)):
            z = y
    if z is None:
        return []
    return [t.eq(y, 0.0) for y in zeros(z) if isinstance(y, T)]


class Ctl:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.dec = []
        self.pc = []
        self.known = {}
        self.obl = []
        self.forced = 0

    def learn(self, cond):
        if isc(cond):
            if not cond:
                raise Infeasible()
            return
        if cond.op == 'and':
            for c in cond.a:
                self.learn(c)
            return
        if cond.id in self.known:
            if not self.known[cond.id]:
                raise Infeasible()
            return
        self.known[cond.id] = True
        n = t.bnot(cond)
        if isinstance(n, T):
            self.known[n.id] = False
        self.pc.append(cond)
        for c in derived(cond):
            self.learn(c)

    def decide(self, cond):
        if isc(cond):
            return bool(cond)
        k = self.known.get(cond.id)
        if k is not None:
            return k
        i = len(self.dec)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            nc = t.bnot(cond)
            fT = self.ex.feasible(self.pc + [cond])
            fF = self.ex.feasible(self.pc + [nc])
            if not fT and not fF:
                raise Infeasible()
            if fT and fF:
                self.ex.pending.append(self.dec + [False])
                v = True
            else:
                v = fT
                self.forced += 1
        self.dec.append(v)
        self.learn(cond if v else t.bnot(cond))
        return v

    def pick(self, x):
        """concretise an integer term by forking over its feasible values"""
        if isc(x):
            return x
        n = 0
        while True:
            if len(self.dec) < len(self.prefix):
                # replay: the value chosen is stored in the decision list as ('v', value)
                d = self.prefix[len(self.dec)]
                self.dec.append(d)
                v, take = d
                self.learn(t.eq(x, v) if take else t.ne(x, v))
                if take:
                    return v
                continue
            v = self.ex.int_value(self.pc, x)
            if v is None:
                raise Infeasible()
            n += 1
            if n > 400:
                raise Bound('too many values for an index')
            if self.ex.feasible(self.pc + [t.ne(x, v)]):
                self.ex.pending.append(self.dec + [(v, False)])
            self.dec.append((v, True))
            self.learn(t.eq(x, v))
            return v

    def ub(self, cond, desc):
        if cond is True:
            return
        self.obl.append(dict(kind='ub', pc=tuple(self.pc), goal=cond, name=desc))
        if cond is False:
            return
        try:
            self.learn(cond)
        except Infeasible:
            raise PathEnd('ub')

    def fdiv(self, a, b, loc):
        if self.ex.nan_check and not isc(b):
            self.obl.append(dict(kind='nan', pc=tuple(self.pc), goal=t.ne(b, 0.0), name='division by zero in ' + loc))
        elif isc(b) and b == 0 and self.ex.nan_check:
            self.obl.append(dict(kind='nan', pc=tuple(self.pc), goal=False, name='division by zero in ' + loc))

    def mathdom(self, nm, a, loc):
        if not self.ex.nan_check:
            return
        if nm == 'sqrt' and not isc(a[0]):
            self.obl.append(dict(kind='nan', pc=tuple(self.pc), goal=t.le(0.0, a[0]), name='sqrt domain in ' + loc))
        elif nm in ('asin', 'acos') and not isc(a[0]):
            self.obl.append(dict(kind='nan', pc=tuple(self.pc), goal=t.band(t.le(-1.0, a[0]), t.le(a[0], 1.0)), name=nm + ' domain in ' + loc))
        elif nm in ('log', 'log10') and not isc(a[0]):
            self.obl.append(dict(kind='nan', pc=tuple(self.pc), goal=t.lt(0.0, a[0]), name=nm + ' domain in ' + loc))


class SBuf:
    def __init__(self, E, lay, init, name):
        self.lay = lay
        self.offs, sz = offsets(lay)
        self.obj = Obj(name, sz)
        self.E = E
        for i, c in enumerate(lay):
            v = UNDEF
            if init is not None:
                v = init[i]
            self.set(i, v)

    def set(self, i, v):
        c = self.lay[i]
        if v is not UNDEF and isc(v) and not isinstance(v, (Ptr, SBuf)):
            if c == 'd': v = float(v)
            elif c == 'f': v = t.f32(float(v))
            elif c in 'ibcl': v = int(v)
        if isinstance(v, SBuf):
            v = Ptr(v.obj, 0)
        if isinstance(v, T) and v.ty == 'b':
            v = t.mk('b2i', (v,), 'int', 0, 1)
        self.obj.cells[self.offs[i]] = (LAY[c], v)

    def get(self, i):
        c = self.obj.cells.get(self.offs[i])
        if c is None or c[0] != LAY[self.lay[i]]:
            return self.E.x.load(LTY[self.lay[i]], Ptr(self.obj, self.offs[i]))
        v = c[1]
        if v is UNDEF:
            raise UndefOut('%s[%d]' % (self.obj.name, i))
        if self.lay[i] == 'b':
            if isc(v):
                return bool(v & 1)
            if v.op == 'b2i':
                return v.a[0]
            return t.eq(v, 1)
        return v

    def defined(self, i):
        c = self.obj.cells.get(self.offs[i])
        return c is not None and c[1] is not UNDEF

    def all(self):
        return [self.get(i) for i in range(len(self.lay))]

    def __getitem__(self, i):
        return self.get(i)


class UndefOut(Exception):
    pass


class Explorer:
    """explores one harness symbolically"""

    def __init__(self, img, fn, expand=True, unify=1e-13, max_paths=4000, prune_ms=400, nan_check=False, prune=True,
                 max_steps=6000000, wall=600, maxterms=60000):
        self.img = img
        self.fn = fn
        self.nf = NF(expand=expand, unify=unify, maxterms=maxterms)
        self.opts = dict(expand=expand, unify=unify, maxterms=maxterms)
        self.cuts = []
        self.opaque = {}
        self.pending = [[]]
        self.max_paths = max_paths
        self.prune_ms = prune_ms
        self.prune = prune
        self.nan_check = nan_check
        self.max_steps = max_steps
        self.inputs = {}
        self.paths = 0
        self.infeasible = 0
        self.obligations = []
        self.calls = {}
        self.notes = []
        self.fcache = {}
        self.shared = img.shared
        self.steps = 0
        self.complete = True
        self.t0 = time.time()
        self.wall = wall

    def feasible(self, pc):
        if not self.prune:
            return True
        key = frozenset(x.id for x in pc if isinstance(x, T))
        r = self.fcache.get(key)
        if r is not None:
            return r
        r = True
        try:
            Zc = smt.Z(self.nf)
            cs = Zc.zpc(pc)
            res, _ = smt.check(cs + Zc.side, self.prune_ms, want_model=False)
            r = res != 'unsat'
        except (ValueError, ZeroDivisionError, TooBig):
            r = True
        self.fcache[key] = r
        return r

    def int_value(self, pc, x):
        Zc = smt.Z(self.nf)
        cs = Zc.zpc(pc)
        v = Zc.zint(x)
        res, m = smt.check(cs + Zc.side, 20000)
        if res == 'unsat':
            return None
        if res != 'sat':
            raise Bound('index value undecided')
        return m.eval(v, model_completion=True).as_long()

    def run(self):
        while self.pending:
            if self.paths >= self.max_paths:
                self.complete = False
                self.notes.append('path bound %d reached with %d prefixes pending' % (self.max_paths, len(self.pending)))
                break
            if time.time() - self.t0 > self.wall:
                self.complete = False
                self.notes.append('exploration wall limit reached')
                break
            prefix = self.pending.pop()
            ctl = Ctl(self, prefix)
            E = SymE(self, ctl)
            try:
                self.fn(E)
                self.paths += 1
            except Infeasible:
                self.infeasible += 1
            except PathEnd as e:
                self.paths += 1
            except UndefOut as e:
                ctl.obl.append(dict(kind='claim', pc=tuple(ctl.pc), goal=False, name='output %s not written' % e))
                self.paths += 1
            self.obligations.extend(ctl.obl)
            self.steps += E.x.steps
            for k, v in E.x.calls.items():
                self.calls[k] = self.calls.get(k, 0) + v
        return self


class SymE:
    sym = True

    def __init__(self, ex, ctl):
        self.ex = ex
        self.ctl = ctl
        self.x = Exec(ex.img.mod, ctl, ex.shared, ex.max_steps)
        self.PI = QPI
        self.n = 0

    # inputs
    def real(self, name, lo, hi, f32=False):
        v = t.var(name, 'f32' if f32 else 'f64', Fraction(lo), Fraction(hi))
        self.ex.inputs[name] = v
        return v

    def int(self, name, lo, hi):
        v = t.var(name, 'int', lo, hi)
        self.ex.inputs[name] = v
        return v

    def bool(self, name):
        v = t.var(name, 'b')
        self.ex.inputs[name] = v
        return v

    def buf(self, lay, init=None, name=None):
        self.n += 1
        return SBuf(self, lay, init, name or 'buf%d' % self.n)

    def cstring(self, s):
        b = [c - 256 if c > 127 else c for c in s.encode('latin1')] + [0]
        return self.buf('c' * len(b), b, 'str')

    def assume(self, c):
        self.ctl.learn(c)

    def true(self, c):
        return self.ctl.decide(c)

    def pick(self, x):
        return self.ctl.pick(x)

    def opaque(self, name, ret=None, outs=None, f32=False):
        """treat a function as an arbitrary one of its scalar arguments (equal arguments give equal results): ret and outs
        (parameter index -> list of bounds of the doubles written) give the ranges of its results"""
        outs = outs or {}
        for f in self.ex.img.sym.get(name, []):
            def stub(x, args, f=f):
                k = [name]
                for i, a in enumerate(args):
                    if i in outs:
                        continue
                    if isc(a):
                        k.append('%.12g' % a)
                    elif isinstance(a, T):
                        k.append(self.ex.nf.key(self.ex.nf.nf(a)))
                    else:
                        raise Unsupported('opaque argument')
                n = self.ex.opaque.setdefault(tuple(k), len(self.ex.opaque))
                fn = self.ex.img.mod.funcs[f]
                for i, bs in outs.items():
                    for j, (lo, hi) in enumerate(bs):
                        w = 32 if f32 else 64
                        x.store(('f', w), t.var('%s#%d.%d.%d' % (name, n, i, j), 'f%d' % w, Fraction(lo), Fraction(hi)), Ptr(args[i].obj, t.iadd(args[i].off, w // 8 * j)))
                if ret is not None:
                    return t.var('%s#%d' % (name, n), 'f64', Fraction(ret[0]), Fraction(ret[1]))
                return None
            self.x.stubs[f] = stub

    def fresh(self):
        """a new process: all static state as initialised"""
        self.x.globs = {}

    def interrupt(self, left):
        """the first sleep will be interrupted with so many seconds left (None: not at all)"""
        self.ctl.interrupt = left
        self.x.trace = []

    def sleeps(self):
        """the sleeps requested so far: (seconds, nanoseconds)"""
        return list(self.x.trace)

    def havoc(self, fn, var, lay, vals):
        """put arbitrary values into a static variable of a function; False if there is none such"""
        g = [k for k in self.ex.img.mod.globals if '3sla%d%sE' % (len(fn), fn) in k and k.endswith('E%d%s' % (len(var), var)) and not k.startswith(('_ZGV', '@_ZGV'))]
        if len(g) != 1:
            return False
        o = self.x.glob(g[0])
        if o.size != sum({'l': 8, 'f': 4, 'c': 1, 'i': 4, 'd': 8}[c] for c in lay):
            return False
        off = 0
        for c, v in zip(lay, vals):
            ty = {'l': ('i', 64), 'i': ('i', 32), 'c': ('i', 8), 'f': ('f', 32), 'd': ('f', 64)}[c]
            self.x.store(ty, v, Ptr(o, off))
            off += {'l': 8, 'f': 4, 'c': 1, 'i': 4, 'd': 8}[c]
        return True

    def turns(self, name):
        """use the contract of a range reduction (decided separately): the argument less the nearest whole number of turns"""
        tp = 6.283185307179586
        for f in self.ex.img.sym.get(name, []):
            def stub(x, args):
                a = args[0]
                return a - self.round(a / self.const(tp)) * self.const(tp) if isinstance(a, T) else math.remainder(a, tp)
            self.x.stubs[f] = stub

    def call(self, name, *args):
        f = self.ex.img.lookup(name, len(args))
        fn = self.ex.img.mod.funcs[f]
        conv = []
        for (ty, nm), a in zip(fn.params, args):
            conv.append(self.arg(ty, a))
        if len(fn.params) != len(args):
            raise Unsupported('signature of %s changed' % name)
        r = self.x.call(f, conv)
        if fn.ret == ('i', 1):
            return bool(r) if isc(r) else r
        return r

    def arg(self, ty, a):
        if ty[0] == 'ptr':
            if a is None:
                return NULL
            if isinstance(a, tuple):      # (buf, index)
                return Ptr(a[0].obj, a[0].offs[a[1]])
            return Ptr(a.obj, 0)
        if ty[0] == 'vec':
            return [a.get(i) for i in range(ty[1])]
        if ty[0] == 'f':
            if isc(a):
                v = float(a)
                return t.f32(v) if ty[1] == 32 else v
            return a
        if ty[0] == 'i':
            if ty[1] == 1:
                return int(a) if isc(a) else a
            return int(a) if isc(a) else a
        raise Unsupported('arg type %r' % (ty,))

    def cstr(self, p):
        """Python string behind a returned char pointer (concrete)"""
        return bytes(c & 255 for c in self.x._cs(p)).decode('latin1')

    def isnull(self, p):
        return p.obj is None

    # maths for specifications
    def sin(self, x): return t.fmath('sin', (t._r(x),), 'real')
    def cos(self, x): return t.fmath('cos', (t._r(x),), 'real')
    def tan(self, x): return t.fmath('tan', (t._r(x),), 'real')
    def sqrt(self, x): return t.fmath('sqrt', (t._r(x),), 'real')
    def exp(self, x): return t.fmath('exp', (t._r(x),), 'real')
    def log(self, x): return t.fmath('log', (t._r(x),), 'real')
    def pow(self, x, y): return t.fmath('pow', (t._r(x), t._r(y)), 'real')
    def atan2(self, y, x): return t.fmath('atan2', (t._r(y), t._r(x)), 'real')
    def asin(self, x): return t.fmath('asin', (t._r(x),), 'real')
    def trunc(self, x): return self.x.math('trunc', [t._r(x)], 'real')
    def fmod(self, x, m): return self.x.math('fmod', [t._r(x), m], 'real')
    def floor(self, x): return self.x.math('floor', [t._r(x)], 'real')
    def round(self, x): return self.x.math('round', [t._r(x)], 'real')
    def abs(self, x):
        if isc(x): return abs(x)
        return x if self.true(t.le(0, x)) else -x
    def toreal(self, x): return t._r(x)
    def const(self, x): return t.frac(x)

    # logic
    lt = staticmethod(t.lt); le = staticmethod(t.le); eq = staticmethod(t.eq); ne = staticmethod(t.ne)
    def ge(self, a, b): return t.le(b, a)
    def gt(self, a, b): return t.lt(b, a)
    and_ = staticmethod(t.band); or_ = staticmethod(t.bor); not_ = staticmethod(t.bnot)
    implies = staticmethod(t.implies); beq = staticmethod(t.beq)

    def cut(self, x):
        """from here on the exact value of x is one bounded unknown (also where the code computes it)"""
        if isinstance(x, T):
            try:
                self.ex.nf.cut(x)
                if x.id not in [c.id for c in self.ex.cuts]:
                    self.ex.cuts.append(x)
            except (ValueError, ZeroDivisionError, TooBig):
                pass
        return x

    # goals
    def claim(self, name, cond, learn=False):
        if cond is True:
            self.ctl.obl.append(dict(kind='triv', pc=tuple(self.ctl.pc), goal=True, name=name))
            return
        self.ctl.obl.append(dict(kind='claim', pc=tuple(self.ctl.pc), goal=cond, name=name))

    def leq(self, name, a, b, slack=0.0):
        """a <= b + slack (slack absorbs rounding; used symbolically too)"""
        if self._nonfinite(name, a, b):
            return
        self.claim(name, t.le(a, t.sadd(t._r(b), t.frac(slack))))

    def _nonfinite(self, name, *vals):
        """a concrete NaN or infinity produced by the code fails the claim on this path"""
        if any(isinstance(v, float) and not math.isfinite(v) for v in vals):
            self.claim(name + ' (finite)', False)
            return True

    def close(self, name, a, b, tol, ctol=None):
        if self._nonfinite(name, a, b):
            return
        self.ctl.obl.append(dict(kind='close', pc=tuple(self.ctl.pc), a=t._r(a), b=t._r(b), tol=Fraction(tol), name=name))

    def angle(self, name, a, b, tol, ctol=None):
        """equal modulo 2 pi"""
        if self._nonfinite(name, a, b):
            return
        self.ctl.obl.append(dict(kind='angle', pc=tuple(self.ctl.pc), a=t._r(a), b=t._r(b), tol=Fraction(tol), name=name))

    def unit(self, name, s, c, a, tol, ctol=None, w=None):
        """angle a has sine s and cosine c (optionally both multiplied by w)"""
        sa, ca = self.sin(a), self.cos(a)
        if w is not None:
            sa, ca = sa * w, ca * w
        self.close(name + '.sin', sa, s, tol)
        self.close(name + '.cos', ca, c, tol)

    def same(self, name, a, b):
        """identical values (bit-exact when the terms coincide)"""
        if a is b or (isc(a) and isc(b) and type(a) == type(b) and (a == b or (a != a and b != b))):
            self.ctl.obl.append(dict(kind='triv', pc=tuple(self.ctl.pc), goal=True, name=name))
            return
        if isinstance(a, (Ptr,)) or isinstance(b, Ptr):
            okp = isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.off == b.off
            self.claim(name, okp)
            return
        ka = t._kind(a, b)
        if (isinstance(a, T) and a.ty == 'b') or isinstance(a, bool):
            self.claim(name, t.beq(a, b))
        elif ka == 'i':
            self.claim(name, t.eq(a, b))
        else:
            self.ctl.obl.append(dict(kind='close', pc=tuple(self.ctl.pc), a=t._r(a), b=t._r(b), tol=Fraction(0), name=name))

    def deriv(self, fn, x, tol=None, order=1):
        """(values, derivatives) of the outputs of fn at input x"""
        vals = fn(x)
        ders = [diff(self, v, x) for v in vals]
        if order == 2:
            return vals, ders, [diff(self, d, x) for d in ders]
        return vals, ders


def diff(E, e, x):
    memo = {}

    def d(y):
        if isc(y):
            return Fraction(0)
        return memo[y.id]
    stack = [e] if isinstance(e, T) else []
    if not stack:
        return Fraction(0)
    while stack:
        y = stack[-1]
        if y.id in memo:
            stack.pop()
            continue
        kids = [z for z in y.a if isinstance(z, T) and z.id not in memo] if y.op not in ('var', 'fc') else []
        if kids:
            stack.extend(kids)
            continue
        stack.pop()
        op, a = y.op, y.a
        R = t._r
        if y is x:
            r = Fraction(1)
        elif op in ('var', 'fc', 'f2i', 'trunc', 'round', 'floor', 'ceil', 'ifdiv', 'isdiv', 'rfloor', 'ifdivx', 'b2i'):
            r = Fraction(0)
        elif op == 'ilin':
            r = Fraction(0)
            for i in range(1, len(a), 2):
                r = t.sadd(r, t.smul(Fraction(a[i]), R(d(a[i + 1]))))
        elif op == 'fadd':
            r = t.sadd(R(d(a[0])), R(d(a[1])))
        elif op == 'fsub':
            r = t.ssub(R(d(a[0])), R(d(a[1])))
        elif op in ('fmul', 'imul'):
            r = R(d(a[0])) * R(a[1]) + R(a[0]) * R(d(a[1])) if True else None
        elif op == 'fdiv':
            da, db = R(d(a[0])), R(d(a[1]))
            if isc(db) and db == 0:
                r = da / R(a[1])
            else:
                r = (da * R(a[1]) - R(a[0]) * db) / (R(a[1]) * R(a[1]))
        elif op == 'fneg':
            r = t.ssub(Fraction(0), R(d(a[0])))
        elif op in ('fconv', 'i2f', 'fmod', 'remainder'):
            r = d(a[0])
        elif op == 'sin':
            r = E.cos(a[0]) * R(d(a[0]))
        elif op == 'cos':
            r = t.ssub(Fraction(0), E.sin(a[0]) * R(d(a[0])))
        elif op == 'tan':
            c = E.cos(a[0])
            r = R(d(a[0])) / (c * c)
        elif op == 'sqrt':
            da = R(d(a[0]))
            r = Fraction(0) if isc(da) and da == 0 else da / (2 * R(y))
        elif op == 'atan2':
            r = (R(a[1]) * R(d(a[0])) - R(a[0]) * R(d(a[1]))) / (R(a[0]) * R(a[0]) + R(a[1]) * R(a[1]))
        elif op == 'asin':
            da = R(d(a[0]))
            r = da / E.sqrt(1 - R(a[0]) * R(a[0]))
        elif op == 'exp':
            r = R(y) * R(d(a[0]))
        elif op == 'log':
            r = R(d(a[0])) / R(a[0])
        elif op == 'pow' and isc(a[1] if isc(a[1]) else (a[1].a[0] if a[1].op == 'fc' else a[1])):
            n = a[1] if isc(a[1]) else a[1].a[0]
            r = t.frac(n) * E.pow(a[0], t.frac(n) - 1) * R(d(a[0]))
        else:
            raise Unsupported('derivative of ' + op)
        memo[y.id] = r
    return memo[e.id]


# =====================================================================================================  concrete
class ConcreteStop(Exception):
    pass


class CBuf:
    def __init__(self, E, lay, init, name):
        self.lay = lay
        self.offs, self.size = offsets(lay)
        self.E = E
        # guard bytes on both sides
        self.G = 64
        self.raw = (ctypes.c_ubyte * (self.size + 2 * self.G + 32))()
        base = ctypes.addressof(self.raw) + self.G
        self.addr = (base + 15) // 16 * 16
        self.skew = self.addr - ctypes.addressof(self.raw)
        for i in range(len(self.raw)):
            self.raw[i] = 0xA5
        self.name = name
        for i, c in enumerate(lay):
            if init is not None and init[i] is not UNDEF:
                self.set(i, init[i])
            else:
                for j in range(LAY[c]):
                    self.raw[self.skew + self.offs[i] + j] = 0xA5
        E.bufs.append(self)

    FM = {'d': '<d', 'f': '<f', 'i': '<i', 'b': '<B', 'c': '<b', 'p': '<Q', 'l': '<q'}

    def set(self, i, v):
        c = self.lay[i]
        if c == 'p':
            if isinstance(v, CBuf):
                v = v.addr
            v = v or 0
        elif c == 'd': v = float(v)
        elif c == 'f': v = float(v)
        else: v = int(v)
        b = struct.pack(self.FM[c], v)
        for j, x in enumerate(b):
            self.raw[self.skew + self.offs[i] + j] = x

    def get(self, i):
        c = self.lay[i]
        b = bytes(self.raw[self.skew + self.offs[i]: self.skew + self.offs[i] + LAY[c]])
        v = struct.unpack(self.FM[c], b)[0]
        return bool(v) if c == 'b' else v

    def all(self):
        return [self.get(i) for i in range(len(self.lay))]

    def __getitem__(self, i):
        return self.get(i)

    def guards_ok(self):
        r = self.raw
        return all(r[i] == 0xA5 for i in range(self.skew)) and all(r[i] == 0xA5 for i in range(self.skew + self.size, len(r)))


class ConcE:
    sym = False

    def __init__(self, img, vals, rnd=None, lib=None):
        self.img = img
        self.vals = dict(vals)
        self.rnd = rnd
        self.fail = []
        self.nclaims = 0
        self.bufs = []
        self.PI = math.pi
        self.used = {}
        self.lib = lib or img.lib()
        self.keep = []
        self.boxes = {}

    def real(self, name, lo, hi, f32=False):
        lo, hi = float(lo), float(hi)
        self.boxes[name] = ('f32' if f32 else 'f64', lo, hi)
        if name not in self.vals:
            r = self.rnd or random
            k = r.random()
            if k < 0.72:
                v = r.uniform(lo, hi)
            elif k < 0.8:
                v = r.choice([lo, hi])
            elif k < 0.88:
                v = r.choice([0.0, math.pi / 2, -math.pi / 2, math.pi, 1.0, -1.0, 0.5])
            else:
                v = math.copysign(10 ** r.uniform(-9, 0), r.random() - 0.5) * max(abs(lo), abs(hi))
            v = min(max(v, lo), hi)
            self.vals[name] = v
        v = float(self.vals[name])
        if not math.isfinite(v):
            raise ConcreteStop('non-finite input')
        v = min(max(v, lo), hi)
        if f32:
            v = t.f32(v)
        self.used[name] = v
        return v

    def int(self, name, lo, hi):
        self.boxes[name] = ('int', lo, hi)
        if name not in self.vals:
            r = self.rnd or random
            if r.random() < 0.15:
                self.vals[name] = r.choice([lo, hi, min(max(0, lo), hi)])
            else:
                self.vals[name] = r.randint(lo, hi)
        v = min(max(int(self.vals[name]), lo), hi)
        self.used[name] = v
        return v

    def bool(self, name):
        self.boxes[name] = ('b', 0, 1)
        if name not in self.vals:
            self.vals[name] = (self.rnd or random).random() < 0.5
        self.used[name] = bool(self.vals[name])
        return self.used[name]

    def buf(self, lay, init=None, name=None):
        return CBuf(self, lay, init, name or 'buf')

    def cstring(self, s):
        b = [c - 256 if c > 127 else c for c in s.encode('latin1')] + [0]
        return self.buf('c' * len(b), b, 'str')

    def assume(self, c):
        if not c:
            raise ConcreteStop('assumption')

    def true(self, c):
        return bool(c)

    def pick(self, x):
        return x

    def call(self, name, *args):
        f = self.img.lookup(name, len(args))
        fn = self.img.mod.funcs[f]
        if len(fn.params) != len(args):
            raise Unsupported('signature of %s changed' % name)
        cf = getattr(self.lib, f[1:])
        at, av = [], []
        for (ty, nm), a in zip(fn.params, args):
            if ty[0] == 'ptr':
                at.append(ctypes.c_void_p)
                if a is None: av.append(None)
                elif isinstance(a, tuple): av.append(a[0].addr + a[0].offs[a[1]])
                elif isinstance(a, CBuf): av.append(a.addr)
                else: av.append(a)
            elif ty[0] == 'vec':
                at.append(ctypes.c_double)
                av.append(struct.unpack('<d', struct.pack('<ff', a.get(0), a.get(1)))[0])
            elif ty == ('f', 64):
                at.append(ctypes.c_double); av.append(float(a))
            elif ty == ('f', 32):
                at.append(ctypes.c_float); av.append(float(a))
            elif ty == ('i', 1):
                at.append(ctypes.c_bool); av.append(bool(a))
            elif ty == ('i', 8):
                at.append(ctypes.c_byte); av.append(int(a))
            elif ty == ('i', 32):
                at.append(ctypes.c_int); av.append(int(a))
            elif ty == ('i', 64):
                at.append(ctypes.c_long); av.append(int(a))
            else:
                raise Unsupported(str(ty))
        cf.argtypes = at
        rt = fn.ret
        cf.restype = {('void',): None, ('f', 64): ctypes.c_double, ('f', 32): ctypes.c_float, ('i', 1): ctypes.c_bool,
                      ('i', 32): ctypes.c_int, ('i', 8): ctypes.c_byte, ('i', 64): ctypes.c_long, ('ptr',): ctypes.c_void_p}[rt]
        r = cf(*av)
        for b in self.bufs:
            if not b.guards_ok():
                self.fail.append('memory outside argument %s of %s was written' % (b.name, name))
                raise ConcreteStop('oob write')
        return r

    def cstr(self, p):
        return ctypes.string_at(p).decode('latin1')

    def isnull(self, p):
        return p in (None, 0)

    def sin(self, x): return math.sin(x)
    def cos(self, x): return math.cos(x)
    def tan(self, x): return math.tan(x)
    def sqrt(self, x): return math.sqrt(x) if x >= 0 else math.nan
    def exp(self, x): return math.exp(x)
    def log(self, x): return math.log(x) if x > 0 else math.nan
    def pow(self, x, y): return x ** y
    def atan2(self, y, x): return math.atan2(y, x)
    def asin(self, x): return math.asin(x) if -1 <= x <= 1 else math.nan
    def trunc(self, x): return float(math.trunc(x))
    def fmod(self, x, m): return math.fmod(x, m)
    def floor(self, x): return float(math.floor(x))
    def round(self, x): return math.copysign(math.floor(abs(x) + 0.5), x)
    def abs(self, x): return abs(x)
    def toreal(self, x): return float(x)
    def const(self, x): return float(x)
    def cut(self, x): return x
    def opaque(self, name, ret=None, outs=None, f32=False): pass
    def turns(self, name): pass

    def fresh(self):
        self.lib = self.img.fresh_lib()

    def interrupt(self, left):
        ctypes.c_int.in_dll(self.lib, 'slv_sleeps').value = 0
        ctypes.c_long.in_dll(self.lib, 'slv_remaining').value = -1 if left is None else int(left)

    def sleeps(self):
        n = min(16, ctypes.c_int.in_dll(self.lib, 'slv_sleeps').value)
        s, f = (ctypes.c_long * 16).in_dll(self.lib, 'slv_sleep_sec'), (ctypes.c_long * 16).in_dll(self.lib, 'slv_sleep_nsec')
        return [(s[i], f[i]) for i in range(n)]

    def havoc(self, fn, var, lay, vals):
        syms = self.img.local_symbols()
        g = [k for k in syms if '3sla%d%sE' % (len(fn), fn) in k and k.endswith('E%d%s' % (len(var), var)) and not k.startswith('_ZGV')]
        f = self.img.lookup(fn)[1:]
        if len(g) != 1 or f not in syms:
            return False
        base = ctypes.cast(getattr(self.lib, f), ctypes.c_void_p).value - syms[f]
        raw = struct.pack('<' + lay.replace('l', 'q').replace('c', 'b'), *vals)
        ctypes.memmove(base + syms[g[0]], raw, len(raw))
        return True

    def lt(self, a, b): return a < b
    def le(self, a, b): return a <= b
    def eq(self, a, b): return a == b
    def ne(self, a, b): return a != b
    def ge(self, a, b): return a >= b
    def gt(self, a, b): return a > b
    def and_(self, *a): return all(a)
    def or_(self, *a): return any(a)
    def not_(self, a): return not a
    def implies(self, a, b): return (not a) or bool(b)
    def beq(self, a, b): return bool(a) == bool(b)

    def claim(self, name, cond, learn=False):
        self.nclaims += 1
        if not cond:
            self.fail.append('claim fails: ' + name)

    def leq(self, name, a, b, slack=0.0):
        self.nclaims += 1
        if not (a <= b + slack * 1.5 + 1e-15 * abs(b)):
            self.fail.append('claim fails: %s: %r <= %r' % (name, a, b))

    def close(self, name, a, b, tol, ctol=None):
        self.nclaims += 1
        c = ctol if ctol is not None else 4 * float(tol) + 1e-14
        if not (abs(a - b) <= c + 4e-15 * abs(b)):
            self.fail.append('%s: real code gives %r, specification %r (|difference| %.3g > %.3g)' % (name, a, b, abs(a - b), c))

    def angle(self, name, a, b, tol, ctol=None):
        self.nclaims += 1
        c = ctol if ctol is not None else 4 * float(tol) + 1e-14
        if not (math.isfinite(a - b) and abs(math.remainder(a - b, 2 * math.pi)) <= c):
            self.fail.append('%s: angle %r, specification %r' % (name, a, b))

    def unit(self, name, s, c, a, tol, ctol=None, w=None):
        sa, ca = math.sin(a), math.cos(a)
        if w is not None:
            sa, ca = sa * w, ca * w
        self.close(name + '.sin', sa, s, tol, ctol)
        self.close(name + '.cos', ca, c, tol, ctol)

    def same(self, name, a, b):
        self.nclaims += 1
        if not (a == b or (isinstance(a, float) and a != a and b != b)):
            self.fail.append('%s: %r differs from %r' % (name, a, b))

    def deriv(self, fn, x, tol=None, order=1):
        vals = fn(x)
        def cd(h):
            p1, m1, p2, m2 = fn(x + h), fn(x - h), fn(x + 2 * h), fn(x - 2 * h)
            return [(8 * (a - b) - (c - d)) / (12 * h) for a, b, c, d in zip(p1, m1, p2, m2)], \
                   [(-c + 16 * a - 30 * v + 16 * b - d) / (12 * h * h) for a, b, c, d, v in zip(p1, m1, p2, m2, vals)]
        h = tol or 1e-4
        d1, d2 = cd(h)
        if order == 2:
            return vals, d1, d2
        return vals, d1


def concrete(img, fn, vals, rnd=None, fresh=False):
    """run the harness on the real compiled code; returns (failures, inputs used, nclaims)"""
    E = ConcE(img, vals, rnd, lib=img.fresh_lib() if fresh else None)
    try:
        fn(E)
    except ConcreteStop:
        if not E.fail:
            return None, E.used, 0
    except (OverflowError, ZeroDivisionError, ValueError):
        return None, E.used, 0
    return E.fail, E.used, E.nclaims
