"""Hash-consed terms.  Concrete values are plain Python ints / floats / bools / Fractions; symbolic ones are T."""
import struct, math, ctypes, ctypes.util
from fractions import Fraction

_libm = ctypes.CDLL("libm.so.6")
_MF = {}


def libm(name, *args):
    f = _MF.get((name, len(args)))
    if f is None:
        f = getattr(_libm, name)
        ct = ctypes.c_float if name.endswith('f') and name not in ('erf',) else ctypes.c_double
        f.restype = ct
        f.argtypes = [ct] * len(args)
        _MF[(name, len(args))] = f
    return f(*args)


def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


class T:
    __slots__ = ('op', 'a', 'ty', 'id', 'lo', 'hi', 'nf')
    # arithmetic for specifications
    def __add__(s, o): return sadd(s, o)
    def __radd__(s, o): return sadd(o, s)
    def __sub__(s, o): return ssub(s, o)
    def __rsub__(s, o): return ssub(o, s)
    def __mul__(s, o): return smul(s, o)
    def __rmul__(s, o): return smul(o, s)
    def __truediv__(s, o): return sdiv_(s, o)
    def __rtruediv__(s, o): return sdiv_(o, s)
    def __floordiv__(s, o): return ifloordiv(s, o)
    def __mod__(s, o): return imod(s, o)
    def __neg__(s): return ssub(0, s)
    def __lt__(s, o): return lt(s, o)
    def __le__(s, o): return le(s, o)
    def __gt__(s, o): return lt(o, s)
    def __ge__(s, o): return le(o, s)
    def __hash__(s): return s.id
    def __eq__(s, o): return s is o
    def __bool__(s): raise TypeError("symbolic truth value used in Python control flow: use E.true(...)")
    def __repr__(s): return show(s, 4)


_tab = {}
_all = []


def mk(op, a, ty, lo=None, hi=None):
    key = (op, ty) + tuple([('T', x.id) if isinstance(x, T) else (type(x).__name__, x) for x in a])
    if op == 'fc':   # distinguish -0.0
        key = (op, ty, struct.pack('<d', a[0]))
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.a, t.ty, t.id, t.lo, t.hi, t.nf = op, a, ty, len(_all), lo, hi, None
    _tab[key] = t
    _all.append(t)
    return t


def show(t, d=6):
    if not isinstance(t, T):
        return repr(t)
    if t.op == 'var':
        return t.a[0]
    if d == 0:
        return '..'
    return '(%s %s)' % (t.op, ' '.join(show(x, d - 1) for x in t.a))


def var(name, ty, lo=None, hi=None):
    t = mk('var', (name,), ty)
    t.lo, t.hi = lo, hi
    return t


def isc(x):
    return not isinstance(x, T)


def isint(x):
    return isinstance(x, int) and not isinstance(x, bool) if isc(x) else x.ty == 'int' or x.ty[0] == 'i'


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        return Fraction(x)
    return Fraction(int(x))


# ------------------------------------------------------------------ ints (mathematical)
# canonical form: const + sum coef*atom, atoms = variables, ifdiv (floor division by a positive constant), isdiv, rfloor, f2i, b2i, imul (products)
def irange(x):
    return (x, x) if isc(x) else (x.lo, x.hi)


def lin(x):
    """-> (const, {atom: coef})"""
    if isc(x):
        return int(x), {}
    if x.op == 'ilin':
        a = x.a
        return a[0], {a[i + 1]: a[i] for i in range(1, len(a), 2)}
    return 0, {x: 1}


def unlin(c, d, lo=None, hi=None):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    items = sorted(d.items(), key=lambda kv: kv[0].id)
    l = h = c
    for k, v in items:
        kl, kh = (k.lo, k.hi) if v > 0 else (k.hi, k.lo)
        l = None if l is None or kl is None else l + v * kl
        h = None if h is None or kh is None else h + v * kh
    if lo is not None and (l is None or lo > l): l = lo
    if hi is not None and (h is None or hi < h): h = hi
    args = [c]
    for k, v in items:
        args += [v, k]
    r = mk('ilin', tuple(args), 'int', l, h)
    if lo is not None and (r.lo is None or lo > r.lo): r.lo = lo
    if hi is not None and (r.hi is None or hi < r.hi): r.hi = hi
    if r.lo is not None and r.lo == r.hi:
        return r.lo
    return r


def iadd(a, b, ty='int'):
    if isc(a) and isc(b):
        return a + b
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + v
    return unlin(ca + cb, d)


def ineg(a, ty='int'):
    return imul(a, -1)


def isub(a, b, ty='int'):
    if isc(a) and isc(b):
        return a - b
    return iadd(a, ineg(b))


def imul(a, b, ty='int'):
    if isc(a) and isc(b):
        return a * b
    if isc(a):
        a, b = b, a
    if isc(b):
        if b == 0:
            return 0
        if b == 1:
            return a
        c, d = lin(a)
        lo, hi = (a.lo, a.hi) if b > 0 else (a.hi, a.lo)
        return unlin(c * b, {k: v * b for k, v in d.items()}, None if lo is None else lo * b, None if hi is None else hi * b)
    if a.id > b.id:
        a, b = b, a
    (al, ah), (bl, bh) = irange(a), irange(b)
    if None in (al, ah, bl, bh):
        lo = hi = None
    else:
        c = [al * bl, al * bh, ah * bl, ah * bh]
        lo, hi = min(c), max(c)
    return mk('imul', (a, b), ty, lo, hi)


def tdiv_c(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def ifloordiv(a, b):
    """floor division by a positive constant; multiples of the divisor are taken out"""
    if isc(a) and isc(b):
        return a // b
    if not isc(b):
        return mk('ifdivx', (a, b), 'int')
    if b < 0:
        return ifloordiv(ineg(a), -b)
    if b == 1:
        return a
    c, d = lin(a)
    lo = a.lo // b if a.lo is not None else None
    hi = a.hi // b if a.hi is not None else None
    out = {k: v // b for k, v in d.items() if v % b == 0}
    rest = {k: v for k, v in d.items() if v % b != 0}
    qc, rc = divmod(c, b)
    if not rest:
        return unlin(qc, out, lo, hi)
    # common factor of the rest and the divisor: floor((g*r + c)/ (g*b')) = floor((r + floor(c/g))/b')
    g = b
    for v in rest.values():
        g = math.gcd(g, v)
    b2 = b // g
    r = unlin(rc // g, {k: v // g for k, v in rest.items()})
    if b2 == 1:
        return iadd(unlin(qc, out), r)
    # floor(floor(x/m)/n) = floor(x/(m n))
    if len(rest) == 1 and not isc(r):
        rcst, rd = lin(r)
        (k, v), = rd.items()
        if v == 1 and k.op == 'ifdiv':
            inner, m = k.a
            return iadd(unlin(qc, out), ifloordiv(iadd(inner, rcst * m), m * b2))
    if isc(r):
        return iadd(unlin(qc, out), r // b2)
    l = r.lo // b2 if r.lo is not None else None
    h = r.hi // b2 if r.hi is not None else None
    if l is not None and l == h:
        return iadd(unlin(qc, out), l)
    qt = mk('ifdiv', (r, b2), 'int', l, h)
    out[qt] = out.get(qt, 0) + 1
    return unlin(qc, out, lo, hi)


def imod(a, b):
    if isc(a) and isc(b):
        return a % b
    if not isc(b):
        return isub(a, imul(b, ifloordiv(a, b)))
    c, d = lin(a)
    # drop multiples of b first, so the remainder stays small
    a2 = unlin(c % b, {k: v % b for k, v in d.items()})
    if isc(a2):
        return a2 % b
    q = ifloordiv(a2, b)
    c1, d1 = lin(a2)
    c2, d2 = lin(imul(q, -b))
    for k, v in d2.items():
        d1[k] = d1.get(k, 0) + v
    return unlin(c1 + c2, d1, 0, b - 1)


def isdiv(a, b, ty='int'):
    """C truncating division"""
    if isc(a) and isc(b):
        return tdiv_c(a, b)
    if isc(b) and b == 1:
        return a
    if isc(b) and b < 0:
        return ineg(isdiv(a, -b))
    (al, ah) = irange(a)
    if isc(b) and al is not None and al >= 0:
        return ifloordiv(a, b)
    if isc(b) and ah is not None and ah <= 0:
        return ineg(ifloordiv(ineg(a), b))
    if isc(b) and not isc(a) and all(v % b == 0 for v in lin(a)[1].values()) and lin(a)[0] % b == 0:
        return ifloordiv(a, b)
    lo = hi = None
    if isc(b) and al is not None and ah is not None:
        lo, hi = min(tdiv_c(al, b), 0), max(tdiv_c(ah, b), 0)
    return mk('isdiv', (a, b), ty, lo, hi)


def isrem(a, b, ty='int'):
    if isc(a) and isc(b):
        return a - b * tdiv_c(a, b)
    (al, ah) = irange(a)
    if isc(b):
        b = abs(b)
        if al is not None and al >= 0:
            return imod(a, b)
        if ah is not None and ah <= 0:
            return ineg(imod(ineg(a), b))
        r = isub(a, imul(isdiv(a, b), b))
        if isinstance(r, T):
            if r.lo is None or r.lo < 1 - b: r.lo = 1 - b
            if r.hi is None or r.hi > b - 1: r.hi = b - 1
        return r
    return isub(a, imul(b, isdiv(a, b)))


# ------------------------------------------------------------------ linear view of real terms
_rl = {}


def rlin(x):
    """-> (const Fraction, {atom: Fraction}); integer atoms are 'int'-typed terms"""
    if isc(x):
        return (frac(x), {}) if ok(x) and not _inf(x) else (Fraction(0), {None: Fraction(1)})
    r = _rl.get(x.id)
    if r is not None:
        return r
    # iterative post-order
    stack = [x]
    while stack:
        y = stack[-1]
        if y.id in _rl:
            stack.pop()
            continue
        if y.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fconv') and y.ty != 'b':
            kids = [z for z in y.a if isinstance(z, T) and z.id not in _rl]
            if kids:
                stack.extend(kids)
                continue
        stack.pop()
        _rl[y.id] = _rlin1(y)
    return _rl[x.id]


def _rlin1(x):
    op, a = x.op, x.a
    if op == 'fc':
        return (Fraction(a[0]), {}) if ok(a[0]) and not _inf(a[0]) else (Fraction(0), {x: Fraction(1)})
    if op in ('fadd', 'fsub'):
        (c1, d1), (c2, d2) = rlin(a[0]), rlin(a[1])
        s = 1 if op == 'fadd' else -1
        d = dict(d1)
        for k, v in d2.items():
            n = d.get(k, 0) + s * v
            if n == 0: d.pop(k, None)
            else: d[k] = n
        if len(d) > 60:
            return Fraction(0), {x: Fraction(1)}
        return c1 + s * c2, d
    if op == 'fneg':
        c, d = rlin(a[0])
        return -c, {k: -v for k, v in d.items()}
    if op == 'fconv':
        return rlin(a[0])
    if op == 'fmul':
        (c1, d1), (c2, d2) = rlin(a[0]), rlin(a[1])
        if not d1: return c1 * c2, {k: v * c1 for k, v in d2.items() if c1 != 0}
        if not d2: return c1 * c2, {k: v * c2 for k, v in d1.items() if c2 != 0}
    if op == 'fdiv':
        (c1, d1), (c2, d2) = rlin(a[0]), rlin(a[1])
        if not d2 and c2 != 0: return c1 / c2, {k: v / c2 for k, v in d1.items()}
    if op == 'i2f':
        c, d = lin(a[0])
        return Fraction(c), {k: Fraction(v) for k, v in d.items()}
    return Fraction(0), {x: Fraction(1)}


def is_int_atom(k):
    return k is not None and k.ty == 'int'


def rinterval(c, d):
    lo = hi = c
    for k, v in d.items():
        if k is None or k.lo is None or k.hi is None:
            return None, None
        l, h = Fraction(k.lo), Fraction(k.hi)
        if v < 0: l, h = h, l
        lo, hi = lo + v * l, hi + v * h
    return lo, hi


def unrlin(c, d, ty='real'):
    """term for const + sum"""
    ci, di, rest = 0, {}, []
    for k, v in sorted(d.items(), key=lambda kv: kv[0].id):
        if is_int_atom(k) and v.denominator == 1:
            di[k] = int(v)
        else:
            rest.append((k, v))
    if c.denominator == 1:
        ci, c = int(c), Fraction(0)
    I = unlin(ci, di)
    r = i2f(I, 'real')
    for k, v in rest:
        kt = i2f(k, 'real') if is_int_atom(k) else k
        r = fbin('fadd', r, fbin('fmul', v, kt, 'real'), 'real')
    if c != 0:
        r = fbin('fadd', r, c, 'real')
    return r


def rfloor(c, d):
    """integer term floor(c + sum d)"""
    near = {k: round(v) for k, v in d.items() if is_int_atom(k) and v.denominator != 1 and round(v) != 0 and abs(v - round(v)) < Fraction(1, 1000)}
    if near:                                    # coefficients next to an integer: take the whole part out
        c0, d0 = lin(rfloor(c, {k: v - near.get(k, 0) for k, v in d.items()}))
        for k, v in near.items():
            d0[k] = d0.get(k, 0) + v
        return unlin(c0, d0)
    lo, hi = rinterval(c, d)
    if lo is not None and math.floor(lo) == math.floor(hi):
        return math.floor(lo)
    if all(is_int_atom(k) for k in d):
        D = c.denominator
        for v in d.values():
            D = D * v.denominator // math.gcd(D, v.denominator)
        return ifloordiv(unlin(int(c * D), {k: int(v * D) for k, v in d.items()}), D)
    ci = math.floor(c)
    ii = {k: int(v) for k, v in d.items() if is_int_atom(k) and v.denominator == 1}
    rd = {k: v for k, v in d.items() if k not in ii}
    rc = c - ci
    lo, hi = rinterval(rc, rd)
    if lo is not None:
        lo, hi = math.floor(lo), math.floor(hi)
        if lo == hi:
            return unlin(ci + lo, ii)
    w = mk('rfloor', (unrlin(rc, rd),), 'int', lo, hi)
    ii[w] = ii.get(w, 0) + 1
    return unlin(ci, ii)


def rneg(c, d):
    return -c, {k: -v for k, v in d.items()}


def roundint(op, x, decide):
    """integer term for floor/ceil/trunc/round of a real term whose linear view has an integer part, else None"""
    c, d = rlin(x)
    if None in d or not d:
        return None
    if not any(is_int_atom(k) for k in d) and rinterval(c, d)[0] is None:
        return None
    if all(is_int_atom(k) and v.denominator == 1 for k, v in d.items()) and c.denominator == 1:
        return unlin(int(c), {k: int(v) for k, v in d.items()})
    if op == 'floor':
        return rfloor(c, d)
    if op == 'ceil':
        return ineg(rfloor(*rneg(c, d)))
    lo, hi = rinterval(c, d)
    h = Fraction(1, 2) if op == 'round' else Fraction(0)
    if lo is not None and lo >= 0:
        pos = True
    elif hi is not None and hi <= 0:
        pos = False
    else:
        pos = decide(le(Fraction(0), unrlin(c, d)))
    if pos:
        r = rfloor(c + h, d)
        lb, ub = (0, None)
    else:
        nc, nd = rneg(c, d)
        r = ineg(rfloor(nc + h, nd))
        lb, ub = (None, 0)
    return r


def wrap_s(x, n):
    """wrap mathematical int to signed n bits"""
    m = 1 << (n - 1)
    if isc(x):
        return (x + m) % (2 * m) - m
    if x.lo is not None and x.hi is not None and x.lo >= -m and x.hi < m:
        return x
    return iadd(imod(iadd(x, m), 2 * m), -m)


def to_u(x, n):
    """unsigned reading of a signed n-bit value"""
    if isc(x):
        return x % (1 << n)
    if x.lo is not None and x.lo >= 0:
        return x
    return imod(x, 1 << n)


# ------------------------------------------------------------------ floats
def fold32(v, ty):
    return f32(v) if ty == 'f32' else v


def fbin(op, a, b, ty):
    if isc(a) and isc(b):
        if ty == 'real':
            a, b = frac(a), frac(b)
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if b != 0:
                return a / b
        else:
            a, b = float(a), float(b)
            try:
                if op == 'fadd': v = a + b
                elif op == 'fsub': v = a - b
                elif op == 'fmul': v = a * b
                else: v = a / b
            except ZeroDivisionError:
                if a != a or a == 0:
                    v = math.nan
                else:
                    v = math.copysign(math.inf, a) * math.copysign(1.0, b)
            except OverflowError:
                v = math.inf
            return fold32(v, ty)
    if ty == 'real':
        if isc(a):
            fa = frac(a)
            if op == 'fadd' and fa == 0: return b
            if op == 'fmul':
                if fa == 0: return Fraction(0)
                if fa == 1: return b
            a = fa
        if isc(b):
            fb = frac(b)
            if fb == 0 and op in ('fadd', 'fsub'): return a
            if fb == 0 and op == 'fmul': return Fraction(0)
            if fb == 1 and op in ('fmul', 'fdiv'): return a
            b = fb
    # concrete operands of floating ops are kept as floats
    return mk(op, (fc(a, ty), fc(b, ty)), ty)


def fc(a, ty):
    if isc(a):
        if ty == 'real':
            return frac(a)
        return mk('fc', (float(a),), ty)
    return a


def fneg(a, ty):
    if isc(a):
        return -a
    if a.op == 'fneg':
        return a.a[0]
    if a.op == 'fsub' and isc(a.a[0]) and a.a[0] == 0 and isinstance(a.a[1], T) and a.a[1].ty in (ty, 'real'):
        return a.a[1]
    return mk('fneg', (a,), ty)


MATHF = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sqrt', 'exp', 'log', 'log10', 'pow', 'fmod', 'trunc', 'round', 'floor',
         'ceil', 'cbrt', 'hypot', 'sinh', 'cosh', 'tanh', 'log2', 'exp2', 'remainder'}

ONE = MATHF - {'atan2', 'pow', 'fmod', 'hypot', 'remainder'}


def fmath(name, args, ty):
    if all(isc(x) for x in args):
        if ty == 'real':
            from . import real as _r
            v = _r.exact_math(name, [frac(x) for x in args])
            if v is not None:
                return v
            return mk(name, tuple(frac(x) for x in args), ty)
        if ty == 'f32':
            return libm(name + 'f', *[float(x) for x in args])
        return libm(name, *[float(x) for x in args])
    return mk(name, tuple(fc(x, ty) for x in args), ty)


def i2f(x, ty='real'):
    if isc(x):
        return frac(x) if ty == 'real' else fold32(float(x), ty)
    return mk('i2f', (x,), ty)


def fconv(x, ty):
    if isc(x):
        return fold32(float(x), ty)
    if x.ty == ty:
        return x
    return mk('fconv', (x,), ty)


# ------------------------------------------------------------------ spec-level generic arithmetic
def _kind(a, b):
    for x in (a, b):
        if isc(x):
            if isinstance(x, (float, Fraction)):
                return 'r'
        elif not (x.ty == 'int' or x.ty[0] == 'i'):
            return 'r'
    return 'i'


def _r(x):
    if isc(x):
        return frac(x)
    if x.ty == 'int' or x.ty[0] == 'i':
        return i2f(x, 'real')
    return x


def sadd(a, b): return iadd(a, b) if _kind(a, b) == 'i' else fbin('fadd', _r(a), _r(b), 'real')
def ssub(a, b): return isub(a, b) if _kind(a, b) == 'i' else fbin('fsub', _r(a), _r(b), 'real')
def smul(a, b): return imul(a, b) if _kind(a, b) == 'i' else fbin('fmul', _r(a), _r(b), 'real')
def sdiv_(a, b): return fbin('fdiv', _r(a), _r(b), 'real')


# ------------------------------------------------------------------ booleans
def lt(a, b):
    if isc(a) and isc(b):
        if not ok(a, b): return False
        if _inf(a) or _inf(b): return a < b
        return frac(a) < frac(b)
    if a is b: return False
    if _kind(a, b) == 'i':
        (al, ah), (bl, bh) = irange(a), irange(b)
        if ah is not None and bl is not None and ah < bl: return True
        if al is not None and bh is not None and al >= bh: return False
        return mk('ilt', (a, b), 'b')
    p = _ii(a, b)
    if p is not None: return lt(*p)
    return mk('flt', (rr(a), rr(b)), 'b')


def _ii(a, b):
    """both sides integer-valued: their int terms"""
    if isinstance(a, T) and a.op == 'fconv': a = a.a[0]
    if isinstance(b, T) and b.op == 'fconv': b = b.a[0]
    ia = a.a[0] if isinstance(a, T) and a.op == 'i2f' else None
    ib = b.a[0] if isinstance(b, T) and b.op == 'i2f' else None
    if ia is None and isc(a) and not isinstance(a, bool) and ok(a) and not _inf(a) and frac(a).denominator == 1: ia = int(frac(a))
    if ib is None and isc(b) and not isinstance(b, bool) and ok(b) and not _inf(b) and frac(b).denominator == 1: ib = int(frac(b))
    if isinstance(a, T) and a.op == 'fc' and ok(a.a[0]) and not _inf(a.a[0]) and a.a[0] == int(a.a[0]): ia = int(a.a[0])
    if isinstance(b, T) and b.op == 'fc' and ok(b.a[0]) and not _inf(b.a[0]) and b.a[0] == int(b.a[0]): ib = int(b.a[0])
    if isinstance(a, T) and a.ty == 'int': ia = a
    if isinstance(b, T) and b.ty == 'int': ib = b
    if ia is None or ib is None:
        return None
    return ia, ib


def ok(*xs):
    return all(not (isinstance(x, float) and (x != x)) for x in xs)


def rr(x):
    if isc(x):
        return frac(x) if not (isinstance(x, float) and (math.isinf(x) or x != x)) else x
    if x.ty == 'int' or x.ty[0] == 'i':
        return i2f(x, 'real')
    return x


def _inf(x): return isinstance(x, float) and math.isinf(x)


def le(a, b):
    if isc(a) and isc(b):
        if not ok(a, b): return False
        if _inf(a) or _inf(b): return a <= b
        return frac(a) <= frac(b)
    if a is b: return True
    if _kind(a, b) == 'i':
        (al, ah), (bl, bh) = irange(a), irange(b)
        if ah is not None and bl is not None and ah <= bl: return True
        if al is not None and bh is not None and al > bh: return False
        return mk('ile', (a, b), 'b')
    p = _ii(a, b)
    if p is not None: return le(*p)
    return mk('fle', (rr(a), rr(b)), 'b')


def eq(a, b):
    if isc(a) and isc(b):
        if not ok(a, b): return False
        if _inf(a) or _inf(b): return a == b
        return frac(a) == frac(b)
    if a is b: return True
    if not isc(b) and (isc(a) or a.id > b.id): a, b = b, a
    if _kind(a, b) == 'i':
        (al, ah), (bl, bh) = irange(a), irange(b)
        if ah is not None and bl is not None and ah < bl: return False
        if al is not None and bh is not None and al > bh: return False
        return mk('ieq', (a, b), 'b')
    p = _ii(a, b)
    if p is not None: return eq(*p)
    return mk('feq', (rr(a), rr(b)), 'b')


def bnot(a):
    if isc(a): return not a
    if a.op == 'not': return a.a[0]
    if a.op == 'ilt': return le(a.a[1], a.a[0])
    if a.op == 'ile': return lt(a.a[1], a.a[0])
    return mk('not', (a,), 'b')


def ne(a, b): return bnot(eq(a, b))


def band(*xs):
    r = []
    for x in xs:
        if isc(x):
            if not x: return False
        elif x.op == 'and': r.extend(x.a)
        else: r.append(x)
    if not r: return True
    if len(r) == 1: return r[0]
    return mk('and', tuple(r), 'b')


def bor(*xs):
    r = []
    for x in xs:
        if isc(x):
            if x: return True
        elif x.op == 'or': r.extend(x.a)
        else: r.append(x)
    if not r: return False
    if len(r) == 1: return r[0]
    return mk('or', tuple(r), 'b')


def implies(a, b): return bor(bnot(a), b)


def beq(a, b):
    if isc(a): return b if a else bnot(b)
    if isc(b): return a if b else bnot(a)
    if a is b: return True
    return bor(band(a, b), band(bnot(a), bnot(b)))


def factor_of(fn, x):
    """x = k fn(w) -> (k, w); k None for 1; (None, None) if x has another form"""
    if x.op == fn:
        return None, x.a[0]
    if x.op == 'fmul':
        for k, y in (x.a, x.a[::-1]):
            if isinstance(y, T) and y.op == fn:
                return k, y.a[0]
    return None, None
