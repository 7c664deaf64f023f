"""Exact-real normal form of floating terms: rational functions over atoms, reduced by the defining relations
(cos^2 = 1 - sin^2, sqrt(P)^2 = P, sin(atan2(y,x)) = y/rho, ...).  Used to prepare queries for the SMT solver."""
import math
from fractions import Fraction
import mpmath
from . import term as t
from .term import T, isc

mpmath.mp.prec = 240
F0, F1 = Fraction(0), Fraction(1)
QBITS = 200
PI = None


def q(x):
    """dyadic rational approximation of an mpf to 2^-QBITS"""
    return Fraction(int(mpmath.nint(mpmath.ldexp(x, QBITS))), 1 << QBITS)


def mpf(fr):
    return mpmath.mpf(fr.numerator) / fr.denominator


PI = q(mpmath.pi)
TWOPI = 2 * PI


def isqrt_exact(fr):
    a, b = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
    if a * a == fr.numerator and b * b == fr.denominator:
        return Fraction(a, b)
    return None


def exact_math(name, xs):
    """value of a real function at rational arguments, to 2^-QBITS"""
    try:
        m = [mpf(x) for x in xs]
        if name == 'sqrt':
            if xs[0] < 0: return None
            e = isqrt_exact(xs[0])
            return e if e is not None else q(mpmath.sqrt(m[0]))
        if name in ('sin', 'cos', 'tan', 'exp', 'atan'):
            return q(getattr(mpmath, name)(m[0]))
        if name in ('asin', 'acos'):
            if abs(m[0]) > 1: return None
            return q(getattr(mpmath, name)(m[0]))
        if name == 'log': return q(mpmath.log(m[0])) if m[0] > 0 else None
        if name == 'log10': return q(mpmath.log10(m[0])) if m[0] > 0 else None
        if name == 'atan2': return q(mpmath.atan2(m[0], m[1]))
        if name == 'pow':
            if xs[0] <= 0 and xs[1].denominator != 1: return None
            if xs[1].denominator == 1 and abs(xs[1]) < 64 and (xs[0] != 0 or xs[1] > 0): return xs[0] ** int(xs[1])
            return q(mpmath.power(m[0], m[1]))
        if name == 'fmod':
            k = int(xs[0] / xs[1])
            return xs[0] - k * xs[1]
        if name == 'trunc': return Fraction(int(xs[0]))
        if name == 'floor': return Fraction(math.floor(xs[0]))
        if name == 'ceil': return Fraction(math.ceil(xs[0]))
        if name == 'round':
            s = 1 if xs[0] >= 0 else -1
            return Fraction(s * math.floor(abs(xs[0]) + Fraction(1, 2)))
        if name == 'cbrt':
            return q(mpmath.cbrt(m[0])) if m[0] >= 0 else -q(mpmath.cbrt(-m[0]))
    except (ValueError, ZeroDivisionError):
        return None
    return None


def const_sincos(nf, c):
    # a constant that is the correctly rounded double/float of k*pi/2 is taken as exactly that angle
    k = round(c / (PI / 2))
    if k != 0 and abs(k) < 64:
        ex = k * PI / 2
        if abs(c - ex) < Fraction(1, 10 ** 5):
            fe = float(ex)
            if c == Fraction(fe) or c == Fraction(t.f32(fe)):
                sv = (0, 1, 0, -1)[k % 4]
                cv = (1, 0, -1, 0)[k % 4]
                return nf.rconst(Fraction(sv)), nf.rconst(Fraction(cv))
    m = mpf(c)
    return nf.rconst(q(mpmath.sin(m))), nf.rconst(q(mpmath.cos(m)))


def cos_interval(lo, hi):
    if not (math.isfinite(lo) and math.isfinite(hi)) or hi - lo >= 2 * math.pi:
        return -1.0, 1.0
    a, b = math.cos(lo), math.cos(hi)
    l, h = min(a, b), max(a, b)
    e = 1e-12
    if math.floor((hi + e) / (2 * math.pi)) != math.floor((lo - e) / (2 * math.pi)): h = 1.0
    if math.floor((hi + e - math.pi) / (2 * math.pi)) != math.floor((lo - e - math.pi) / (2 * math.pi)): l = -1.0
    l, h = max(-1.0, l - 1e-15), min(1.0, h + 1e-15)
    if abs(l) < 1e-12: l = 0.0 if lo >= -math.pi / 2 - 1e-12 and hi <= math.pi / 2 + 1e-12 else l
    return l, h


class TooBig(Exception):
    pass


class Atom:
    __slots__ = ('id', 'kind', 'key', 'lo', 'hi', 'rel', 'name', 'data', 'isint')

    def __repr__(self):
        return self.name


class NF:
    """One normal-form context: the atoms of one path, with optional substitutions."""

    def __init__(self, expand=True, unify=1e-13, maxterms=60000):
        self.atoms = []
        self.index = {}
        self.memo = {}
        self.expand = expand
        self.unify = unify
        self.maxterms = maxterms
        self.polys = {}
        self.plist = []
        self.angbase = {}      # mono -> list of (coef, sinatom, cosatom)
        self.argidx = {}       # monos tuple -> list of (poly, sinatom, cosatom)
        self.subst = {}        # var name -> Fraction
        self.zeros = []        # polynomials known to vanish (path condition), and their squares
        self.zsq = []
        self.cuts = {}         # key of a normal form -> (atom, form): sub-results represented by one bounded unknown
        self.sqrts = []
        self.dens = {}         # monomials -> denominators met so far
        self.partner = {}      # sin atom id <-> cos atom id
        self.unified = 0.0
        self.hints = {}        # polykey -> sign (+1: known >= 0 / positive)

    # -------------------------------------------------- atoms
    def atom(self, kind, key, lo=-math.inf, hi=math.inf, name=None, isint=False, data=None):
        k = (kind, key)
        a = self.index.get(k)
        if a is None:
            a = Atom()
            a.id = len(self.atoms)
            a.kind, a.key, a.lo, a.hi, a.rel, a.isint, a.data = kind, key, lo, hi, None, isint, data
            a.name = name or '%s#%d' % (kind, a.id)
            self.atoms.append(a)
            self.index[k] = a
        return a

    # -------------------------------------------------- polynomials: dict mono->Fraction
    @staticmethod
    def pconst(c):
        return {(): c} if c else {}

    def pvar(self, a):
        return {((a.id, 1),): F1}

    @staticmethod
    def padd(p, r):
        if len(p) < len(r):
            p, r = r, p
        o = dict(p)
        for m, c in r.items():
            v = o.get(m)
            if v is None:
                o[m] = c
            else:
                v = v + c
                if v:
                    o[m] = v
                else:
                    del o[m]
        return o

    @staticmethod
    def pscale(p, c):
        if not c:
            return {}
        if c == 1:
            return p
        return {m: v * c for m, v in p.items()}

    def psub(self, p, r):
        return self.padd(p, self.pscale(r, Fraction(-1)))

    @staticmethod
    def mmul(m1, m2):
        if not m1:
            return m2
        if not m2:
            return m1
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        return tuple(sorted(d.items()))

    def pmul(self, p, r):
        if not p or not r:
            return {}
        if len(p) == 1 and () in p:
            return self.pscale(r, p[()])
        if len(r) == 1 and () in r:
            return self.pscale(p, r[()])
        if len(p) * len(r) > self.maxterms * 8:
            raise TooBig()
        o = {}
        mm = self.mmul
        for m1, c1 in p.items():
            for m2, c2 in r.items():
                m = mm(m1, m2)
                v = o.get(m)
                c = c1 * c2
                if v is None:
                    o[m] = c
                else:
                    v += c
                    if v:
                        o[m] = v
                    else:
                        del o[m]
        return self.reduce(o)

    def reduce(self, p):
        """rewrite squares of atoms that carry a square relation"""
        atoms = self.atoms
        while True:
            bad = None
            for m in p:
                for a, e in m:
                    if e >= 2 and atoms[a].rel is not None:
                        bad = m
                        break
                if bad is not None:
                    break
            if bad is None:
                if len(p) > self.maxterms:
                    raise TooBig()
                return p
            out = {}
            todo = []
            for m, c in p.items():
                hit = None
                for a, e in m:
                    if e >= 2 and atoms[a].rel is not None:
                        hit = (a, e)
                if hit is None:
                    v = out.get(m)
                    if v is None:
                        out[m] = c
                    else:
                        v += c
                        if v:
                            out[m] = v
                        else:
                            del out[m]
                else:
                    todo.append((m, c, hit))
            for m, c, (a, e) in todo:
                rest = tuple((x, y) if x != a else (x, e % 2) for x, y in m if x != a or e % 2)
                rp = atoms[a].rel
                k = e // 2
                pw = rp
                for _ in range(k - 1):
                    pw = self.pmul(pw, rp)
                for m2, c2 in pw.items():
                    mmm = self.mmul(rest, m2)
                    v = out.get(mmm, F0) + c * c2
                    if v:
                        out[mmm] = v
                    elif mmm in out:
                        del out[mmm]
            if len(out) > self.maxterms:
                raise TooBig()
            p = out

    def ppow(self, p, n):
        r = {(): F1}
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    def intern(self, p):
        k = tuple(sorted(p.items()))
        i = self.polys.get(k)
        if i is None:
            i = len(self.plist)
            self.polys[k] = i
            self.plist.append(p)
        return i

    # -------------------------------------------------- rationals: (num, den) den = tuple((pid, exp))
    def rconst(self, c):
        return (self.pconst(c), ())

    def is_const(self, r):
        return not r[1] and (not r[0] or (len(r[0]) == 1 and () in r[0]))

    def cval(self, r):
        return r[0].get((), F0)

    def denpoly(self, den):
        p = {(): F1}
        for pid, e in den:
            p = self.pmul(p, self.ppow(self.plist[pid], e))
        return p

    def radd(self, x, y):
        if x[1] == y[1]:
            return self.simp((self.padd(x[0], y[0]), x[1]))
        dx, dy = dict(x[1]), dict(y[1])
        l = dict(dx)
        for p, e in dy.items():
            l[p] = max(l.get(p, 0), e)
        fx = {(): F1}
        fy = {(): F1}
        for p, e in l.items():
            k = e - dx.get(p, 0)
            if k:
                fx = self.pmul(fx, self.ppow(self.plist[p], k))
            k = e - dy.get(p, 0)
            if k:
                fy = self.pmul(fy, self.ppow(self.plist[p], k))
        return self.simp((self.padd(self.pmul(x[0], fx), self.pmul(y[0], fy)), tuple(sorted(l.items()))))

    def rneg(self, x):
        return (self.pscale(x[0], Fraction(-1)), x[1])

    def rsub(self, x, y):
        return self.radd(x, self.rneg(y))

    def common_atoms(self, p):
        it = iter(p)
        c = {a for a, e in next(it)}
        for m in it:
            if not c:
                break
            c &= {a for a, e in m}
        return c

    def rmul(self, x, y):
        d = dict(x[1])
        for p, e in y[1]:
            d[p] = d.get(p, 0) + e
        if d and x[0] and y[0]:
            for a in self.common_atoms(x[0]) & self.common_atoms(y[0]):
                at = self.atoms[a]
                if at.rel is not None and at.kind in ('sqrt', 'abs'):
                    pid, c = self.monic_intern(at.rel)
                    if pid is not None and d.get(pid, 0) > 0:
                        # r * r / P = c
                        d[pid] -= 1
                        if not d[pid]:
                            del d[pid]
                        x = ({self._mdiv(m, a, 1): v * c for m, v in x[0].items()}, x[1])
                        y = ({self._mdiv(m, a, 1): v for m, v in y[0].items()}, y[1])
        return self.simp((self.pmul(x[0], y[0]), tuple(sorted(d.items()))))

    def rinv(self, x):
        num, den = x
        if not num:
            raise ZeroDivisionError
        n = self.denpoly(den)
        if len(num) == 1:
            (m, c), = num.items()
            n = self.pscale(n, 1 / c)
            d = {}
            for a, e in m:
                at = self.atoms[a]
                if at.rel is not None and at.kind in ('sqrt', 'abs'):
                    # 1/r = r/P
                    pid = self.monic_intern(at.rel)
                    n = self.pmul(n, self.ppow(self.pvar(at), e))
                    n = self.pscale(n, 1 / pid[1] ** e)
                    d[pid[0]] = d.get(pid[0], 0) + e
                    if pid[0] is None:
                        del d[None]
                else:
                    pid = self.intern(self.pvar(at))
                    d[pid] = d.get(pid, 0) + e
            return self.simp((n, tuple(sorted(d.items()))))
        lo, hi = self.pinterval(num)
        e = self.near_const(lo, hi) or (self.near_const(-hi, -lo) and -self.near_const(-hi, -lo))
        if e is not None:
            v = [1 / lo, 1 / hi]
            i0 = 1 / e
            at = self.atom('eps', ('inv', tuple(sorted(num.items()))), min(v) - i0 - 1e-15 * abs(i0), max(v) - i0 + 1e-15 * abs(i0))
            return (self.pmul(n, self.padd(self.pconst(Fraction(i0)), self.pvar(at))), ())
        near = self.near_den(num, lo, hi)
        if near is not None:
            return near if n == {(): F1} else self.rmul((n, ()), near)
        pid, c = self.monic_intern(num)
        return self.simp((self.pscale(n, 1 / c), ((pid, 1),)))

    def near_den(self, p, lo, hi):
        """1/p when an earlier denominator q differs from it by rounded constants only: (1/q)(1 + bounded error)"""
        if not (0 < lo or hi < 0):
            return None
        k = tuple(sorted(p.items()))
        for q in self.dens.setdefault(frozenset(p), []):
            if q == p:
                return None
        for q in self.dens[frozenset(p)]:
            if all(abs(q[m] - c) <= 1e-13 * abs(c) for m, c in p.items()):
                dl, dh = self.pinterval(self.psub(q, p))
                D = max(abs(dl), abs(dh)) / min(abs(lo), abs(hi)) * (1 + 1e-9)
                if D < 1e-11:
                    e = self.atom('eps', ('invd', k), -D, D)
                    pid, c = self.monic_intern(q)
                    return self.simp((self.padd(self.pconst(1 / c), self.pscale(self.pvar(e), 1 / c)), ((pid, 1),)))
        self.dens[frozenset(p)].append(p)
        return None

    def monic_intern(self, p):
        if not p:
            raise ZeroDivisionError
        if len(p) == 1 and () in p:
            return None, p[()]
        lead = max(p)
        c = p[lead]
        return self.intern(self.pscale(p, 1 / c)), c

    def simp(self, r):
        num, den = r
        if not num:
            return ({}, ())
        if not den:
            return r
        out = []
        changed = False
        for pid, e in den:
            p = self.plist[pid]
            while e > 0:
                d = self.exact_div(num, p)
                if d is None:
                    break
                num = d
                e -= 1
                changed = True
            if e:
                out.append((pid, e))
        return (num, tuple(out)) if changed else r

    def exact_div(self, num, p):
        """cheap exact division attempts (free polynomial ring)"""
        if len(p) == 1:
            (m, c), = p.items()
            o = {}
            dm = dict(m)
            for mm, cc in num.items():
                d = dict(mm)
                for a, e in dm.items():
                    k = d.get(a, 0) - e
                    if k < 0:
                        return None
                    if k:
                        d[a] = k
                    else:
                        del d[a]
                o[tuple(sorted(d.items()))] = cc / c
            return o
        if len(num) < len(p) and len(num) == 1:
            return None
        if len(num) > 400:
            return None
        # multivariate division by leading term (graded lex on sorted tuples)
        def keyf(m):
            return (sum(e for _, e in m), m)
        lead = max(p, key=keyf)
        lc = p[lead]
        ld = dict(lead)
        rem = dict(num)
        quo = {}
        steps = 0
        while rem:
            steps += 1
            if steps > 200:
                return None
            lm = max(rem, key=keyf)
            d = dict(lm)
            for a, e in ld.items():
                k = d.get(a, 0) - e
                if k < 0:
                    return None
                if k:
                    d[a] = k
                else:
                    d.pop(a, None)
            qm = tuple(sorted(d.items()))
            qc = rem[lm] / lc
            quo[qm] = qc
            for m, c in p.items():
                mm = self.mmul(qm, m)
                v = rem.get(mm, F0) - qc * c
                if v:
                    rem[mm] = v
                else:
                    rem.pop(mm, None)
        return self.reduce(quo)

    # -------------------------------------------------- intervals
    def minterval(self, m):
        lo, hi = 1.0, 1.0
        for a, e in m:
            at = self.atoms[a]
            al, ah = at.lo, at.hi
            if e % 2 == 0:
                b = max(abs(al), abs(ah))
                l2 = 0.0 if al <= 0 <= ah else min(abs(al), abs(ah))
                pl, ph = l2 ** e, b ** e if not math.isinf(b) else math.inf
            else:
                try:
                    pl, ph = al ** e if not math.isinf(al) else -math.inf, ah ** e if not math.isinf(ah) else math.inf
                except OverflowError:
                    pl, ph = -math.inf, math.inf
            c = []
            for u in (lo, hi):
                for v in (pl, ph):
                    c.append(0.0 if u == 0 or v == 0 else u * v)
            lo, hi = min(c), max(c)
        return lo, hi

    def pinterval(self, p):
        lo = hi = 0.0
        for m, c in p.items():
            a, b = self.minterval(m)
            try:
                cf = float(c)
            except OverflowError:
                return -math.inf, math.inf
            x, y = (0.0 if a == 0 else a * cf), (0.0 if b == 0 else b * cf)
            if x > y:
                x, y = y, x
            lo += x
            hi += y
        s = 1e-13 * (abs(lo) + abs(hi)) if not (math.isinf(lo) or math.isinf(hi)) else 0
        return lo - s, hi + s

    @staticmethod
    def near_const(lo, hi):
        if lo > 0 and hi < math.inf and (hi - lo) <= 3e-6 * lo:
            e = 0.5 * (lo + hi)
            r = round(e)
            if r > 0 and abs(e - r) <= (hi - lo) + 1e-15 * r:
                e = float(r)
            return e
        return None

    def sos(self, p):
        """syntactic non-negativity: every monomial is an even power (or nonneg atom) with positive coefficient"""
        for m, c in p.items():
            if c < 0:
                return False
            for a, e in m:
                if e % 2 and self.atoms[a].lo < 0:
                    return False
        return True

    def psign(self, p):
        """+1 nonneg, -1 nonpos, 0 unknown"""
        h = self.hints.get(tuple(sorted(p.items())))
        if h is not None:
            return h
        if self.sos(p):
            return 1
        if self.sos(self.pscale(p, Fraction(-1))):
            return -1
        lo, hi = self.pinterval(p)
        if lo >= 0: return 1
        if hi <= 0: return -1
        return 0

    def rinterval(self, r):
        lo, hi = self.pinterval(r[0])
        for pid, e in r[1]:
            dl, dh = self.pinterval(self.plist[pid])
            if dl <= 0 <= dh:
                if e % 2 == 0 or dl == 0 or self.sos(self.plist[pid]):
                    if lo >= 0: return 0.0, math.inf
                    if hi <= 0: return -math.inf, 0.0
                return -math.inf, math.inf
            for _ in range(e):
                c = [0.0 if u == 0 else u / v for u in (lo, hi) for v in (dl, dh)]
                lo, hi = min(c), max(c)
        return lo, hi

    # -------------------------------------------------- angles
    def sincos(self, r):
        """(sin, cos) of a rational-function angle as rationals"""
        if self.is_const(r):
            c = self.cval(r)
            if c == 0:
                return self.rconst(F0), self.rconst(F1)
            return const_sincos(self, c)
        if r[1]:
            return self.opaque_sincos(r)
        parts = []
        rest = {}
        for m, c in sorted(r[0].items()):
            if len(m) == 1 and m[0][1] == 1:
                at = self.atoms[m[0][0]]
                if at.isint:
                    k = c / TWOPI
                    n = round(k)
                    if n != 0 and abs(k - n) < Fraction(1, 10 ** 6):
                        continue
                if at.kind in ('atan2', 'asin', 'acos') and c.denominator == 1 and abs(c) <= 6:
                    parts.append(self.multi(self.inv_sincos(at), int(c)))
                    continue
                if at.kind in ('atan2', 'asin', 'acos') and abs(c - round(c)) < Fraction(1, 10**13) and abs(c) <= 6 and round(c) != 0:
                    parts.append(self.multi(self.inv_sincos(at), int(round(c))))
                    continue
            if m == ():
                parts.append(const_sincos(self, c))
                continue
            if self.expand:
                parts.append(self.unit_sincos(m, c))
            else:
                rest[m] = c
        if rest:
            parts.append(self.arg_sincos(rest))
        if not parts:
            return self.rconst(F0), self.rconst(F1)
        s, c = parts[0]
        for s2, c2 in parts[1:]:
            s, c = (self.radd(self.rmul(s, c2), self.rmul(c, s2)), self.rsub(self.rmul(c, c2), self.rmul(s, s2)))
        return s, c

    def multi(self, sc, n):
        s, c = sc
        if n < 0:
            s = self.rneg(s)
            n = -n
        S, C = self.rconst(F0), self.rconst(F1)
        for _ in range(n):
            S, C = self.radd(self.rmul(S, c), self.rmul(C, s)), self.rsub(self.rmul(C, c), self.rmul(S, s))
        return S, C

    def sc_atoms(self, key, name, arg=None):
        sa = self.atom('sin', key, -1.0, 1.0, 'sin(%s)' % name, data=arg)
        ca = self.atom('cos', key, -1.0, 1.0, 'cos(%s)' % name, data=arg)
        if ca.rel is None:
            ca.rel = {(): F1, ((sa.id, 2),): Fraction(-1)}
            self.partner[sa.id] = ca.id
            self.partner[ca.id] = sa.id
            # sign information from the argument's range
            if arg is not None:
                lo, hi = self.pinterval(arg)
                ca.lo, ca.hi = cos_interval(lo, hi)
                sa.lo, sa.hi = cos_interval(lo - math.pi / 2, hi - math.pi / 2)
                if lo >= 0 and hi <= math.pi * (1 + 1e-12):
                    sa.lo = max(0.0, sa.lo)
                if hi <= 0 and lo >= -math.pi * (1 + 1e-12):
                    sa.hi = min(0.0, sa.hi)
        return (self.pvar(sa), ()), (self.pvar(ca), ())

    def mname(self, m):
        return '*'.join(self.atoms[a].name + ('^%d' % e if e > 1 else '') for a, e in m)

    def unit_sincos(self, m, c):
        bases = self.angbase.setdefault(m, [])
        for b, k in bases:
            r = c / b
            n = round(r)
            if n != 0 and abs(n) <= 8 and abs(r - n) <= Fraction(self.unify) * abs(n):
                return self.multi(self.sc_atoms(k, '%s%s' % ('' if b == 1 else '%.6g*' % float(b), self.mname(m)), {m: b}), n)
        b = abs(c)
        for n in (1, 2, 4):    # allow halves of unit coefficients to be registered first by harness
            pass
        k = ('u', m, b)
        bases.append((b, k))
        return self.multi(self.sc_atoms(k, '%s%s' % ('' if b == 1 else '%.6g*' % float(b), self.mname(m)), {m: b}), 1 if c > 0 else -1)

    def arg_sincos(self, p):
        lead = max(p)
        neg = p[lead] < 0
        if neg:
            p = self.pscale(p, Fraction(-1))
        ms = tuple(sorted(p))
        lst = self.argidx.setdefault(ms, [])
        found = None
        for pp, k in lst:
            err = 0.0
            for m in ms:
                d = p[m] - pp[m]
                if d:
                    lo, hi = self.minterval(m)
                    err += abs(float(d)) * max(abs(lo), abs(hi))
                    if err > max(self.unify * 100, 1e-11):
                        break
            else:
                found = k
                self.unified = max(self.unified, err)
                p = pp
                break
        if found is None:
            found = ('p', tuple(sorted(p.items())))
            lst.append((p, found))
        s, c = self.sc_atoms(found, 'ang%d' % self.intern(p), p)
        return (self.rneg(s), c) if neg else (s, c)

    def opaque_sincos(self, r):
        k = ('o', tuple(sorted(r[0].items())), r[1])
        # sign normalise
        lead = max(r[0])
        neg = r[0][lead] < 0
        if neg:
            r = self.rneg(r)
            k = ('o', tuple(sorted(r[0].items())), r[1])
        s, c = self.sc_atoms(k, 'arg%d' % (len(self.atoms)))
        return (self.rneg(s), c) if neg else (s, c)

    def inv_sincos(self, at):
        if at.data is not None and 'sc' in at.data:
            return at.data['sc']
        if at.kind == 'atan2':
            y, x = at.data['y'], at.data['x']
            rho = self.rsqrt(self.radd(self.rmul(x, x), self.rmul(y, y)))
            ir = self.rinv(rho)
            sc = (self.rmul(y, ir), self.rmul(x, ir))
        elif at.kind == 'asin':
            v = at.data['v']
            sc = (v, self.rsqrt(self.rsub(self.rconst(F1), self.rmul(v, v))))
        else:
            v = at.data['v']
            sc = (self.rsqrt(self.rsub(self.rconst(F1), self.rmul(v, v))), v)
        at.data['sc'] = sc
        return sc

    # -------------------------------------------------- sqrt / abs
    def rabs(self, r):
        lo, hi = self.rinterval(r)
        if lo >= 0: return r
        if hi <= 0: return self.rneg(r)
        if r[1]:
            d = self.denpoly(r[1])
            return self.rmul(self.pabs(r[0]), self.rinv(self.pabs(d)))
        return self.pabs(r[0])

    def pabs(self, p):
        s = self.psign(p)
        if s > 0: return (p, ())
        if s < 0: return (self.pscale(p, Fraction(-1)), ())
        if max(p) and p[max(p)] < 0:
            p = self.pscale(p, Fraction(-1))
        k = tuple(sorted(p.items()))
        lo, hi = self.pinterval(p)
        a = self.atom('abs', k, 0.0, max(abs(lo), abs(hi)), data={'p': p})
        if a.rel is None:
            a.rel = self.pmul(p, p)
        return (self.pvar(a), ())

    def rsqrt(self, r):
        num, den = r
        if not num:
            return self.rconst(F0)
        if self.is_const(r):
            c = self.cval(r)
            if c < 0:
                raise ValueError('sqrt of negative constant')
            e = isqrt_exact(c)
            return self.rconst(e if e is not None else q(mpmath.sqrt(mpf(c))))
        if den:
            # even powers come out; odd ones are rationalised
            out = self.rconst(F1)
            inn = {(): F1}
            for pid, e in den:
                p = self.plist[pid]
                k = (e + 1) // 2
                for _ in range(k):
                    out = self.rmul(out, self.rinv(self.pabs(p)))
                if e % 2:
                    inn = self.pmul(inn, p)
            return self.rmul(out, self.psqrt(self.pmul(num, inn)))
        return self.psqrt(num)

    def psqrt(self, p):
        for s in self.zsq:
            d = self.psub(p, s)
            if len(d) < len(p):
                p = d
        if not p:
            return self.rconst(F0)
        # constant content
        lead = max(p)
        c = abs(p[lead])
        e = isqrt_exact(c)
        out = self.rconst(F1)
        if e is not None and c != 1:
            p = self.pscale(p, 1 / c)
            out = self.rconst(e)
        if len(p) == 1 and () in p:
            return self.rmul(out, self.rsqrt((p, ())))
        # near-constant polynomials (rounded rotation matrices): treat the constant as dominant only if exactly constant
        # monomial content
        ms = list(p)
        common = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            for a in list(common):
                k = min(common[a], d.get(a, 0))
                if k:
                    common[a] = k
                else:
                    del common[a]
            if not common:
                break
        for a, k in common.items():
            k2 = k - k % 2
            if k2:
                mm = ((a, k2),)
                p = {self._mdiv(m, a, k2): v for m, v in p.items()}
                b = self.pabs(self.pvar(self.atoms[a]))
                for _ in range(k2 // 2):
                    out = self.rmul(out, b)
        # 1 - sin^2 factors
        again = True
        while again and len(p) > 1:
            again = False
            for at in list(self.atoms):
                if at.kind == 'cos' and at.rel is not None and self.uses(p, self.partner[at.id]):
                    d = self.exact_div(p, at.rel)
                    if d is not None:
                        p = d
                        out = self.rmul(out, self.pabs(self.pvar(at)))
                        again = True
                        if len(p) == 1:
                            return self.rmul(out, self.psqrt(p))
                        break
        if len(p) == 1:
            (m, cc), = p.items()
            if m == ():
                return self.rmul(out, self.rsqrt((p, ())))
        else:
            s = self.poly_sqrt(p)
            if s is not None:
                return self.rmul(out, self.pabs(s))
        k = tuple(sorted(p.items()))
        lo, hi = self.pinterval(p)
        e = self.near_const(lo, hi)
        if e is not None:
            c0 = math.sqrt(e)
            at = self.atom('eps', ('sqrt', k), math.sqrt(lo) - c0 - 1e-15 * c0, math.sqrt(hi) - c0 + 1e-15 * c0)
            return self.rmul(out, self.radd(self.rconst(Fraction(c0)), (self.pvar(at), ())))
        if ('sqrt', k) not in self.index and lo > 1e-6:
            # nearly the same radicand as before (rounded constants): the earlier root plus a bounded error
            for b in self.sqrts:
                pb = b.data['p']
                if pb.keys() == p.keys() and b.lo > 1e-3:
                    dl, dh = self.pinterval(self.psub(p, pb))
                    D = max(abs(dl), abs(dh)) / (math.sqrt(lo) + b.lo) * (1 + 1e-9)
                    if D < 1e-12:
                        e = self.atom('eps', ('sqrtd', k), -D, D)
                        return self.rmul(out, self.radd((self.pvar(b), ()), (self.pvar(e), ())))
        a = self.atom('sqrt', k, math.sqrt(max(lo, 0.0)) if lo > 0 else 0.0, math.sqrt(hi) if 0 <= hi < math.inf else math.inf,
                      data={'p': p})
        if a.rel is None:
            a.rel = p
            self.sqrts.append(a)
        return self.rmul(out, (self.pvar(a), ()))

    def uses(self, p, aid):
        for m in p:
            for a, e in m:
                if a == aid:
                    return True
        return False

    @staticmethod
    def _mdiv(m, a, k):
        return tuple((x, e - k if x == a else e) for x, e in m if not (x == a and e == k))

    def poly_sqrt(self, p):
        if len(p) > 60 or len(p) < 3:
            return None

        def keyf(m):
            return (sum(e for _, e in m), m)
        lm = max(p, key=keyf)
        if any(e % 2 for _, e in lm) or p[lm] < 0:
            return None
        c = isqrt_exact(p[lm])
        if c is None:
            return None
        r = {tuple((a, e // 2) for a, e in lm): c}
        l0 = next(iter(r))
        d0 = dict(l0)

        def free_mul(x, y):
            o = {}
            for m1, c1 in x.items():
                for m2, c2 in y.items():
                    m = self.mmul(m1, m2)
                    v = o.get(m, F0) + c1 * c2
                    if v: o[m] = v
                    else: o.pop(m, None)
            return o
        for _ in range(12):
            rem = self.psub(p, free_mul(r, r))
            if not rem:
                return r
            m = max(rem, key=keyf)
            d = dict(m)
            for a, e in d0.items():
                k = d.get(a, 0) - e
                if k < 0:
                    return None
                if k: d[a] = k
                else: d.pop(a, None)
            nm = tuple(sorted(d.items()))
            if nm in r:
                return None
            r[nm] = rem[m] / (2 * c)
        return None

    def poly_cbrt(self, p):
        """the polynomial whose cube is p, or None"""
        if len(p) > 60 or not p:
            return None

        def keyf(m):
            return (sum(e for _, e in m), m)
        lm = max(p, key=keyf)
        if any(e % 3 for _, e in lm):
            return None
        c = p[lm]
        sg = -1 if c < 0 else 1
        n, d = round(abs(c.numerator) ** (1 / 3)), round(c.denominator ** (1 / 3))
        if n ** 3 != abs(c.numerator) or d ** 3 != c.denominator:
            return None
        c = Fraction(sg * n, d)
        l0 = tuple((a, e // 3) for a, e in lm)
        r = {l0: c}
        lead2 = {}
        for a, e in l0:
            lead2[a] = 2 * e
        for _ in range(12):
            rem = self.psub(p, self.pmul(r, self.pmul(r, r)))
            if not rem:
                return r
            m = max(rem, key=keyf)
            d = dict(m)
            for a, e in lead2.items():
                k = d.get(a, 0) - e
                if k < 0:
                    return None
                if k: d[a] = k
                else: d.pop(a, None)
            nm = tuple(sorted(d.items()))
            if nm in r:
                return None
            r[nm] = rem[m] / (3 * c * c)
        return None

    def angle_of(self, y, x):
        """the angle w with y = k sin w, x = k cos w, k > 0, when these are plain sine and cosine atoms and -pi < w < pi"""
        if y[1] != x[1] or len(y[0]) != 1 or len(x[0]) != 1:
            return None
        (my, cy), = y[0].items()
        (mx, cx), = x[0].items()
        ry, rx = set(my) - set(mx), set(mx) - set(my)
        if abs(cy) != cx or len(ry) != 1 or len(rx) != 1:
            return None
        (ay, ey), (ax, ex) = ry.pop(), rx.pop()
        if ey != 1 or ex != 1 or self.partner.get(ay) != ax or self.atoms[ay].kind != 'sin' or self.atoms[ay].data is None:
            return None
        if y[1] and self.pinterval(self.denpoly(y[1]))[0] <= 0:
            return None
        for a, e in my:
            if (a, e) != (ay, ey) and e % 2 and not self.atoms[a].lo > 0:
                return None
        w = self.atoms[ay].data
        if cy < 0:
            w = self.pscale(w, Fraction(-1))
        lo, hi = self.pinterval(w)
        return (w, ()) if lo > -math.pi and hi < math.pi else None

    # -------------------------------------------------- terms
    def key(self, r):
        return (tuple(sorted(r[0].items())), r[1])

    def nf(self, x):
        if isc(x):
            if isinstance(x, float) and (x != x or math.isinf(x)):
                raise ValueError('non-finite constant')
            return self.rconst(t.frac(x))
        got = self.memo.get(x.id)
        if got is not None:
            return got
        # iterative post-order to avoid deep recursion
        stack = [x]
        while stack:
            y = stack[-1]
            if y.id in self.memo:
                stack.pop()
                continue
            kids = [z for z in y.a if isinstance(z, T) and z.id not in self.memo] if y.op not in ('var', 'fc', 'f2i', 'ifdiv', 'ifdivx', 'rfloor',
                    'isdiv', 'b2i') else []
            if kids:
                stack.extend(kids)
                continue
            r = self._nf(y)
            if self.cuts and r[0]:
                r = self.cutsimp(r)
            if self.zeros:
                r = self.zsimp(r)
            self.memo[y.id] = r
            stack.pop()
        return self.memo[x.id]

    def assume_zero(self, terms):
        """terms known to vanish: later normal forms drop them, and their squares under square roots"""
        ps = []
        for x in terms:
            try:
                p = self.nf(x)[0]
                if p and not (len(p) == 1 and () in p) and len(p) <= 400:
                    ps.append((p, self.pmul(p, p)))
            except (ValueError, ZeroDivisionError, TooBig):
                pass
        self.zeros = [p for p, s in ps]
        self.zsq = [s for p, s in ps]
        if ps:
            self.memo.clear()
        return bool(ps)

    def cut(self, x):
        """represent the value of x by one unknown within its interval (a sound generalisation: the definition is dropped)"""
        r = self.nf(x)
        if self.is_const(r):
            return
        if not r[1] and len(r[0]) == 1:
            (m, c), = r[0].items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind in ('var', 'cut'):
                return
        k = self.key(r)
        if k in self.cuts:
            return
        lo, hi = self.rinterval(r)
        w = 1e-12 * max(abs(lo), abs(hi))
        y = x.a[0] if isinstance(x, T) and x.op == 'i2f' else x
        if isinstance(y, T) and y.lo is not None and y.hi is not None and y.lo >= lo and y.hi <= hi:
            lo, hi = float(y.lo), float(y.hi)
            w = 1e-15 * max(abs(lo), abs(hi)) if max(abs(lo), abs(hi)) > 2 ** 50 else 0.0
        a = self.atom('cut', k, lo - w, hi + w)
        self.cuts[k] = (a, r)
        self.memo.clear()

    def cutsimp(self, r):
        n = len(r[0])
        got = self.cuts.get(self.key(r))
        if got:
            return self.pvar(got[0]), ()
        if self.is_const(r) or n < 2:
            return r
        for k, (a, c) in self.cuts.items():
            if r[1] != c[1] or abs(n - len(c[0])) > 2:
                continue
            m = max(c[0])
            k = r[0].get(m)
            if k is not None and m != () and len(c[0]) > 1 and not r[1]:
                k = k / c[0][m]
                d = self.padd(r[0], self.pscale(c[0], -k))
                if not d or (len(d) == 1 and () in d):
                    d = dict(d)
                    d[((a.id, 1),)] = k
                    return (d, ())
            for sg in (1, -1):
                d = self.padd(r[0], self.pscale(c[0], F1 * -sg))
                if not d:
                    return ({((a.id, 1),): F1 * sg}, ())
                if len(d) <= n and not r[1]:
                    lo, hi = self.pinterval(d)
                    if hi - lo < 1e-12 and max(abs(lo), abs(hi)) < 1e-12:
                        e = self.atom('eps', ('cut', self.key((d, ()))), lo - 1e-30, hi + 1e-30)
                        return ({((a.id, 1),): F1 * sg, ((e.id, 1),): F1}, ())
        return r

    def zsimp(self, r):
        n = r[0]
        for p in self.zeros:
            if len(n) == len(p) and n.keys() == p.keys():
                m = next(iter(p))
                f = n[m] / p[m]
                if all(n[k] == f * p[k] for k in p):
                    return self.rconst(F0)
        return r

    def _nf(self, x):
        op = x.op
        a = x.a
        if op == 'fc':
            if a[0] != a[0] or math.isinf(a[0]):
                raise ValueError('non-finite constant')
            return self.rconst(Fraction(a[0]))
        if op == 'var':
            if a[0] in self.subst:
                return self.rconst(self.subst[a[0]])
            lo = -math.inf if x.lo is None else float(x.lo)
            hi = math.inf if x.hi is None else float(x.hi)
            at = self.atom('var', a[0], lo, hi, a[0], isint=(x.ty == 'int' or x.ty[0] == 'i'), data=x)
            return (self.pvar(at), ())
        if op == 'ilin':
            p = {(): Fraction(a[0])} if a[0] else {}
            r = (p, ())
            for i in range(1, len(a), 2):
                r = self.radd(r, self.rmul(self.rconst(Fraction(a[i])), self.nf(a[i + 1])))
            return r
        if op == 'fadd':
            return self.radd(self.nf(a[0]), self.nf(a[1]))
        if op == 'fsub':
            return self.rsub(self.nf(a[0]), self.nf(a[1]))
        if op in ('fmul', 'imul'):
            return self.rmul(self.nf(a[0]), self.nf(a[1]))
        if op == 'fdiv':
            d = self.nf(a[1])
            if not d[0]:
                raise ZeroDivisionError
            return self.rmul(self.nf(a[0]), self.rinv(d))
        if op == 'fneg':
            return self.rneg(self.nf(a[0]))
        if op in ('fconv', 'i2f'):
            return self.nf(a[0])
        if op == 'sin':
            return self.sincos(self.nf(a[0]))[0]
        if op == 'cos':
            return self.sincos(self.nf(a[0]))[1]
        if op == 'tan':
            s, c = self.sincos(self.nf(a[0]))
            return self.rmul(s, self.rinv(c))
        if op == 'sqrt':
            return self.rsqrt(self.nf(a[0]))
        if op == 'abs':
            return self.rabs(self.nf(a[0]))
        if op in ('atan2', 'atan'):
            y = self.nf(a[0])
            xx = self.nf(a[1]) if op == 'atan2' else self.rconst(F1)
            if self.is_const(y) and self.is_const(xx):
                return self.rconst(exact_math('atan2', [self.cval(y), self.cval(xx)]))
            w = self.angle_of(y, xx)
            if w is not None:
                return w
            lo, hi = -math.pi, math.pi
            yl, yh = self.rinterval(y)
            xl, xh = self.rinterval(xx)
            if yl >= 0: lo = 0.0
            if yh < 0: hi = 0.0
            if xl >= 0:
                lo, hi = max(lo, -math.pi / 2), min(hi, math.pi / 2)
            at = self.atom('atan2', (self.key(y), self.key(xx)), lo, hi, data={'y': y, 'x': xx})
            return (self.pvar(at), ())
        if op in ('asin', 'acos'):
            v = self.nf(a[0])
            if self.is_const(v):
                e = exact_math(op, [self.cval(v)])
                if e is None:
                    raise ValueError(op + ' domain')
                return self.rconst(e)
            at = self.atom(op, self.key(v), -math.pi / 2 if op == 'asin' else 0.0, math.pi / 2 if op == 'asin' else math.pi,
                           data={'v': v})
            return (self.pvar(at), ())
        if op in ('fmod', 'remainder'):
            y, m = self.nf(a[0]), self.nf(a[1])
            if not self.is_const(m):
                raise ValueError('fmod by non-constant')
            if self.is_const(y) and op == 'fmod':
                return self.rconst(exact_math('fmod', [self.cval(y), self.cval(m)]))
            lo, hi = self.rinterval(y)
            am = abs(float(self.cval(m)))
            b = max(abs(lo), abs(hi)) / am
            if op == 'fmod' and b < 1 - 1e-12:
                return y
            b = math.floor(b + 1e-9) + 0.25 if op == 'fmod' and b < 1e9 else b + 1
            at = self.atom('fmodk', (self.key(y), self.cval(m)), -b, b, isint=True, data={'y': y, 'm': self.cval(m), 'op': op})
            return self.radd(y, (self.pscale(self.pvar(at), -self.cval(m)), ()))
        if op in ('trunc', 'round', 'floor', 'ceil'):
            y = self.nf(a[0])
            if self.is_const(y):
                return self.rconst(exact_math(op, [self.cval(y)]))
            whole = {}
            if op != 'trunc' and not y[1]:      # integer atoms with a coefficient next to an integer: take the whole part out
                for m, c in y[0].items():
                    if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].isint and round(c) != 0 and abs(c - round(c)) < Fraction(1, 1000):
                        whole[m] = Fraction(round(c))
                if whole:
                    y = self.radd(y, (self.pscale(whole, Fraction(-1)), ()))
                    op = 'near' if op == 'round' else op
            lo, hi = self.rinterval(y)
            if whole and op == 'near' and -0.499999 < lo and hi < 0.499999:
                return (whole, ())
            if op == 'round' and max(abs(lo), abs(hi)) < 1e6 and math.floor(lo - 1e-9 + 0.5) == math.floor(hi + 1e-9 + 0.5):
                return self.rconst(Fraction(math.floor(lo + 0.5)))
            at = self.atom('rnd', (op, self.key(y)), lo - 1, hi + 1, isint=True, data={'y': y, 'op': op})
            r = (self.pvar(at), ())
            return self.radd(r, (whole, ())) if whole else r
        if op == 'f2i':
            inner = a[0]
            y = self.nf(inner)
            if self.is_const(y):
                return self.rconst(Fraction(int(self.cval(y))))
            if inner.op in ('trunc', 'round', 'floor', 'ceil'):
                return y
            lo, hi = self.rinterval(y)
            at = self.atom('rnd', ('trunc', self.key(y)), lo - 1, hi + 1, isint=True, data={'y': y, 'op': 'trunc'})
            return (self.pvar(at), ())
        if op in ('ifdiv', 'isdiv', 'ifdivx', 'rfloor', 'b2i'):
            lo = -math.inf if x.lo is None else float(x.lo)
            hi = math.inf if x.hi is None else float(x.hi)
            at = self.atom('iterm', x.id, lo, hi, isint=True, data=x)
            return (self.pvar(at), ())
        if op == 'pow':
            b, e = self.nf(a[0]), self.nf(a[1])
            if self.is_const(e):
                ev = self.cval(e)
                if ev.denominator == 1 and abs(ev) <= 12:
                    r = self.rconst(F1)
                    for _ in range(abs(int(ev))):
                        r = self.rmul(r, b)
                    return r if ev >= 0 else self.rinv(r)
                if ev == Fraction(1, 2):
                    return self.rsqrt(b)
                if abs(ev - Fraction(1, 3)) < Fraction(1, 10 ** 15):
                    return self.cbrt_pos(b)
            if self.is_const(b) and self.is_const(e):
                v = exact_math('pow', [self.cval(b), self.cval(e)])
                if v is not None:
                    return self.rconst(v)
            lo, hi = self.rinterval(b)
            at = self.atom('pow', (self.key(b), self.key(e)), 0.0 if lo >= 0 else -math.inf, math.inf, data={'b': b, 'e': e})
            return (self.pvar(at), ())
        if op == 'cbrt':
            return self.cbrt_pos(self.nf(a[0]))
        if op in ('exp', 'log', 'log10', 'sinh', 'cosh', 'tanh', 'log2', 'exp2'):
            v = self.nf(a[0])
            if self.is_const(v):
                e = exact_math(op, [self.cval(v)])
                if e is not None:
                    return self.rconst(e)
            lo, hi = -math.inf, math.inf
            if op == 'exp':
                l, h = self.rinterval(v)
                lo = math.exp(l) if -700 < l < 700 else 0.0
                hi = math.exp(h) if h < 700 else math.inf
            elif op in ('log', 'log10', 'log2'):
                l, h = self.rinterval(v)
                g = getattr(math, op)
                if l > 0: lo = g(l) - 1e-15 * (1 + abs(g(l)))
                if 0 < h < math.inf: hi = g(h) + 1e-15 * (1 + abs(g(h)))
            at = self.atom(op, self.key(v), lo, hi, data={'v': v})
            return (self.pvar(at), ())
        raise ValueError('no real meaning for ' + op)

    def cbrt_pos(self, v):
        if self.is_const(v):
            c = self.cval(v)
            if c >= 0:
                return self.rconst(q(mpmath.cbrt(mpf(c))))
            return self.rconst(-q(mpmath.cbrt(mpf(-c))))
        n = self.poly_cbrt(v[0])
        if n is not None:
            if not v[1]:
                return (n, ())
            d = self.poly_cbrt(self.denpoly(v[1]))
            if d is not None:
                return self.rmul((n, ()), self.rinv((d, ())))
        lo, hi = self.rinterval(v)
        at = self.atom('cbrt', self.key(v), 0.0 if lo >= 0 else -math.inf, math.inf, data={'v': v})
        return (self.pvar(at), ())
