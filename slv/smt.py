"""Translation to z3 and the decision procedure for one obligation."""
import math, time, subprocess, shutil, re
from fractions import Fraction
import z3
from . import term as t
from .term import T, isc
from .real import NF, TooBig, F0, F1

STATS = dict(queries=0, time=0.0, unsat=0, sat=0, unknown=0)


def zq(fr):
    fr = t.frac(fr)
    return z3.RealVal(str(fr.numerator)) / z3.RealVal(str(fr.denominator)) if fr.denominator != 1 else z3.RealVal(str(fr.numerator))


def zf(x):
    """float bound -> exact z3 real"""
    fr = Fraction(x)
    return z3.Q(fr.numerator, fr.denominator)


def composite(a):
    """square roots and sums of squares: their vanishing is already recorded for their parts"""
    def sq(y):
        if not isinstance(y, T):
            return isc(y) and y == 0
        if y.op == 'fc':
            return y.a[0] == 0
        if y.op == 'fmul':
            return y.a[0] is y.a[1]
        return y.op == 'fadd' and sq(y.a[0]) and sq(y.a[1])
    while a.op in ('fconv', 'fneg') and isinstance(a.a[0], T):
        a = a.a[0]
    return a.op == 'sqrt' or sq(a)


def zero_terms(pc):
    zs = []
    for c in pc:
        if isinstance(c, T) and c.op == 'feq':
            a, b = c.a
            if isc(a):
                a, b = b, a
            if isinstance(a, T) and a.op != 'var' and ((isc(b) and b == 0) or (isinstance(b, T) and b.op == 'fc' and b.a[0] == 0)):
                if not composite(a):
                    zs.append(a)
    return zs


class Z:
    """one translation context"""

    def __init__(self, nf):
        self.nf = nf
        self.av = {}
        self.side = []
        self.iv = {}
        self.done = set()

    def atomvar(self, at):
        v = self.av.get(at.id)
        if v is None:
            if at.kind == 'var' and at.isint:
                v = self.intvar(at.data)
                self.av[at.id] = z3.ToReal(v)
                return self.av[at.id]
            if at.kind == 'iterm':
                v = self.zint(at.data)
                self.av[at.id] = z3.ToReal(v)
                return self.av[at.id]
            if at.isint:
                iv = z3.Int('k_%d' % at.id)
                v = z3.ToReal(iv)
            else:
                v = z3.Real('a_%d' % at.id if at.kind != 'var' else 'v_' + at.name)
            self.av[at.id] = v
            if not math.isinf(at.lo):
                self.side.append(v >= zf(at.lo))
            if not math.isinf(at.hi):
                self.side.append(v <= zf(at.hi))
            self.define(at, v)
        return v

    def define(self, at, v):
        nf = self.nf
        k = at.kind
        S = self.side
        if k == 'cos' or k == 'sin':
            p = nf.partner.get(at.id)
            if p is not None and p in self.av:
                w = self.av[p]
                S.append(v * v + w * w == 1)
        elif k in ('sqrt', 'abs'):
            S.append(v >= 0)
            S.append(v * v == self.zpoly(at.rel))
        elif k == 'fmodk':
            y = at.data['y']
            m = at.data['m']
            yz = self.zrat(y)
            if at.data['op'] == 'fmod':
                am = abs(m)
                r = yz - v * zq(m)
                S.append(z3.Implies(yz >= 0, z3.And(r >= 0, r < zq(am))))
                S.append(z3.Implies(yz < 0, z3.And(r <= 0, r > -zq(am))))
            else:
                r = yz - v * zq(m)
                S.append(z3.And(r <= zq(abs(m) / 2), r >= -zq(abs(m) / 2)))
        elif k == 'rnd':
            yz = self.zrat(at.data['y'])
            o = at.data['op']
            if o == 'floor':
                S.append(z3.And(v <= yz, yz < v + 1))
            elif o == 'ceil':
                S.append(z3.And(v >= yz, yz > v - 1))
            elif o == 'trunc':
                S.append(z3.If(yz >= 0, z3.And(v <= yz, yz < v + 1), z3.And(v >= yz, yz > v - 1)))
            elif o == 'near':
                S.append(z3.And(v - z3.Q(1, 2) <= yz, yz <= v + z3.Q(1, 2)))
            else:
                h = z3.Q(1, 2)
                S.append(z3.If(yz >= 0, z3.And(v - h <= yz, yz < v + h), z3.And(v - h < yz, yz <= v + h)))
        elif k == 'atan2':
            y, x = self.zrat(at.data['y']), self.zrat(at.data['x'])
            pl, ph = zf(math.pi), zf(math.nextafter(math.pi, 4))
            S.append(z3.Implies(y > 0, z3.And(v > 0, v < ph)))
            S.append(z3.Implies(y < 0, z3.And(v < 0, v > -ph)))
            S.append(z3.Implies(z3.And(y == 0, x > 0), v == 0))
            S.append(z3.Implies(z3.And(y == 0, x < 0), z3.And(v >= pl, v <= ph)))
            S.append(z3.Implies(x > 0, z3.And(v <= ph / 2, v >= -ph / 2)))
            S.append(z3.Implies(z3.And(x < 0, y > 0), v >= pl / 2))
            S.append(z3.Implies(z3.And(x < 0, y < 0), v <= -pl / 2))
        elif k == 'asin':
            w = self.zrat(at.data['v'])
            S.append(z3.And(z3.Implies(w > 0, v > 0), z3.Implies(w < 0, v < 0), z3.Implies(w == 0, v == 0)))
        elif k == 'cbrt':
            w = self.zrat(at.data['v'])
            S.append(v * v * v == w)
        elif k == 'exp':
            w = self.zrat(at.data['v'])
            S.append(v > 0)
            S.append(v >= 1 + w)
        elif k == 'pow':
            b = self.zrat(at.data['b'])
            S.append(z3.Implies(b > 0, v > 0))

    def zmono(self, m):
        r = None
        for a, e in m:
            v = self.atomvar(self.nf.atoms[a])
            for _ in range(e):
                r = v if r is None else r * v
        return r

    def zpoly(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            if m == ():
                ts.append(zq(c))
            else:
                ts.append(zq(c) * self.zmono(m) if c != 1 else self.zmono(m))
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def zrat(self, r):
        if not r[1]:
            return self.zpoly(r[0])
        # fresh quotient
        d = self.zpoly(self.nf.denpoly(r[1]))
        n = self.zpoly(r[0])
        key = ('rat', self.nf.key(r))
        v = self.iv.get(key)
        if v is None:
            v = z3.Real('q_%d' % len(self.iv))
            self.iv[key] = v
            self.side.append(z3.Implies(d != 0, v * d == n))
        return v

    def zmono_lin(self, m):
        """a monomial as an unknown of its own, within its interval"""
        v = self.iv.get(('lin', m))
        if v is None:
            v = z3.Real('l_%d' % len(self.iv))
            self.iv[('lin', m)] = v
            lo, hi = self.nf.minterval(m)
            if lo > -math.inf:
                self.side.append(v >= zf(lo))
            if hi < math.inf:
                self.side.append(v <= zf(hi))
        return v

    # ---------------------------------------------- ints
    def intvar(self, x):
        v = self.iv.get(x.id)
        if v is None:
            v = z3.Int('v_' + x.a[0])
            self.iv[x.id] = v
            if x.lo is not None:
                self.side.append(v >= x.lo)
            if x.hi is not None:
                self.side.append(v <= x.hi)
        return v

    def zint(self, x):
        if isc(x):
            return z3.IntVal(int(x))
        v = self.iv.get(('e', x.id))
        if v is not None:
            return v
        op, a = x.op, x.a
        if op == 'var':
            r = self.intvar(x)
        elif op == 'ilin':
            ts = [z3.IntVal(a[0])] if a[0] else []
            for i in range(1, len(a), 2):
                v = self.zint(a[i + 1])
                ts.append(v if a[i] == 1 else a[i] * v)
            r = ts[0] if len(ts) == 1 else z3.Sum(ts)
        elif op == 'rfloor':
            r = z3.Int('fl_%d' % x.id)
            y = self.zrat(self.nf.nf(a[0]))
            self.side += [z3.ToReal(r) <= y, y < z3.ToReal(r) + 1]
        elif op == 'ifdiv':
            n = self.zint(a[0])
            r = z3.Int('dv_%d' % x.id)
            self.side += [a[1] * r <= n, n < a[1] * r + a[1]]
            if x.lo is not None: self.side.append(r >= x.lo)
            if x.hi is not None: self.side.append(r <= x.hi)
        elif op == 'imul':
            r = self.zint(a[0]) * self.zint(a[1])
        elif op in ('ifdivx', 'isdiv'):
            n, d = self.zint(a[0]), self.zint(a[1])
            if op == 'isdiv':
                if isc(a[1]) and a[1] > 0:
                    qd = z3.If(n >= 0, n / d, -((-n) / d))
                else:
                    ad = z3.If(d >= 0, d, -d)
                    an = z3.If(n >= 0, n, -n)
                    qd = z3.If((n >= 0) == (d >= 0), an / ad, -(an / ad))
                r = qd
            else:
                raise ValueError('int op with non-constant divisor')
        elif op == 'b2i':
            r = z3.If(self.zbool(a[0]), z3.IntVal(1), z3.IntVal(0))
        elif op == 'f2i':
            rr = self.nf.nf(x)
            if self.nf.is_const(rr):
                r = z3.IntVal(int(self.nf.cval(rr)))
            elif not rr[1] and len(rr[0]) == 1:
                (m, c), = rr[0].items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and self.nf.atoms[m[0][0]].isint:
                    self.atomvar(self.nf.atoms[m[0][0]])
                    at = self.nf.atoms[m[0][0]]
                    if at.kind == 'rnd' or at.kind == 'fmodk':
                        r = z3.Int('k_%d' % at.id)
                    else:
                        r = self.zint(at.data)
                else:
                    r = z3.ToInt(self.zrat(rr))
            else:
                r = z3.ToInt(self.zrat(rr))
        else:
            raise ValueError('int op ' + op)
        self.iv[('e', x.id)] = r
        return r

    # ---------------------------------------------- bools
    def zpc(self, pc):
        """path condition; several quantities known to vanish also give: the (normalised) sum of their squares vanishes"""
        cs = [self.zbool(c) for c in pc]
        zs = zero_terms(pc)
        if len(zs) > 1:
            try:
                q = None
                for a in zs[:8]:
                    r = self.nf.nf(a)
                    r = self.nf.rmul(r, r)
                    q = r if q is None else self.nf.radd(q, r)
                cs.append(self.zpoly(q[0]) == 0)
            except (ValueError, ZeroDivisionError, RecursionError, TooBig):
                pass
        return cs

    def zbool(self, b):
        if isc(b):
            return z3.BoolVal(bool(b))
        op, a = b.op, b.a
        if op == 'not':
            return z3.Not(self.zbool(a[0]))
        if op == 'and':
            return z3.And([self.zbool(x) for x in a])
        if op == 'or':
            return z3.Or([self.zbool(x) for x in a])
        if op == 'ilt':
            return self.zint(a[0]) < self.zint(a[1])
        if op == 'ile':
            return self.zint(a[0]) <= self.zint(a[1])
        if op == 'ieq':
            return self.zint(a[0]) == self.zint(a[1])
        if op in ('flt', 'fle', 'feq'):
            for i in (0, 1):
                if isinstance(a[i], float) and math.isinf(a[i]):
                    pos = a[i] > 0
                    return z3.BoolVal((pos if i == 1 else not pos) and op != 'feq')
            r = self.nf.rsub(self.nf.nf(a[0]), self.nf.nf(a[1]))
            return self.cmp0(op, r)
        if op == 'var':
            v = self.iv.get(b.id)
            if v is None:
                v = z3.Bool('v_' + a[0])
                self.iv[b.id] = v
            return v
        raise ValueError('bool op ' + op)

    def cmp0(self, op, r):
        n = self.zpoly(r[0])
        if r[1] and op != 'feq':
            s = 1
            odd = []
            for pid, e in r[1]:
                p = self.nf.plist[pid]
                if e % 2:
                    sg = self.nf.psign(p)
                    if sg == 0:
                        odd.append(p)
                    else:
                        s *= sg
            for p in odd:
                n = n * self.zpoly(p)
            if s < 0:
                n = -n
        return n < 0 if op == 'flt' else n <= 0 if op == 'fle' else n == 0


def contains_nonlinear(p):
    for m in p:
        if sum(e for _, e in m) > 1:
            return True
    return False


CVC5 = shutil.which('cvc5') or '/usr/local/bin/cvc5'


def _z3(asserts, tmo, opts=()):
    s = z3.Solver()
    s.set('timeout', int(max(tmo, 1)))
    for k, v in opts:
        s.set(k, v)
    s.add(asserts)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    return str(r), s


def _cvc5(s, tmo):
    """second solver: the same query as SMT-LIB text; any error line makes it inconclusive"""
    txt = '(set-logic ALL)\n(set-option :produce-models true)\n' + s.to_smt2() + '\n(get-model)\n'
    try:
        p = subprocess.run([CVC5, '--lang=smt2', '--tlimit=%d' % int(tmo), '-'], input=txt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=tmo / 1000 + 5)
    except (subprocess.TimeoutExpired, OSError):
        return 'unknown', None
    o = p.stdout
    first = o.split('\n', 1)[0].strip()
    if first == 'unsat':
        return 'unsat', None
    if first == 'sat' and '(error' not in o:
        vals = {}
        for nm, ty, v in re.findall(r'\(define-fun (\S+) \(\) (Int|Bool|Real) (.*)\)\n', o):
            vals[nm.strip('|')] = (ty, v)
        return 'sat', vals
    return 'unknown', None


def _val(v):
    v = v.replace('(', ' ( ').replace(')', ' ) ').split()

    def p(i):
        if v[i] == '(':
            op = v[i + 1]
            j = i + 2
            xs = []
            while v[j] != ')':
                x, j = p(j)
                xs.append(x)
            return (-xs[0] if op == '-' and len(xs) == 1 else xs[0] / xs[1] if op == '/' else xs[0]), j + 1
        return Fraction(v[i]), i + 1
    return p(0)[0]


def check(asserts, timeout_ms, want_model=True, tactic=None):
    """portfolio: z3 briefly, cvc5, z3's older arithmetic core, z3 for the whole budget"""
    t0 = time.time()
    short = min(timeout_ms, 1500)
    r, s = _z3(asserts, short)
    if r == 'unknown' and timeout_ms > short:
        r2, vals = _cvc5(s, timeout_ms)
        if r2 == 'unsat':
            r = 'unsat'
        elif r2 == 'sat':
            eqs = []
            try:
                for nm, (ty, v) in vals.items():
                    if ty == 'Int': eqs.append(z3.Int(nm) == int(_val(v)))
                    elif ty == 'Real': eqs.append(z3.Real(nm) == zq(_val(v)))
                    else: eqs.append(z3.Bool(nm) == (v.strip() == 'true'))
                r3, s3 = _z3(list(asserts) + eqs, 3000)
                if r3 == 'sat':
                    r, s = r3, s3
            except Exception:
                pass
        if r == 'unknown':
            r, s = _z3(asserts, timeout_ms / 2, (('arith.solver', 2),))
        if r == 'unknown':
            r, s = _z3(asserts, timeout_ms)
    dt = time.time() - t0
    STATS['queries'] += 1
    STATS['time'] += dt
    STATS[r] += 1
    m = None
    if r == 'sat' and want_model:
        m = s.model()
    return r, m


def model_inputs(Zc, m, inputs):
    """float/int assignment for harness inputs from a z3 model; angles recovered from their sin/cos atoms"""
    out = {}
    nf = Zc.nf
    for name, x in inputs.items():
        if x.ty == 'b':
            v = Zc.iv.get(x.id)
            out[name] = bool(z3.is_true(m.eval(v, model_completion=True))) if v is not None else False
            continue
        isint = x.ty == 'int' or (x.ty[0] == 'i')
        if isint:
            v = Zc.iv.get(x.id)
            if v is not None:
                out[name] = m.eval(v, model_completion=True).as_long()
            continue
        if name in nf.subst:
            out[name] = float(nf.subst[name])
            continue
        at = nf.index.get(('var', name))
        if at is None:
            continue
        v = Zc.av.get(at.id)
        val = None
        if v is not None:
            val = _num(m.eval(v, model_completion=True))
        ang = None
        for b, k in nf.angbase.get(((at.id, 1),), []):
            sa, ca = nf.index.get(('sin', k)), nf.index.get(('cos', k))
            if sa is not None and ca is not None and (sa.id in Zc.av or ca.id in Zc.av):
                sv = _num(m.eval(Zc.av[sa.id], model_completion=True)) if sa.id in Zc.av else None
                cv = _num(m.eval(Zc.av[ca.id], model_completion=True)) if ca.id in Zc.av else None
                if sv is None:
                    sv = math.sqrt(max(0.0, 1 - cv * cv))
                if cv is None:
                    cv = math.sqrt(max(0.0, 1 - sv * sv))
                ang = math.atan2(sv, cv) / float(b)
                per = 2 * math.pi / float(b)
                lo, hi = at.lo, at.hi
                if val is not None and abs(math.sin(val * float(b)) - sv) < 1e-9 and abs(math.cos(val * float(b)) - cv) < 1e-9:
                    ang = val
                else:
                    k0 = 0
                    if val is not None and math.isfinite(val):
                        k0 = round((val - ang) / per)
                    cand = [ang + per * (k0 + d) for d in (0, 1, -1, 2, -2)] + [ang + per * d for d in (0, 1, -1)]
                    cand = [c for c in cand if lo - 1e-12 <= c <= hi + 1e-12] or [ang]
                    ang = cand[0]
                break
        if ang is not None:
            out[name] = ang
        elif val is not None:
            out[name] = val
    return out


def _num(v):
    try:
        if z3.is_int_value(v):
            return float(v.as_long())
        if z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_algebraic_value(v):
            a = v.approx(30)
            return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    except OverflowError:
        return math.inf
    return 0.0
