"""Sexagesimal decomposition (C04) and composition (C05)."""
from ..engine import H

TWOPI = 6.283185307179586476925287
AS2R = 0.484813681109535994e-5
# function -> (float?, units of seconds per unit of the argument)
DEC = {'dd2tf': (False, 86400.0), 'cd2tf': (True, 86400.0), 'dr2tf': (False, 86400.0 / TWOPI), 'cr2tf': (True, 86400.0 / TWOPI),
       'dr2af': (False, 1296000.0 / TWOPI), 'cr2af': (True, 1296000.0 / TWOPI)}


def fields(E, r):
    return r[0], r[1], r[2], r[3], r[4]


def mk_dec(fn, ndp, span, anyneg=False):
    f32, k = DEC[fn]

    def f(E):
        nd = E.int('ndp', -2000000000, -1) if anyneg else ndp
        n = max(ndp, 0) if not anyneg else 0
        sc = 10 ** n
        x = E.real('x', -span, span, f32=f32)
        r = E.buf('iiiib', None, 'result')
        E.call(fn, nd, x, r)
        h, m, s, fr, sg = fields(E, r)
        E.claim('hours (degrees) non-negative', E.ge(h, 0))
        E.claim('minutes in 0..59', E.and_(E.ge(m, 0), E.le(m, 59)))
        E.claim('seconds in 0..59', E.and_(E.ge(s, 0), E.le(s, 59)))
        E.claim('fraction has the requested number of digits', E.and_(E.ge(fr, 0), E.le(fr, sc - 1)))
        E.claim('sign is + exactly for non-negative arguments', E.beq(sg, E.ge(x, 0)))
        N = E.toreal((h * 3600 + m * 60 + s) * sc + fr)
        ax = x if E.true(E.ge(x, 0)) else -x
        v = ax * E.const(k * sc)
        rel = 1.5e-7 if f32 else 6e-16
        E.leq('fields are the argument rounded to the nearest unit (not above)', N - v, 0.5 + 1e-3 + 0 * N, slack=0.0 if rel == 0 else rel * span * k * sc)
        E.leq('fields are the argument rounded to the nearest unit (not below)', v - N, 0.5 + 1e-3 + 0 * N, slack=rel * span * k * sc)
        # relative accuracy near zero: small arguments are not absorbed by the span-wide slack
        if f32:
            E.leq('small arguments exact to rounding', E.abs(N - v), 0.5 + 1e-3 + v * 2e-7)
    return f


def mk_tie(fn, ndp):
    """exact halves round away from zero (checked in exact arithmetic)"""
    f32, k = DEC[fn]

    def f(E):
        sc = 10 ** ndp
        q = E.int('units', 0, 86400 * sc * 3)
        # days whose scaled value is exactly representable: multiples of 1/86400 are not, so use exact reals only
        x = (E.toreal(q) + E.const(0.5)) / E.const(86400 * sc)
        r = E.buf('iiiib', None, 'result')
        E.call(fn, ndp, x, r)
        h, m, s, fr, sg = fields(E, r)
        N = (h * 3600 + m * 60 + s) * sc + fr
        if E.sym:
            E.claim('a half unit rounds up in magnitude', E.eq(N, q + 1))
        else:
            E.claim('a half unit rounds to a neighbour', E.or_(E.eq(N, q), E.eq(N, q + 1)))
    return f


def mk_roundtrip(ndp):
    """fields -> interval -> fields"""
    def f(E):
        sc = 10 ** ndp
        h, m, s, fr = E.int('h', 0, 23), E.int('m', 0, 59), E.int('s', 0, 59), E.int('f', 0, sc - 1)
        d = E.buf('d', None, 'days')
        st = E.call('dtf2d', h, m, E.toreal(s) + E.toreal(fr) / E.const(sc), d)
        E.claim('accepted', E.eq(st, 0))
        r = E.buf('iiiib', None, 'result')
        E.call('dd2tf', ndp, d[0], r)
        E.claim('fields come back', E.and_(E.eq(r[0], h), E.eq(r[1], m), E.eq(r[2], s), E.eq(r[3], fr)))
    return f


def harnesses_c04(tier):
    hs = []
    for fn, (f32, k) in DEC.items():
        span = 40.0 if 'd2' in fn else 250.0 if fn.endswith('tf') else 250.0
        top = (5 if f32 else 9)
        for nd in (range(0, top + 1) if tier == 'thorough' or not f32 else (0, 1, 2, 3, 4)):
            hs.append(H('%s/ndp%d' % (fn, nd), mk_dec(fn, nd, span), bounds='|x| <= %g, ndp = %d' % (span, nd)))
        hs.append(H('%s/ndp<0' % fn, mk_dec(fn, 0, span, True), bounds='|x| <= %g, every negative ndp' % span))
    for nd in (0, 3, 6):
        hs.append(H('dd2tf/half-way/ndp%d' % nd, mk_tie('dd2tf', nd), bounds='exact halves up to 3 days'))
    for nd in ((0, 2, 4) if tier == 'quick' else range(0, 8)):
        hs.append(H('dtf2d then dd2tf/ndp%d' % nd, mk_roundtrip(nd), bounds='all valid fields'))
    return hs


# function -> (float?, first-field limit, unit in radians/days per second, status codes)
COMP = {'dtf2d': (False, 23, 1 / 86400.0), 'ctf2d': (True, 23, 1 / 86400.0), 'dtf2r': (False, 23, TWOPI / 86400.0),
        'ctf2r': (True, 23, TWOPI / 86400.0), 'daf2r': (False, 359, AS2R), 'caf2r': (True, 359, AS2R)}


def mk_comp(fn, big):
    f32, top, k = COMP[fn]
    B = 400 if not big else 100000000

    def f(E):
        a, m = E.int('a', -B, B), E.int('m', -B, B)
        s = E.real('s', -1000 if not big else -1e8, 1000 if not big else 1e8, f32=f32)
        o = E.buf('f' if f32 else 'd', [77.0], 'out')
        st = E.call(fn, a, m, s, o)
        ba = E.or_(E.lt(a, 0), E.gt(a, top))
        bm = E.or_(E.lt(m, 0), E.gt(m, 59))
        bs = E.or_(E.lt(s, 0), E.ge(s, 60))
        E.claim('status is OK exactly when every field is in range', E.beq(E.eq(st, 0), E.not_(E.or_(ba, bm, bs))))
        E.claim('a bad status names a field that is out of range', E.or_(E.eq(st, 0), E.and_(E.eq(st, 1), ba), E.and_(E.eq(st, 2), bm), E.and_(E.eq(st, 3), bs)))
        v = (E.toreal(a * 3600 + m * 60) + s) * E.const(k)
        mx = (B * 3660.0 + (1000 if not big else 1e8)) * k
        rel = 4e-7 if f32 else 4e-15
        E.close('value is computed from the fields, in range or not', o[0], v, mx * rel)
    return f


def mk_comp_ok(fn):
    f32, top, k = COMP[fn]

    def f(E):
        a, m = E.int('a', 0, top), E.int('m', 0, 59)
        s = E.real('s', 0, 59.999996, f32=f32)
        o = E.buf('f' if f32 else 'd', [77.0], 'out')
        st = E.call(fn, a, m, s, o)
        E.claim('accepted', E.eq(st, 0))
        v = (E.toreal(a * 3600 + m * 60) + s) * E.const(k)
        E.close('value', o[0], v, (3e-7 if f32 else 2e-15) * (top + 1) * 3600 * k)
        E.leq('non-negative', 0.0, o[0])
        if not f32:
            E.leq('below a full turn', o[0], (top + 1) * 3600 * k)
    return f


def harnesses_c05(tier):
    hs = []
    for fn in COMP:
        hs.append(H(fn + '/any', mk_comp(fn, False), bounds='fields in +-400, seconds in +-1000'))
        hs.append(H(fn + '/huge', mk_comp(fn, True), bounds='fields in +-1e8, seconds in +-1e8'))
        hs.append(H(fn + '/valid', mk_comp_ok(fn), bounds='all valid fields'))
    return hs


PROPS = {
    'C04': dict(harnesses=harnesses_c04, claim='Every argument in the stated span and every number of decimals 0..9 (0..5 single precision) and below zero.'),
    'C05': dict(harnesses=harnesses_c05, claim='Every combination of integer fields and seconds in the stated boxes.'),
}
