"""Time scales: TAI-UTC, TT-UTC, ET-UT (C06); angle normalisation (C07); Julian and Besselian epochs (C11)."""
from ..engine import H
from .dates import CUM

# (year, month, day): TAI-UTC from that date on, as (constant, reference MJD, rate per day)  -- USNO tai-utc.dat
LEAPS = [((1961, 1, 1), 1.422818, 37300, 0.001296), ((1961, 8, 1), 1.372818, 37300, 0.001296), ((1962, 1, 1), 1.845858, 37665, 0.0011232),
         ((1963, 11, 1), 1.945858, 37665, 0.0011232), ((1964, 1, 1), 3.24013, 38761, 0.001296), ((1964, 4, 1), 3.34013, 38761, 0.001296),
         ((1964, 9, 1), 3.44013, 38761, 0.001296), ((1965, 1, 1), 3.54013, 38761, 0.001296), ((1965, 3, 1), 3.64013, 38761, 0.001296),
         ((1965, 7, 1), 3.74013, 38761, 0.001296), ((1965, 9, 1), 3.84013, 38761, 0.001296), ((1966, 1, 1), 4.31317, 39126, 0.002592),
         ((1968, 2, 1), 4.21317, 39126, 0.002592)]
STEP = [(1972, 1), (1972, 7), (1973, 1), (1974, 1), (1975, 1), (1976, 1), (1977, 1), (1978, 1), (1979, 1), (1980, 1), (1981, 7), (1982, 7),
        (1983, 7), (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1), (1997, 7), (1999, 1), (2006, 1),
        (2009, 1), (2012, 7), (2015, 7), (2017, 1)]


def mjd(y, m, d):
    p = y - 1
    leap = y % 4 == 0 and (y % 100 or y % 400 == 0)
    return 365 * p + p // 4 - p // 100 + p // 400 + CUM[m - 1] + (1 if m > 2 and leap else 0) + d - 678576


TABLE = [(None, 1.417818, 37300, 0.001296)] + [(mjd(*d), c, r, k) for d, c, r, k in LEAPS] + \
        [(mjd(y, m, 1), 10.0 + i, 0, 0.0) for i, (y, m) in enumerate(STEP)]


def mk_dat(i, fn, off):
    lo, c, r, k = TABLE[i]
    a = lo if lo is not None else -100000
    b = TABLE[i + 1][0] if i + 1 < len(TABLE) else 1000000

    def f(E):
        u = E.real('utc', a, b)
        if i + 1 < len(TABLE):
            E.assume(E.lt(u, b))
        v = E.call(fn, u)
        E.close('value of the step in force', v, E.const(c + off) + (u - r) * E.const(k), 1e-9)
    return f


def mk_dtt():
    def f(E):
        u = E.real('utc', -100000, 1000000)
        E.close('TT-UTC is 32.184 s more than TAI-UTC', E.call('dtt', u), E.call('dat', u) + E.const(32.184), 1e-10)
    return f


B1, B2 = 979.0258204760233, 1708.185161980887


def mk_dt(part):
    def f(E):
        lo, hi = {'old': (-3000, B1 - 1e-9), 'mid': (B1 + 1e-9, B2 - 1e-9), 'new': (B2 + 1e-9, 4000)}[part]
        e = E.real('epoch', lo, hi)
        t = (e - 1800) / 100
        v = E.call('dt', e)
        if part == 'new':
            s = 5.156 + 13.3066 * (t - E.const(0.19)) * (t - E.const(0.19))
        elif part == 'mid':
            s = 25.5 * t * t
        else:
            s = 1360.0 + 320.0 * t + 44.3 * t * t
        E.close('published model for the period', v, s, 1e-7)
    return f


def mk_dt_seam(b):
    def f(E):
        h = E.real('h', 0, 1e-6)
        a, c = E.call('dt', E.const(b) - h), E.call('dt', E.const(b) + h)
        E.close('continuous where the models meet', a, c, 1e-5)
    return f


def harnesses_c06(tier):
    hs = []
    for fn, off in (('dat', 0.0), ('dtt', 32.184)):
        for i in range(len(TABLE)):
            hs.append(H('%s/%s' % (fn, TABLE[i][0] or 'before 1961'), mk_dat(i, fn, off), bounds='every instant of the step'))
    hs.append(H('dtt-dat', mk_dtt(), bounds='UTC in MJD -1e5..1e6'))
    for p in ('old', 'mid', 'new'):
        hs.append(H('dt/' + p, mk_dt(p), bounds='epochs -3000..4000'))
    hs.append(H('dt/seam979', mk_dt_seam(B1)))
    hs.append(H('dt/seam1708', mk_dt_seam(B2)))
    return hs


# ------------------------------------------------------------------------------------------------ angle normalisation
def mk_norm(fn, f32, signed, big):
    TP = 6.283185307179586476925287

    def f(E):
        a = E.real('angle', -big, big, f32=f32)
        r = E.call(fn, a)
        eps = 1e-6 if f32 else 1e-15
        if signed:
            E.leq('not above pi', r, TP / 2, eps)
            E.leq('not below -pi', -TP / 2, r, eps)
        else:
            E.leq('not below zero', 0.0, r)
            E.leq('not above 2 pi', r, TP, eps)
            # 2 pi itself is excluded (a tiny negative angle may round to it)
            E.claim('below 2 pi', E.or_(E.lt(a, 0.0), E.lt(r, 6.2831854820251465 if f32 else TP)))
        k = E.round((a - r) / TP)
        tol = (2e-7 if f32 else 3e-16) * big + eps
        E.close('differs from the argument by whole turns', a - k * TP, r, tol if f32 else min(tol, 1e-3), ctol=5 * tol)
    return f


def mk_norm_id(fn, f32, signed):
    """an angle already inside the range is returned unchanged"""
    def f(E):
        P = 3.14159 if signed else 6.28318
        a = E.real('angle', -P if signed else 0.0, P, f32=f32)
        E.same('an angle already in range is unchanged', E.call(fn, a), a)
    return f


def mk_turns(fn, f32):
    def f(E):
        j = E.pick(E.int('log2 of turns', 0, 20))
        s = E.pick(E.int('direction', 0, 1))
        TP = 6.2831854820251465 if f32 else 6.283185307179586
        E.claim('a whole number of turns is zero', E.eq(E.call(fn, (-1.0 if s else 1.0) * 2.0 ** j * TP), 0.0))
    return f


def harnesses_c07(tier):
    hs = []
    for fn, f32, signed in (('range', True, True), ('drange', False, True), ('ranorm', True, False), ('dranrm', False, False)):
        for big in (20.0, 1000.0) + ((1e6, 1e15) if not f32 else (1e6,)):
            hs.append(H('%s/%g' % (fn, big), mk_norm(fn, f32, signed, big), bounds='|angle| <= %g' % big))
        hs.append(H('%s/unchanged' % fn, mk_norm_id(fn, f32, signed), bounds='every angle inside the range'))
        hs.append(H('%s/turns' % fn, mk_turns(fn, f32), bounds='+-2^j turns, j 0..20'))
    return hs


# ------------------------------------------------------------------------------------------------ epochs
JLO, JHI = -1e6, 1e6


def ep_formula(E):
    m = E.real('mjd', JLO, JHI)
    E.close('Julian epoch', E.call('epj', m), 2000 + (m - 51544.5) / 365.25, 1e-9)
    E.close('Besselian epoch', E.call('epb', m), 1900 + (m - E.const(15019.81352)) / E.const(365.242198781), 1e-9)


def ep_back(E):
    y = E.real('epoch', -1000, 4000)
    E.close('MJD of Julian epoch', E.call('epj2d', y), 51544.5 + (y - 2000) * 365.25, 1e-8)
    E.close('MJD of Besselian epoch', E.call('epb2d', y), E.const(15019.81352) + (y - 1900) * E.const(365.242198781), 1e-8)


def ep_round(E):
    m = E.real('mjd', JLO, JHI)
    E.close('Julian epoch round trip', E.call('epj2d', E.call('epj', m)), m, 1e-8)
    E.close('Besselian epoch round trip', E.call('epb2d', E.call('epb', m)), m, 1e-8)
    y = E.real('epoch', -1000, 4000)
    E.close('Julian date round trip', E.call('epj', E.call('epj2d', y)), y, 1e-10)
    E.close('Besselian date round trip', E.call('epb', E.call('epb2d', y)), y, 1e-10)


def mk_epco(a, b):
    def f(E):
        y = E.real('epoch', -1000, 4000)
        v = E.call('epco', ord(a), ord(b), y)
        if a.upper() == b.upper():
            E.same('same type: epoch returned as given', v, y)
        elif a.upper() == 'B':
            E.close('Julian to Besselian', v, 1900 + (51544.5 + (y - 2000) * 365.25 - E.const(15019.81352)) / E.const(365.242198781), 1e-9)
        else:
            E.close('Besselian to Julian', v, 2000 + (E.const(15019.81352) + (y - 1900) * E.const(365.242198781) - 51544.5) / 365.25, 1e-9)
    return f


def epco_bad(E):
    y = E.real('epoch', -1000, 4000)
    a, b = E.int('result', -128, 127), E.int('given', -128, 127)
    good = [ord(c) for c in 'BbJj']
    ga, gb = E.or_(*[E.eq(a, c) for c in good]), E.or_(*[E.eq(b, c) for c in good])
    E.assume(E.and_(E.not_(E.and_(ga, gb)), E.ne(a, b)))
    v = E.call('epco', a, b, y)
    E.claim('an unrecognised letter gives zero', E.eq(v, 0.0))


def harnesses_c11(tier):
    hs = [H('epj, epb', ep_formula, bounds='|MJD| <= 1e6'), H('epj2d, epb2d', ep_back, bounds='epochs -1000..4000'),
          H('epoch round trips', ep_round, bounds='|MJD| <= 1e6'), H('epco/unrecognised letters', epco_bad, bounds='every pair of distinct characters with an unrecognised one')]
    for a in 'BbJj':
        for b in 'BbJj':
            hs.append(H('epco/%s%s' % (a, b), mk_epco(a, b)))
    return hs


PROPS = {
    'C06': dict(harnesses=harnesses_c06, claim='Every instant of every leap-second step (specification: the published table, dates converted independently).'),
    'C07': dict(harnesses=harnesses_c07, claim='Every angle in the stated boxes.'),
    'C11': dict(harnesses=harnesses_c11, claim='Every date and epoch in the stated boxes, every letter pair.'),
}
