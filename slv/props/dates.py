"""Calendar conversions: cldj/caldj (C01), djcl/djcal (C02), clyd/calyd (C03)."""
from ..engine import H

CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
DIM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
I32 = (-2 ** 31, 2 ** 31 - 1)


def is_leap(E, y):
    return E.and_(E.eq(y % 4, 0), E.or_(E.ne(y % 100, 0), E.eq(y % 400, 0)))


def daynum(E, y, m, d):
    """Modified Julian Day number of a proleptic Gregorian date, from the leap-year rule alone (m concrete)"""
    p = y - 1
    n = 365 * p + p // 4 - p // 100 + p // 400 + CUM[m - 1] + d
    if m > 2 and E.true(is_leap(E, y)):
        n = n + 1
    return n - 678576            # 1858 November 17 is day 0


def year400(E, lo, hi):
    """year = 400*cycle + yy: the Gregorian calendar repeats every 400 years"""
    c = E.int('cycle', lo // 400, hi // 400)
    yy = E.int('yy', 0, 399)
    y = 400 * c + yy
    E.assume(E.and_(E.ge(y, lo), E.le(y, hi)))
    return y


def ymd(E, tier):
    y = year400(E, -4699, 200000 if tier == 'quick' else 1400000)
    m = E.pick(E.int('month', 1, 12))
    d = E.int('day', -400, 400)
    return y, m, d


def expected_year(E, fn, y):
    if fn in ('caldj', 'calyd'):
        if E.true(E.and_(E.ge(y, 0), E.le(y, 49))):
            return y + 2000
        if E.true(E.and_(E.ge(y, 50), E.le(y, 99))):
            return y + 1900
    return y


def good_day(E, y, m, d):
    n = DIM[m - 1]
    if m == 2 and E.true(is_leap(E, y)):
        n = 29
    return E.and_(E.ge(d, 1), E.le(d, n))


def mk_cldj(fn, tier):
    def f(E):
        y, m, d = ymd(E, tier)
        o = E.buf('d', [12345.5], 'mjd')
        st = E.call(fn, y, m, d, o)
        ye = expected_year(E, fn, y)
        E.claim('MJD is the Gregorian day count', E.eq(o[0], daynum(E, ye, m, d) * 1))
        ok = good_day(E, ye, m, d)
        E.claim('status is OK exactly when the day exists', E.beq(E.eq(st, 0), ok))
        E.claim('otherwise the status is the bad-day status', E.or_(ok, E.eq(st, 3)))
    return f


def mk_bad(fn, ymin):
    def f(E):
        y, m, d = E.int('year', -2 ** 31, 200000), E.int('month', *I32), E.int('day', -100000, 100000)
        by = E.lt(y, ymin)
        bm = E.or_(E.lt(m, 1), E.gt(m, 12))
        E.assume(E.or_(by, bm))
        if fn.endswith('yd'):
            o = E.buf('ii', [-77, -78], 'out')
            st = E.call(fn, y, m, d, (o, 0), (o, 1))
            E.claim('outputs untouched', E.and_(E.eq(o[0], -77), E.eq(o[1], -78)))
        else:
            o = E.buf('d', [12345.5], 'mjd')
            st = E.call(fn, y, m, d, o)
            E.claim('output untouched', E.eq(o[0], 12345.5))
        E.claim('status names an offending field', E.or_(E.and_(by, E.eq(st, 1)), E.and_(bm, E.eq(st, 2))))
    return f


def mk_djcl(tier):
    def f(E):
        c, r = E.int('cycle', -17, 6844), E.int('r', 0, 146096)     # MJD = 146097*cycle + r + fraction
        fx = E.real('fraction', 0, 0.9999)
        x = E.toreal(146097 * c + r) + fx
        E.assume(E.and_(E.gt(x, -2395520), E.lt(x, 1000000000)))
        date = E.buf('iiiid', None, 'date')
        bad = E.call('djcl', x, date)
        E.claim('accepted', E.not_(bad))
        y, m, d, fr = date[0], date[1], date[2], date[4]
        E.claim('month in range', E.and_(E.ge(m, 1), E.le(m, 12)))
        m = E.pick(m)
        E.leq('fraction non-negative', 0, fr)
        E.leq('fraction at most 1', fr, 1)
        E.claim('the day exists in that month', good_day(E, y, m, d))
        n = daynum(E, y, m, d)
        E.close('day number plus fraction gives back the date', E.toreal(n) + fr, x, 1e-9)
        if E.sym:
            E.claim('fraction below 1 (exact arithmetic)', E.lt(fr, 1))
    return f


def mk_djcal(ndp):
    def f(E):
        c, r = E.int('cycle', -17, 1368), E.int('r', 0, 146096)
        fx = E.real('fraction', 0, 0.9999)
        x = E.toreal(146097 * c + r) + fx
        E.assume(E.and_(E.gt(x, -2395519.5), E.lt(x, 200000000)))
        date = E.buf('iiiid', None, 'date')
        bad = E.call('djcal', ndp, x, date)
        E.claim('accepted', E.not_(bad))
        y, m, d, fr = date[0], date[1], date[2], date[3]
        E.claim('month in range', E.and_(E.ge(m, 1), E.le(m, 12)))
        m = E.pick(m)
        fd = 10 ** max(ndp, 0)
        E.claim('fraction in range', E.and_(E.ge(fr, 0), E.lt(fr, fd)))
        E.claim('the day exists in that month', good_day(E, y, m, d))
        n = daynum(E, y, m, d) * fd + fr
        sl = 0 if E.sym else 1e-3
        E.claim('rounded to the nearest unit', E.or_(E.eq(n, E.round(x * fd)), E.and_(E.le(E.toreal(n) - x * fd, 0.5 + sl), E.le(x * fd - E.toreal(n), 0.5 + sl))))
    return f


def mk_djbad(fn):
    def f(E):
        x = E.real('mjd', -1e15, 1e15)
        E.assume(E.or_(E.le(x, -2395520.0), E.ge(x, 1.0e9)))
        date = E.buf('iiiid', [-7, -8, -9, -10, 0.125], 'date')
        bad = E.call(fn, x, date) if fn == 'djcl' else E.call(fn, 3, x, date)
        E.claim('out-of-range date is reported', bad)
        E.claim('outputs untouched', E.and_(E.eq(date[0], -7), E.eq(date[1], -8), E.eq(date[2], -9), E.eq(date[3], -10)))
    return f


def mk_round(tier):
    """date -> MJD -> date"""
    def f(E):
        y = year400(E, -4699, 200000)
        m = E.pick(E.int('month', 1, 12))
        d = E.int('day', 1, 31)
        E.assume(good_day(E, y, m, d))
        o = E.buf('d', None, 'mjd')
        E.call('cldj', y, m, d, o)
        date = E.buf('iiiid', None, 'date')
        bad = E.call('djcl', o[0], date)
        E.claim('accepted', E.not_(bad))
        E.claim('same date back', E.and_(E.eq(date[0], y), E.eq(date[1], m), E.eq(date[2], d), E.eq(date[4], 0)))
    return f


def mk_clyd_status(fn, tier):
    def f(E):
        y = year400(E, -4711, 200000 if tier == 'quick' else 1400000)
        m = E.pick(E.int('month', 1, 12))
        d = E.int('day', -30, 62)
        o = E.buf('ii', None, 'out')
        st = E.call(fn, y, m, d, (o, 0), (o, 1))
        ye = expected_year(E, fn, y)
        ok = good_day(E, ye, m, d)
        E.claim('status is OK exactly when the day exists', E.beq(E.eq(st, 0), ok))
        E.claim('otherwise the status is the bad-day status', E.or_(ok, E.eq(st, 3)))
    return f


def mk_clyd(m, tier):
    """any day number is accepted for the computation; the calendar relation below must hold"""
    def f(E):
        y = E.int('year', -4711, 9999 if tier == 'quick' else 200000)
        d = E.int('day', -5, 36)
        o = E.buf('ii', None, 'out')
        E.call('clyd', y, m, d, (o, 0), (o, 1))
        jy, jd = o[0], o[1]
        E.claim('day in year in range', E.and_(E.ge(jd, 1), E.le(jd, 366), E.or_(E.le(jd, 365), E.eq(jy % 4, 0))))
        # Julian calendar (leap year every fourth year) aligned with the Gregorian calendar in 1900-2100
        p = jy - 1
        E.claim('same day in the aligned Julian calendar', E.eq(365 * p + p // 4 + jd - 678576 - 15, daynum(E, y, m, d)))
    return f


def mk_calyd(tier):
    """century defaults: calyd(year) is clyd(defaulted year)"""
    def f(E):
        y = E.int('year', -4711, 9999)
        m, d = E.int('month', 1, 12), E.int('day', -30, 62)
        o, p = E.buf('ii', None, 'out'), E.buf('ii', None, 'ref')
        st = E.call('calyd', y, m, d, (o, 0), (o, 1))
        ye = expected_year(E, 'calyd', y)
        sr = E.call('clyd', ye, m, d, (p, 0), (p, 1))
        E.claim('same result as for the full year', E.and_(E.eq(st, sr), E.eq(o[0], p[0]), E.eq(o[1], p[1])))
    return f


def mk_modern(tier):
    def f(E):
        y = E.int('year', 1901, 2099)
        m = E.pick(E.int('month', 1, 12))
        d = E.int('day', 1, 31)
        E.assume(good_day(E, y, m, d))
        o = E.buf('ii', None, 'out')
        st = E.call('clyd', y, m, d, (o, 0), (o, 1))
        n = CUM[m - 1] + d
        if m > 2 and E.true(is_leap(E, y)):
            n = n + 1
        E.claim('ordinary Gregorian year and day of year', E.and_(E.eq(st, 0), E.eq(o[0], y), E.eq(o[1], n)))
    return f


def c01(tier):
    yb = 'years -4699..%d, months 1..12, days -400..400' % (200000 if tier == 'quick' else 1400000)
    return [H('cldj', mk_cldj('cldj', tier), bounds=yb), H('caldj', mk_cldj('caldj', tier), bounds=yb),
            H('cldj_bad', mk_bad('cldj', -4699), bounds='all int years <= 200000 and months with at least one invalid; |day| <= 100000'),
            H('caldj_bad', mk_bad('caldj', -4699), bounds='as cldj_bad')]


def c02(tier):
    r = [H('djcl', mk_djcl(tier), bounds='-2395519.999 <= MJD <= 999999999.9 (real)', weight=3),
         H('round_trip', mk_round(tier), bounds='every valid date in years -4699..200000', weight=2),
         H('djcl_bad', mk_djbad('djcl'), bounds='MJD outside the accepted range, |MJD| <= 1e15'),
         H('djcal_bad', mk_djbad('djcal'), bounds='MJD outside the accepted range, |MJD| <= 1e15')]
    for n in (-1, 0, 1, 2, 3, 4):
        r.append(H('djcal_%s' % str(n).replace('-', 'm'), mk_djcal(n), bounds='%d decimal places; -2395519.5 <= MJD <= 2e8' % n, weight=2))
    return r


def c03(tier):
    hi = 9999 if tier == 'quick' else 200000
    r = [H('clyd_m%02d' % m, mk_clyd(m, tier), bounds='years -4711..%d, month %d, days -5..36' % (hi, m), weight=3) for m in range(1, 13)]
    return r + [
        H('clyd_status', mk_clyd_status('clyd', tier), bounds='years -4711..200000, months 1..12, days -30..62'),
        H('calyd', mk_calyd(tier), bounds='years -4711..9999, months 1..12, days -30..62', weight=2),
        H('clyd_modern', mk_modern(tier), bounds='valid dates of 1901..2099'),
        H('clyd_bad', mk_bad('clyd', -4711), bounds='years <= 200000, any month, at least one invalid'),
        H('calyd_bad', mk_bad('calyd', -4711), bounds='as clyd_bad')]


PROPS = {
    'C01': dict(harnesses=c01), 'C02': dict(harnesses=c02), 'C03': dict(harnesses=c03),
}
