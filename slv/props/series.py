"""Sidereal time, nutation, TDB-TT (C22); Earth and Moon ephemerides (C23)."""
import json, os
from ..engine import H

D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')
TP = 6.283185307179586
AS = 4.848136811095359935899141e-6
DEG = 1.745329251994329576923691e-2
MJD = (-1e5, 1.5e5)


def data(n):
    return json.load(open(os.path.join(D, n + '.json')))


def poly(E, cs, x):
    r = E.const(cs[-1])
    for c in reversed(cs[:-1]):
        r = E.const(c) + r * x
    return r


def lin(ks, xs):
    r = 0
    for k, x in zip(ks, xs):
        if k:
            r = r + k * x if not (isinstance(r, int) and r == 0) else k * x
    return r


def frac(E, x):
    return x - E.trunc(x)


# ---------------------------------------------------------------- sidereal time
GM = (24110.54841, 8640184.812866, 0.093104, -6.2e-6)


def gmst(E):
    u = E.real('ut1', *MJD)
    r = E.call('gmst', u)
    t = (u - E.const(51544.5)) / 36525
    E.leq('not negative', 0, r, 0.0)
    E.leq('at most 2pi', r, TP, 1e-12)
    a = frac(E, u) * E.const(TP) + poly(E, GM, t) * E.const(7.272205216643039903848711535369e-5)
    E.angle('IAU 1982 expression', r, a, 1e-9, ctol=1e-8)


def gmsta(E):
    d, f = E.real('date', *MJD), E.real('fraction', -2, 2)
    if E.pick(E.int('swap', 0, 1)):
        d, f = f, d
    r = E.call('gmsta', d, f)
    u = d + f
    t = (u - E.const(51544.5)) / 36525
    E.leq('not negative', 0, r, 0.0)
    E.leq('at most 2pi', r, TP, 1e-12)
    a = (frac(E, d) + frac(E, f)) * E.const(TP) + poly(E, GM, t) * E.const(7.272205216643039903848711535369e-5)
    E.angle('IAU 1982 expression', r, a, 1e-9, ctol=1e-8)


def eqeqx(E):
    u = E.real('date', *MJD)
    E.opaque('nutc', outs={1: [(-1e-3, 1e-3)], 2: [(-1e-3, 1e-3)], 3: [(0.3, 0.5)]})
    o = [E.buf('d', None, n) for n in ('psi', 'eps', 'eps0')]
    E.call('nutc', u, *o)
    t = (u - E.const(51544.5)) / 36525
    om = poly(E, (450160.280, -5 * 1296000.0 - 482890.539, 7.455, 0.008), t) * E.const(AS)
    e = o[0][0] * E.cos(o[2][0]) + E.const(AS) * (E.const(0.00264) * E.sin(om) + E.const(0.000063) * E.sin(2 * om))
    E.close('psi cos eps0 plus complementary terms', E.call('eqeqx', u), e, 1e-15, ctol=1e-14)


# ---------------------------------------------------------------- nutation
NUTARG = [(134.96340251, (0, 1717915923.2178, 31.8792, 0.051635, -0.00024470)), (357.52910918, (0, 129596581.0481, -0.5532, 0.000136, -0.00001149)),
          (93.27209062, (0, 1739527262.8478, -12.7512, -0.001037, 0.00000417)), (297.85019547, (0, 1602961601.209, -6.3706, 0.006539, -0.00003169)),
          (125.04455501, (0, -6962890.5431, 7.4722, 0.007702, -0.00005939)), (181.97980085, (0, 210664136.433548)), (355.43299958, (0, 68905077.493988)),
          (34.35151874, (0, 10925660.377991)), (50.07744430, (0, 4399609.855732))]


def nutc(E):
    u = E.real('tdb', *MJD)
    o = [E.buf('d', None, n) for n in ('psi', 'eps', 'eps0')]
    E.call('nutc', u, *o)
    T = data('nutc')
    t = (u - E.const(51544.5)) / 36525
    a = [E.const(c) * E.const(DEG) + poly(E, p, t) * E.const(AS) for c, p in NUTARG]
    dp = E.const(-153.1) * E.sin(a[1]) + E.const(-1.9) * E.sin(2 * a[1])
    de = E.const(0.0)
    for ks, lp, le in zip(T['fa_coef'], T['l_psi'], T['o_eps']):
        th = lin(ks, a)
        s, c = E.sin(th), E.cos(th)
        dp = dp + (E.const(lp[0]) + E.const(lp[2]) * t) * c + (E.const(lp[1]) + E.const(lp[3]) * t) * s
        de = de + (E.const(le[0]) + E.const(le[2]) * t) * c + (E.const(le[1]) + E.const(le[3]) * t) * s
    E.close('psi', o[0][0], (dp * E.const(1e-6) - E.const(0.042888) - E.const(0.29856) * t) * E.const(AS), 1e-14, ctol=2e-14)
    E.close('eps', o[1][0], (de * E.const(1e-6) - E.const(0.005171) - E.const(0.02408) * t) * E.const(AS), 1e-14, ctol=2e-14)
    E.close('eps0', o[2][0], poly(E, (84381.412, -46.80927, -0.000152, 0.0019989, -0.00000051, -0.000000025), t) * E.const(AS), 1e-14)


FA80 = [(485866.733, 1325 * 1296000.0 + 715922.633, 31.310, 0.064), (1287099.804, 99 * 1296000.0 + 1292581.224, -0.577, -0.012), (335778.877, 1342 * 1296000.0 + 295263.137, -13.257, 0.011),
        (1072261.307, 1236 * 1296000.0 + 1105601.328, -6.891, 0.019), (450160.280, -5 * 1296000.0 - 482890.539, 7.455, 0.008)]


def nutc80(E):
    E.turns('drange')
    u = E.real('tdb', *MJD)
    o = [E.buf('d', None, n) for n in ('psi', 'eps', 'eps0')]
    E.call('nutc80', u, *o)
    t = (u - E.const(51544.5)) / 36525
    a = [poly(E, p, t) * E.const(AS) for p in FA80]
    dp = de = E.const(0.0)
    for r in data('nutc80')['terms']:
        th = lin(r[:5], a)
        dp = dp + (E.const(r[5]) + E.const(r[6]) * t) * E.sin(th)
        if r[7] or r[8]:
            de = de + (E.const(r[7]) + E.const(r[8]) * t) * E.cos(th)
    E.close('psi', o[0][0], dp * E.const(AS) * E.const(1e-4), 1e-14, ctol=1e-13)
    E.close('eps', o[1][0], de * E.const(AS) * E.const(1e-4), 1e-14, ctol=1e-13)
    E.close('eps0', o[2][0], poly(E, (84381.448, -46.8150, -0.00059, 0.001813), t) * E.const(AS), 1e-14)


def mk_rcc(topo):
    def f(E):
        u = E.real('tdb', *MJD)
        if topo:
            ut, cl, ca, cp = E.real('ut1', *MJD), E.real('longitude', -7, 7), E.real('u', 0, 7000), E.real('v', -7000, 7000)
        else:
            ut, cl, ca, cp = 0.0, 0.0, 0.0, 0.0
        r = E.call('rcc', u, ut, cl, ca, cp)
        t = (u - E.const(51544.5)) / 365250
        if topo:
            # the series alone, from the same code without an observer
            w = E.call('rcc', u, 0.0, 0.0, 0.0, 0.0)
            k = t / 3600
            s, m, d, j, sa = [E.const(DEG) * (E.const(a) + E.const(b) * k) for a, b in ((280.46645683, 1296027711.03429), (357.52910918, 1295965810.481), (297.85019547, 16029616012.09), (34.35151874, 109306899.89453), (50.0774443, 44046398.47038))]
            h = frac(E, ut) * E.const(TP) - cl
            for c, a in ((0.00029e-10, h + s - sa), (0.00100e-10, h - 2 * m), (0.00133e-10, h - d), (0.00133e-10, h + s - j), (-0.00229e-10, h + 2 * s + m), (0.05312e-10, h - m), (-0.13677e-10, h + 2 * s), (3.17679e-10, h)):
                w = w + E.const(c) * ca * E.sin(a)
            w = w + E.const(-0.02200e-10) * cp * E.cos(s + m) + E.const(-1.31840e-10) * cp * E.cos(s)
            E.close('topocentric terms', r, w, 1e-15, ctol=2e-15)
            return
        T = data('rcc')['fb_coeffs']
        w = E.const(0.0)
        for lo, hi in ((784, 787), (764, 784), (679, 764), (474, 679), (0, 474)):
            w = w * t
            for a, b, c in T[lo:hi]:
                w = w + E.const(a) * E.sin(E.const(b) * t + E.const(c))
        for a, b, c in ((0.00065e-6, 6069.776754, 4.021194), (0.00033e-6, 213.299095, 5.543132), (-0.00196e-6, 6208.294251, 5.696701), (-0.00173e-6, 74.781599, 2.435900)):
            w = w + E.const(a) * E.sin(E.const(b) * t + E.const(c))
        E.close('geocentric series', r, w + E.const(0.03638e-6) * t * t, 1e-15, ctol=2e-15)
    return f


def c22(tier):
    b = 'MJD -1e5..1.5e5'
    return [H('gmst', gmst, bounds=b, expand=False), H('gmsta', gmsta, bounds=b, expand=False), H('eqeqx', eqeqx, bounds=b, expand=False), H('nutc', nutc, bounds=b, expand=False), H('nutc80', nutc80, bounds=b, expand=False),
            H('rcc/geocentre', mk_rcc(False), bounds=b, expand=False), H('rcc/observer', mk_rcc(True), bounds=b, expand=False)]


# ---------------------------------------------------------------- Earth, VSOP2000
AM = [(1.0, 0.000000211284, -0.000000091603), (-0.000000230286, 0.917482137087, -0.397776982902), (0.0, 0.397776982902, 0.917482137087)]


def mk_epv(bary):
    def f(E):
        u = E.real('date', *MJD)
        o = [E.buf('ddd', None, n) for n in ('hpos', 'hvelo', 'bpos', 'bvelo')]
        E.call('epv', u, *o)
        T = data('epv')
        t = (u - E.const(51544.5)) / E.const(365.25)
        p, v = [], []
        for j in range(3):
            x = y = E.const(0.0)
            for q in (0, 1, 2):
                for a, b, c in T['E%d' % q][j] + (T['S%d' % q][j] if bary else []):
                    a, c = E.const(a), E.const(c)
                    th = E.const(b) + c * t
                    s, k = E.sin(th), E.cos(th)
                    if q == 0:
                        x, y = x + a * k, y - a * c * s
                    elif q == 1:
                        x, y = x + a * t * k, y + a * (k - c * t * s)
                    else:
                        x, y = x + a * t * t * k, y + a * t * (2 * k - c * t * s)
            p.append(x)
            v.append(y / E.const(365.25))
        for i, n in enumerate('xyz'):
            E.close('position ' + n, o[2 if bary else 0][i], sum((E.const(m) * c for m, c in zip(AM[i][1:], p[1:])), E.const(AM[i][0]) * p[0]), 1e-13, ctol=3e-13)
            E.close('velocity ' + n, o[3 if bary else 1][i], sum((E.const(m) * c for m, c in zip(AM[i][1:], v[1:])), E.const(AM[i][0]) * v[0]), 1e-14, ctol=2e-14)
    return f


# ---------------------------------------------------------------- low precision
def f32(x):
    import struct
    return struct.unpack('f', struct.pack('f', x))[0]


def when(E, y):
    """year 4k + r, day, fraction, year fraction as the low-precision routines count them, years since J1900"""
    r, lo, hi = y
    year = 4 * E.int('k', lo, hi) + r
    day, fr = E.int('day', 1, 366), E.real('fraction', 0, 1, f32=True)
    yf = (E.toreal(4 * (day - (1 if r == 0 else 0)) - r - 2) + 4 * fr) / 1461
    return year, day, fr, yf, E.toreal(year - 1900) + yf


def mk_earth(y):
    def f(E):
        yr, day, fr, yf, t = when(E, y)
        pv = E.buf('ffffff', None, 'pv')
        E.call('earth', yr, day, fr, pv)
        C = lambda x: E.const(f32(x))
        far = max(abs(4 * y[1] - 1900), abs(4 * y[2] - 1900))
        elm = C(4.881628) + C(6.28318530718) * yf + C(0.00013420) * t
        gam = C(4.908230) + C(3.0005e-4) * t
        em = elm - gam
        eps = C(0.40931975) - C(2.27e-6) * t
        e = C(0.016751) - C(4.2e-7) * t
        v = em + 2 * e * E.sin(em) + E.const(1.25) * e * e * E.sin(2 * em)
        elt = v + gam
        r = (1 - e * e) / (1 + e * E.cos(v))
        mm = C(4.72) + C(83.9971) * t
        w1, w2 = -r * E.sin(elt), -C(1.9913e-7) * (E.cos(elt) + e * E.cos(gam))
        D_, S_ = C(3.12e-5), C(8.31e-11)
        ref = [-r * E.cos(elt) - D_ * E.cos(mm), (w1 - D_ * E.sin(mm)) * E.cos(eps), w1 * E.sin(eps),
               C(1.9913e-7) * (E.sin(elt) + e * E.sin(gam)) + S_ * E.sin(mm), (w2 - S_ * E.cos(mm)) * E.cos(eps), w2 * E.sin(eps)]
        for i, n in enumerate(('x', 'y', 'z', 'dx', 'dy', 'dz')):
            E.close(n, pv[i], ref[i], 2e-6 if i < 3 else 4e-13, ctol=(5e-6 if i < 3 else 8e-13) * (1 if far <= 310 else 10 if far < 2500 else 30))
    return f


def mk_moon(y):
    def f(E):
        yr, day, fr, yf, t = when(E, y)
        C = lambda x: E.const(f32(x))
        far = max(abs(4 * y[1] - 1900), abs(4 * y[2] - 1900))
        T = data('moon')
        g = C(1.745329252e-2)
        A = [(270.434164, 4680.0, 132.678831, 4812.678831), (358.475833, 0.0, 359.990498, 359.990498), (296.104608, 4680.0, 91.988491, 4771.988491), (350.737486, 4320.0, 132.671142, 4452.671142), (11.250889, 4680.0, 152.020251, 4832.020251)]
        a = [g * E.fmod(C(c) + C(i) * yf + C(k) * t, 360.0) for c, i, k, _ in A]
        rate = [C(x[3]) for x in A]
        el = eld = b = bd = p = pd = E.const(0.0)
        for c, k in zip(T['TL'], T['ITL']):
            th, td = lin(k, a[1:]), lin(k, rate[1:])
            el, eld = el + C(c) * E.sin(th), eld + C(c) * E.cos(th) * td
        for c, k in zip(T['TB'], T['ITB']):
            th, td = lin(k, a[1:]), lin(k, rate[1:])
            b, bd = b + C(c) * E.sin(th), bd + C(c) * E.cos(th) * td
        for c, k in zip(T['TP'], T['ITP']):
            th, td = lin(k, a[1:]), lin(k, rate[1:])
            p, pd = p + C(c) * E.cos(th), pd - C(c) * E.sin(th) * td
        R = C(9.652743551e-12)
        el, eld = el * g + a[0], R * (eld + rate[0] / g)
        b, bd = b * g, bd * R
        p, pd = (p + C(0.950724)) * g, pd * R
        for x in (eld, b, bd, p, pd):
            E.cut(x)
        pv = E.buf('ffffff', None, 'pv')
        E.call('moon', yr, day, fr, pv)
        sp = E.sin(p)
        r = C(4.2635212653763e-5) / sp
        rd = -r * pd / sp
        eps = g * (C(23.45229) - C(0.00013) * t)
        sb, cb, sl, cl = E.sin(b), E.cos(b), E.sin(el), E.cos(el)
        v = [r * cb * cl, r * cb * sl, r * sb]
        w = [rd * cb * cl - r * bd * sb * cl - r * cb * eld * sl, rd * cb * sl - r * bd * sb * sl + r * cb * eld * cl, rd * sb + r * bd * cb]
        se, ce = E.sin(eps), E.cos(eps)
        ref = [v[0], v[1] * ce - v[2] * se, v[1] * se + v[2] * ce, w[0], w[1] * ce - w[2] * se, w[1] * se + w[2] * ce]
        for i, n in enumerate(('x', 'y', 'z', 'dx', 'dy', 'dz')):
            E.close(n, pv[i], ref[i], 1e-7 if i < 3 else 3e-13, ctol=(6e-8 if far < 5 else 8e-7 if far <= 310 else 4e-5) if i < 3 else 2e-12 if far <= 310 else 1e-10)
    return f


def ecor(E):
    """projections of the Earth's motion on the star's direction, whatever the Earth does"""
    E.opaque('earth', outs={3: [(-1.1, 1.1)] * 3 + [(-3e-7, 3e-7)] * 3}, f32=True)
    y, day, fr = E.pick(E.int('year', 1999, 2000)), E.int('day', 1, 366), E.real('fraction', 0, 1, f32=True)
    ra, dec = E.real('ra', -7, 7, f32=True), E.real('dec', -2, 2, f32=True)
    pv = E.buf('ffffff', None, 'pv')
    E.call('earth', y, day, fr, pv)
    o = [E.buf('f', None, n) for n in ('rv', 'tl')]
    E.call('ecor', E.buf('ff', [ra, dec], 'dir'), y, day, fr, *o)
    u = [E.cos(ra) * E.cos(dec), E.sin(ra) * E.cos(dec), E.sin(dec)]
    E.close('velocity, km/s, positive receding', o[0][0], -E.const(f32(1.4959787066e8)) * sum((u[i] * pv[3 + i] for i in (1, 2)), u[0] * pv[3]), 1e-5, ctol=3e-5)
    E.close('light time, s', o[1][0], E.const(f32(499.0047837)) * sum((u[i] * pv[i] for i in (1, 2)), u[0] * pv[0]), 1e-4, ctol=4e-4)


# ---------------------------------------------------------------- Earth, Stumpff
EVP = (-30000.0, 90000.0)


def evp_ref(E, u):
    """hvelo, bvelo, hpos, bpos before any change of equinox; the bulky sub-results become unknowns"""
    T = data('evp')
    K, C = (lambda x: E.const(f32(x))), E.const
    P2, F2 = 6.2831853071796, f32(6.283185)
    dt = (u - C(15019.5)) / 36525
    fast = [E.fmod(poly(E, r, dt), P2) for r in T['DCFEL']]
    dml, g, fb = fast[0], fast[1], fast[1:]
    eps = poly(E, T['DCEPS'], dt)
    so = [K(r[0]) + K(r[1]) * dt + K(r[2]) * dt * dt for r in T['CCSEL']]
    e = so[0]
    sn = [E.sin(E.fmod(K(r[1]) + K(r[2]) * dt, F2)) for r in T['CCSEC']]
    pl = K(T['CCSEC'][0][0]) * sn[0] + K(T['CCSEC'][1][0]) * sn[1] + (K(T['CCSEC'][2][0]) + dt * K(-7.757020e-08)) * sn[2] + K(T['CCSEC'][3][0]) * sn[3]
    pld = pr = prd = C(0.0)
    for k in range(15):
        th = poly(E, T['DCARGS'][k], dt)
        s, c = E.sin(th), E.cos(th)
        a = [K(x) for x in T['CCAMPS'][k]]
        pl, pr = pl + a[0] * c + a[1] * s, pr + a[2] * c + a[3] * s
        if k < 10:
            pld, prd = pld + (a[1] * c - a[0] * s) * a[4], prd + (a[3] * c - a[2] * s) * a[4]
    for x in (pr, pld, prd):
        E.cut(x)
    phi = 2 * e * ((1 - e * e / 8) * E.sin(g) + e * C(0.625) * E.sin(2 * g) + e * e * K(0.54166667) * E.sin(3 * g))
    f = g + phi
    sf, cf = E.sin(f), E.cos(f)
    par = 1 - e * e
    psi = par / (1 + e * cf)
    G = K(1.990969e-07)
    phid = 2 * e * G * ((1 + e * e * C(1.5)) * cf + e * (C(1.25) - sf * sf / 2))
    psid = G * e * sf / E.sqrt(par)
    for x in (psi, phid, psid):
        E.cut(x)
    rd = (1 + pr) * (psid + psi * prd)
    rld = (1 + pr) * psi * (C(1.990987e-07) + phid + pld)
    tl = dml + phi + pl
    s, c = E.sin(tl), E.cos(tl)
    hv = [rd * c - rld * s, rd * s + rld * c]
    r = psi * (1 + pr)
    for x in (rd, rld, r):
        E.cut(x)
    pl = pld = pp = ppd = C(0.0)
    for k in range(3):
        th = poly(E, T['DCARGM'][k], dt)
        a = [K(x) for x in T['CCAMPM'][k]]
        sk, ck = E.sin(th), E.cos(th)
        pl, pld, pp, ppd = pl + a[0] * sk, pld + a[1] * ck, pp + a[2] * ck, ppd - a[3] * sk
    tm = fb[1] + pl
    sm, cm = E.sin(tm), E.cos(tm)
    sig = K(3.122140e-05) / (1 + pp)
    a, b = sig * (K(2.661699e-06) + pld), sig * ppd
    for x in (sig, a, b):
        E.cut(x)
    hv = [hv[0] + a * sm + b * cm, hv[1] - a * cm + b * sm, -sig * K(2.399485e-07) * E.cos(fb[2])]
    lat = K(8.978749e-2) * E.sin(fb[2])
    hp = [r * c - sig * E.cos(lat) * cm, r * s - sig * E.cos(lat) * sm, -sig * E.sin(lat)]
    M = C(0.99999696)
    bv, bp = [x * M for x in hv], [x * M for x in hp]
    for k in range(4):
        lon, om, ec = fb[k + 3], so[k + 1], so[k + 9]
        tl = E.fmod(lon + 2 * ec * E.sin(lon - om), F2)
        sk, ck = E.sin(tl), E.cos(tl)
        A, B = K(T['CCPAMV'][k]), K(T['CCPAM'][k])
        bv = [bv[0] + A * (sk + ec * E.sin(om)), bv[1] - A * (ck + ec * E.cos(om)), bv[2] - A * so[k + 13] * E.cos(lon - so[k + 5])]
        fl = so[k + 13] * E.sin(lon - so[k + 5])
        q = B * (1 - ec * E.cos(lon - om))
        bp = [bp[0] - q * E.cos(fl) * ck, bp[1] - q * E.cos(fl) * sk, bp[2] - q * E.sin(fl)]
    se, ce = E.sin(eps), E.cos(eps)
    w = C(0.7272205216643e-4) * (C(0.035) + C(0.00085) * (2000 + (u - C(51544.5)) / C(365.25) - C(1949.9997904423)))
    out = []
    for v in (hv, bv, hp, bp):
        q = [v[0], ce * v[1] - se * v[2], se * v[1] + ce * v[2]]
        out.append([q[0] - w * q[1], q[1] + w * q[0], q[2]])
    return out


def evp(E):
    u = E.real('date', *EVP)
    q = E.real('deqx', -3000, 0)
    ref = evp_ref(E, u)
    o = {n: E.buf('ddd', None, n) for n in ('bvelo', 'bpos', 'hvelo', 'hpos')}
    E.call('evp', u, q, o['bvelo'], o['bpos'], o['hvelo'], o['hpos'])
    for n, r in zip(('hvelo', 'bvelo', 'hpos', 'bpos'), ref):
        for i in range(3):
            E.close('%s %s' % (n, 'xyz'[i]), o[n][i], r[i], 1e-9 if 'pos' in n else 1e-16, ctol=5e-8 if 'pos' in n else 1e-14)


def evp_equinox(E):
    """asking for another equinox precesses the four vectors"""
    u, q = E.real('date', *EVP), E.real('deqx', 1, 3000)
    evp_ref(E, u)       # the same sub-results as unknowns
    N = ('bvelo', 'bpos', 'hvelo', 'hpos')
    o, p = ({n: E.buf('ddd', None, n + k) for n in N} for k in ('', "'"))
    E.call('evp', u, -1.0, *[o[n] for n in N])
    for n in N:
        for i in range(3):
            E.cut(o[n][i])
    E.opaque('prec', outs={2: [(-1.0, 1.0)] * 9})
    M = E.buf('d' * 9, None, 'm')
    E.call('prec', E.call('epj', u), q, M)
    E.call('evp', u, q, *[p[n] for n in N])
    for n in N:
        for i in range(3):
            E.close('%s %s' % (n, 'xyz'[i]), p[n][i], sum((M[3 * i + k] * o[n][k] for k in (1, 2)), M[3 * i] * o[n][0]), 1e-14 if 'pos' in n else 1e-20, ctol=1e-14 if 'pos' in n else 1e-20)


# ---------------------------------------------------------------- Moon, double precision
MA = [(270.434164, 481267.8831, -0.001133, 0.0000019), (358.475833, 35999.0498, -0.000150, -0.0000033), (296.104608, 477198.8491, 0.009192, 0.0000144), (350.737486, 445267.1142, -0.001436, 0.0000019),
      (11.250889, 483202.0251, -0.003211, -0.0000003), (259.183275, -1934.1420, 0.002078, 0.0000022)]


def dmoon(E):
    u = E.real('date', *MJD)
    T = data('dmoon')
    g = E.const(0.0174532925199432957692369)
    C = E.const
    t = (u - C(15019.5)) / 36525
    ang = [g * poly(E, c, t) for c in MA]
    dan = [g * (C(c[1]) + (2 * C(c[2]) + 3 * C(c[3]) * t) * t) for c in MA]
    elp, em, emp, d, f, om = ang
    delp, dem, demp, dd, df, dom = dan
    so, co = E.sin(om), E.cos(om)
    th = g * (C(51.2) + C(20.2) * t)
    wa, dwa = E.sin(th), g * C(20.2) * E.cos(th)
    th = g * poly(E, (346.560, 132.870, -0.0091731), t)
    wb, dwb = C(0.003964) * E.sin(th), g * C(0.003964) * (C(132.870) + 2 * C(-0.0091731) * t) * E.cos(th)
    dc = dom * co
    elp, delp = elp + g * (C(0.000233) * wa + wb + C(0.001964) * so), delp + g * (C(0.000233) * dwa + dwb + C(0.001964) * dc)
    em, dem = em + g * C(-0.001778) * wa, dem + g * C(-0.001778) * dwa
    emp, demp = emp + g * (C(0.000817) * wa + wb + C(0.002541) * so), demp + g * (C(0.000817) * dwa + dwb + C(0.002541) * dc)
    d, dd = d + g * (C(0.002011) * wa + wb + C(0.001964) * so), dd + g * (C(0.002011) * dwa + dwb + C(0.001964) * dc)
    wom, dwom = om + g * (C(275.05) + C(-2.30) * t), dom + g * C(-2.30)
    sw, cw = E.sin(wom), E.cos(wom)
    f, df = f + g * (wb + C(-0.024691) * so + C(-0.004328) * sw), df + g * (dwb + C(-0.024691) * dc + C(-0.004328) * dwom * cw)
    e, de = poly(E, (1.0, -0.002495, -0.00000752), t), C(-0.002495) + 2 * C(-0.00000752) * t
    en, den = (C(1.0), e, e * e), (C(0.0), de, 2 * e * de)

    def ser(cs, ks, fn, dfn):
        v = dv = C(0.0)
        for c, k in zip(cs, ks):
            if not any(k[:4]):
                v = v + C(c) * en[k[4]]
                continue
            x, dx = lin(k[:4], (em, emp, d, f)), lin(k[:4], (dem, demp, dd, df))
            v = v + C(c) * fn(x) * en[k[4]]
            dv = dv + C(c) * (dfn(x) * dx * en[k[4]] + fn(x) * den[k[4]])
        return v, dv
    v, dv = ser(T['TL'], T['ITL'], E.sin, E.cos)
    J = C(3155760000.0)
    el, eld = elp + g * v, (delp + g * dv) / J
    v, dv = ser(T['TB'], T['ITB'], E.sin, E.cos)
    bf, dbf = 1 - C(0.0004664) * co - C(0.0000754) * cw, C(0.0004664) * dom * so + C(0.0000754) * dwom * sw
    b, bd = g * v * bf, g * (dv * bf + v * dbf) / J
    v, dv = ser(T['TP'], T['ITP'], E.cos, lambda x: -E.sin(x))
    p, pd = g * v, g * dv / J
    for x in (eld, b, bd, p, pd):
        E.cut(x)
    pv = E.buf('dddddd', None, 'pv')
    E.call('dmoon', u, pv)
    sp = E.sin(p)
    r = C(4.2635212653763e-5) / sp
    rd = -r * pd * E.cos(p) / sp
    sb, cb, sl, cl = E.sin(b), E.cos(b), E.sin(el), E.cos(el)
    v = [r * cb * cl, r * cb * sl, r * sb]
    w = [rd * cb * cl - r * bd * sb * cl - r * cb * eld * sl, rd * cb * sl - r * bd * sb * sl + r * cb * eld * cl, rd * sb + r * bd * cb]
    t = (u - C(51544.5)) / 36525
    q = C(7.272205216643039903848712e-5) * (C(0.035) + C(0.00085) * (2000 + 100 * t - C(1949.9997904423)))
    eps = C(AS) * poly(E, (84381.448, -46.8150, -0.00059, 0.001813), t)
    se, ce = E.sin(eps), E.cos(eps)
    for i, (z, n) in enumerate(((v, ''), (w, 'd'))):
        # ecliptic to equator, then the equinox correction as a small rotation about the pole
        eq = [z[0], z[1] * ce - z[2] * se, z[1] * se + z[2] * ce]
        ref = [eq[0] - q * eq[1], eq[1] + q * eq[0], eq[2]]
        for j in range(3):
            E.close(n + 'xyz'[j], pv[3 * i + j], ref[j], 1e-13 if not i else 1e-18, ctol=1e-12 if not i else 1e-17)


def c23(tier):
    b = 'MJD -1e5..1.5e5'
    hs = [H('epv/heliocentric', mk_epv(False), bounds=b, expand=False), H('epv/barycentric', mk_epv(True), bounds=b, expand=False), H('dmoon', dmoon, bounds=b, expand=False),
          H('evp', evp, bounds='MJD -30000..90000', expand=False), H('evp/equinox', evp_equinox, bounds='MJD -30000..90000, equinox 1..3000', expand=False), H('ecor', ecor, bounds='any Earth motion, any direction')]
    for lo, hi in ((475, 475), (450, 550), (-1200, -1), (0, 750)) if tier == 'quick' else ((475, 475), (470, 480), (450, 550), (-1200, -1), (0, 750), (-1200, 750)):
        for r in range(4):
            n = '%d..%d, %d after leap' % (4 * lo, 4 * hi + 3, r)
            hs += [H('earth/' + n, mk_earth((r, lo, hi)), bounds='years %s, every day and fraction' % n, expand=False), H('moon/' + n, mk_moon((r, lo, hi)), bounds='years %s, every day and fraction' % n, expand=False)]
    return hs


PROPS = {'C22': dict(harnesses=c22, claim='Every date in the box.'), 'C23': dict(harnesses=c23, claim='Every date in the box.')}
