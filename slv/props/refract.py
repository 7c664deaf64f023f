"""Air mass and atmospheric refraction (C21)."""
from ..engine import H


def hardie(E, c):
    s = 1 / c - 1
    return 1 + s * (E.const(0.9981833) - s * (E.const(0.002875) + E.const(0.0008083) * s))


def airmas(E):
    z = E.real('z', -1.52, 1.52)
    E.close('polynomial in sec z - 1', E.call('airmas', z), hardie(E, E.cos(z)), 1e-9)


def airmas_low(E):
    z, s = E.real('z', 1.52000001, 10), E.pick(E.int('s', 0, 1))
    E.close('held constant beyond 87 degrees', E.call('airmas', z if s else -z), E.call('airmas', 1.52), 1e-12)


def newton(E, s, c, a, b):
    """refraction and derivative term of the tan/tan^3 model"""
    t = s / c
    return a * t + b * t * t * t, 1 + (a + 3 * b * t * t) / (c * c)


RA, RB = (-1e-2, 1e-2), (-1e-5, 1e-5)


def refz_full(E, zu, a, b):
    f, d = newton(E, E.sin(zu), E.cos(zu), a, b)
    zl = zu - f / d
    f, d = newton(E, E.sin(zl), E.cos(zl), a, b)
    return zu - zl + (zl - zu + f) / d


def refz(E):
    zu, a, b = E.real('zu', -1.4486, 1.4486), E.real('refa', 0, 1e-3), E.real('refb', -1e-6, 0)
    E.close('two Newton steps', E.call('refz', zu, a, b), zu - refz_full(E, zu, a, b), 1e-13)


D2R = 0.017453292519943295


def low_model(E, e):
    return (E.const(0.55445) + E.const(-0.01133) * e + E.const(0.00202) * e * e) / (1 + E.const(0.28385) * e + E.const(0.02390) * e * e)


def refz_low(E):
    """beyond 83 degrees: scaled empirical curve"""
    zu, a, b = E.real('zu', 83.001 * D2R, 92.999 * D2R), E.real('refa', 0, 1e-3), E.real('refb', -1e-6, 0)
    z83 = 83.0 / 57.29577951308232
    r83 = E.cut(z83 - E.call('refz', z83, a, b))
    E.assume(E.and_(E.lt(r83, 0.1), E.gt(r83, -0.1)))
    r = zu - E.call('refz', zu, a, b)
    e = 90 - zu * E.const(57.29577951308232)
    E.close('scaled to the 83 degree value', r * low_model(E, E.const(7.0)), r83 * low_model(E, e), 1e-12)


def refz_below(E):
    """the refraction is constant beyond 93 degrees"""
    zu, a, b = E.real('zu', 93.001 * D2R, 3.2), E.real('refa', 0, 1e-3), E.real('refb', -1e-6, 0)
    z93 = E.const(93.0) / E.const(57.29577951308232)
    E.close('constant', zu - E.call('refz', zu, a, b), z93 - E.call('refz', z93, a, b), 1e-12)


def mk_refv(low):
    def f(E):
        rh, th = E.real('r', 0, 1), E.real('theta', -3.2, 3.2)
        x, y = rh * E.cos(th), rh * E.sin(th)
        z = E.real('z', -1, 0.0499999) if low else E.real('z', 0.05, 1)
        a, b = E.real('refa', 0, 1e-3), E.real('refb', -1e-6, 0)
        R = E.buf('ddd', None, 'out')
        E.call('refv', E.buf('ddd', [x, y, z], 'in'), a, b, R)
        zz = E.const(0.05) if low else z
        r2 = rh * rh
        wb = b * r2 / (zz * zz)
        wt = (a + wb) / (1 + (a + 3 * wb) * (zz * zz + r2) / (zz * zz))
        # d = wt r / z; d^2 is free of the square root
        d2 = wt * wt * r2 / (zz * zz)
        cd = 1 - d2 / 2
        E.close('x', R[0], x * cd * (1 - wt), 1e-12)
        E.close('y', R[1], y * cd * (1 - wt), 1e-12)
        E.close('z', R[2], cd * (zz + wt * r2 / zz) + (z - zz), 1e-12)
        E.close('azimuth kept', R[0] * y, R[1] * x, 1e-12)
    return f


def refv_alias(E):
    v = [E.real(n, -1, 1) for n in 'xyz']
    R, S = E.buf('ddd', None, 'out'), E.buf('ddd', v, 'both')
    E.call('refv', E.buf('ddd', v, 'in'), 2e-4, -2e-7, R)
    E.call('refv', S, 2e-4, -2e-7, S)
    for i in range(3):
        E.same('in place', S[i], R[i])


def psat(E, t, p):
    d = t - E.const(273.15)
    return E.pow(E.const(10.0), (E.const(0.7859) + E.const(0.03477) * d) / (1 + E.const(0.00412) * d)) * (1 + p * (E.const(4.5e-6) + E.const(6.0e-10) * d * d))


def mk_refcoq(optic):
    def f(E):
        t, p, r = E.real('t', 200, 350), E.real('p', 300, 1100), E.real('rh', 0, 1)
        w = E.real('wl', 0.1, 100) if optic else E.real('wl', 100.001, 1e6)
        a, b = E.buf('d', None, 'a'), E.buf('d', None, 'b')
        E.call('refcoq', t, p, r, w, a, b)
        ps = psat(E, t, p)
        pw = r * ps / (1 - (1 - r) * ps / p)
        if optic:
            w2 = w * w
            g = ((E.const(77.53484e-6) + (E.const(4.39108e-7) + E.const(3.666e-9) / w2) / w2) * p - E.const(11.2684e-6) * pw) / t
            be = E.const(4.4474e-6) * t
        else:
            g = (E.const(77.6890e-6) * p - (E.const(6.3938e-6) - E.const(0.375463) / t) * pw) / t
            be = E.const(4.4474e-6) * t * (1 - E.const(0.0074) * pw)
        E.close('A', a[0], g * (1 - be), 1e-16, ctol=1e-13)
        E.close('B', b[0], -g * (be - g / 2), 1e-16, ctol=1e-15)
    return f


SAFE = [('temperature', 0, -1e6, 1e6, 100.0, 500.0, 280.0), ('pressure', 1, -1e6, 1e6, 0.0, 10000.0, 900.0), ('humidity', 2, -100, 100, 0.0, 1.0, 0.4), ('wavelength', 3, -1e6, 1e9, 0.1, 1e6, 0.55)]


def mk_refcoq_clamp(j, high, wl):
    nm, i, lo, hi, cl, ch, _ = SAFE[j]

    def f(E):
        v = E.real('v', ch + 1e-6, hi) if high else E.real('v', lo, cl - 1e-6)
        args = [s[6] for s in SAFE]
        args[3] = wl
        o = [[E.buf('d', None, 'a'), E.buf('d', None, 'b')] for _ in range(2)]
        x = list(args)
        x[i] = v
        E.call('refcoq', *x, *o[0])
        x[i] = ch if high else cl
        E.call('refcoq', *x, *o[1])
        E.close('A', o[0][0][0], o[1][0][0], 1e-16)
        E.close('B', o[0][1][0], o[1][1][0], 1e-18)
        if i == 1 and not high:
            E.close('no air, no refraction: A', o[0][0][0], 0.0, 0.0)
            E.close('no air, no refraction: B', o[0][1][0], 0.0, 0.0)
    return f


def atmdsp(E):
    t, p, r = E.real('t', 200, 350), E.real('p', 300, 1100), E.real('rh', 0, 1)
    w1, w2 = E.real('wl1', 0.1, 100), E.real('wl2', 0.1, 100)
    a1, b1 = E.real('a1', 1e-6, 5e-5), E.real('b1', -1e-6, 0)
    a, b = E.buf('d', None, 'a'), E.buf('d', None, 'b')
    E.call('atmdsp', t, p, r, w1, a1, b1, w2, a, b)
    pw = r * E.pow(E.const(10.0), E.const(-8.7115) + E.const(0.03477) * t)
    dn = []
    for w in (w1, w2):
        q = w * w
        dn.append(((E.const(77.5317e-6) + (E.const(0.43909e-6) + E.const(0.00367e-6) / q) / q) * p - E.const(11.2684e-6) * pw) / t)
    n1, n2 = dn
    E.assume(E.gt(n1, 6e-5))
    E.close('A scales with refractivity', a[0] * n1, a1 * n2, 1e-18, ctol=1e-16)
    E.close('B', b[0] * n1 * 2 * (n1 - a1), b1 * n2 * (2 * (n1 - a1) + n1 * (n1 - n2)), 1e-22, ctol=1e-20)


def atmdsp_radio(E):
    w1, w2 = E.real('wl1', 0.1, 1e6), E.real('wl2', 0.1, 1e6)
    E.assume(E.or_(E.gt(w1, 100), E.gt(w2, 100)))
    a1, b1 = E.real('a1', -1e-3, 1e-3), E.real('b1', -1e-6, 1e-6)
    a, b = E.buf('d', None, 'a'), E.buf('d', None, 'b')
    E.call('atmdsp', E.real('t', 100, 500), E.real('p', 0, 1100), E.real('rh', 0, 1), w1, a1, b1, w2, a, b)
    E.same('A unchanged', a[0], a1)
    E.same('B unchanged', b[0], b1)


def atmdsp_same(E):
    """no change of wavelength, no change"""
    a, b = E.buf('d', None, 'a'), E.buf('d', None, 'b')
    a1, b1, w = E.real('a1', 1e-6, 1e-4), E.real('b1', -1e-6, 0), E.real('wl', 0.3, 100)
    E.call('atmdsp', 280.0, E.real('p', 300, 1100), 0.4, w, a1, b1, w, a, b)
    E.close('A', a[0], a1, 1e-16)
    E.close('B', b[0], b1, 1e-16)


ADS = [('temperature', 0, 500.0, True), ('temperature', 0, 100.0, False), ('pressure', 1, 10000.0, True), ('pressure', 1, 0.0, False), ('humidity', 2, 1.0, True), ('humidity', 2, 0.0, False),
       ('first wavelength', 3, 0.1, False), ('second wavelength', 6, 0.1, False)]


def mk_atmdsp_clamp(j):
    """an argument beyond its limit counts as the limit"""
    nm, i, lim, high = ADS[j]

    def f(E):
        v = E.real('v', lim + 1e-6, 1e5) if high else E.real('v', -1e5, lim - 1e-6)
        args = [280.0, 900.0, 0.0 if i == 1 and not high else 0.4, 0.55, 5e-5, -3e-8, 0.8]
        o = [[E.buf('d', None, 'a'), E.buf('d', None, 'b')] for _ in range(2)]
        for k, x in enumerate((v, lim)):
            y = list(args)
            y[i] = x
            E.call('atmdsp', *y, *o[k])
        E.close('A', o[0][0][0], o[1][0][0], 1e-16)
        E.close('B', o[0][1][0], o[1][1][0], 1e-18)
    return f


def atmdsp_vacuum(E):
    """neither air nor water vapour: nothing to disperse"""
    a, b = E.buf('d', None, 'a'), E.buf('d', None, 'b')
    a1, b1 = E.real('a1', -1e-3, 1e-3), E.real('b1', -1e-6, 1e-6)
    E.call('atmdsp', E.real('t', 101, 499), E.real('p', -100, -1e-6), E.real('rh', -1, -1e-6), E.real('wl1', 0.2, 100), a1, b1, E.real('wl2', 0.2, 100), a, b)
    E.same('A unchanged', a[0], a1)
    E.same('B unchanged', b[0], b1)


def refco(E):
    """the two-point solution reproduces the full refraction at tan z = 1 and 4, whatever that is"""
    E.opaque('refro', ret=(-0.1, 0.1))
    args = [E.real('oh', 0, 5000), E.real('t', 250, 300), E.real('p', 500, 1050), E.real('rh', 0, 1), E.real('wl', 0.3, 200), E.real('phi', -1.5, 1.5), E.real('tlr', 0.005, 0.008), E.real('eps', 1e-9, 1e-8)]
    r1 = E.call('refro', 0.7853981633974483, *args)
    r2 = E.call('refro', 1.325817663668033, *args)
    a, b = E.buf('d', None, 'a'), E.buf('d', None, 'b')
    E.call('refco', *args, a, b)
    E.close('agreement at 45 degrees', a[0] + b[0], r1, 1e-14)
    E.close('agreement at atan 4', 4 * a[0] + 64 * b[0], r2, 1e-14)


RRO = [('oh', 1, 1e9, 80000.0, -1e9, -1000.0, 100.0), ('temperature', 2, 1e6, 500.0, -1e6, 100.0, 280.0), ('pressure', 3, 1e6, 10000.0, -1e6, 0.0, 900.0), ('humidity', 4, 100, 1.0, -100, 0.0, 0.4),
       ('wavelength', 5, None, None, -1e6, 0.1, 0.55)]
RBASE = [1.2, 100.0, 280.0, 900.0, 0.4, 0.55, 0.7, 0.0065, 1e-3]


def mk_refro_clamp(j, high):
    nm, i, hi, ch, lo, cl, _ = RRO[j]

    def f(E):
        v = E.real('v', ch + 1e-6, hi) if high else E.real('v', lo, cl - 1e-6)
        x, y = list(RBASE), list(RBASE)
        x[i], y[i] = v, ch if high else cl
        E.close('argument limited', E.call('refro', *x), E.call('refro', *y), 1e-14)
    return f


def mk_refro_tlr(which):
    """lapse rate: sign ignored, limited to 0.001..0.01"""
    def f(E):
        v = E.real('tlr', *{'high': (0.0100001, 10), 'minus high': (-10, -0.0100001), 'low': (-0.0009999, 0.0009999)}[which])
        x, y = list(RBASE), list(RBASE)
        x[7], y[7] = v, 0.001 if which == 'low' else 0.01
        E.close('lapse rate limited', E.call('refro', *x), E.call('refro', *y), 1e-14)
    return f


def mk_refro_far(neg):
    """zenith distances beyond 93 degrees give the value at 93 degrees, with their sign"""
    def f(E):
        z = E.real('z', 1.6232, 3.1415)
        x, y = list(RBASE), list(RBASE)
        x[0], y[0] = -z if neg else z, 1.623156204
        r, q = E.call('refro', *x), E.call('refro', *y)
        E.close('held at 93 degrees', r, -q if neg else q, 1e-12)
    return f


def refro_turn(E):
    """whole turns and the sign of the zenith distance"""
    k = E.pick(E.int('k', -2, 2))
    z = (0.3, -0.3, 1.2, -1.2)[E.pick(E.int('j', 0, 3))]
    x, y = list(RBASE), list(RBASE)
    x[0], y[0] = z + 6.283185307179586 * k, abs(z)
    r, q = E.call('refro', *x), E.call('refro', *y)
    E.close('odd and periodic', r, q if z > 0 else -q, 1e-12)


def refro_vacuum(E):
    p = E.real('p', -100, -1e-6)
    x = list(RBASE)
    x[3] = p
    E.close('no air, no refraction', E.call('refro', *x), 0.0, 0.0)


def harnesses(tier):
    hs = [H('airmas', airmas, bounds='|z| <= 1.52'), H('airmas/low', airmas_low, bounds='1.52 <= |z| <= 10'), H('refz', refz, bounds='|ZD| < 83 degrees, A to 1e-3, B to -1e-6', expand=False),
          H('refz/83 to 93', refz_low, bounds='ZD 83..93 degrees', expand=False), H('refz/beyond 93', refz_below, bounds='ZD beyond 93 degrees', expand=False), H('refv', mk_refv(False)), H('refv/low', mk_refv(True)), H('refv/in place', refv_alias),
          H('atmdsp', atmdsp, bounds='200..350 K, 300..1100 mb, 0.1..100 micrometres'), H('atmdsp/radio', atmdsp_radio), H('atmdsp/same', atmdsp_same), H('refco', refco, bounds='any refraction function')]
    hs += [H('atmdsp/limit %s %s' % (ADS[j][0], 'high' if ADS[j][3] else 'low'), mk_atmdsp_clamp(j), bounds='everything beyond the limit to 1e5, other arguments fixed') for j in range(len(ADS))]
    hs.append(H('atmdsp/vacuum', atmdsp_vacuum, bounds='no pressure, no humidity'))
    for o in (True, False):
        hs.append(H('refcoq/%s' % ('optical' if o else 'radio'), mk_refcoq(o), bounds='200..350 K, 300..1100 mb'))
    for j in range(4):
        for high in (False, True):
            for wl in (0.55, 1000.0):
                if j == 3 and (wl > 1) != high:
                    continue
                hs.append(H('refcoq/limit %s %s %g' % (SAFE[j][0], 'high' if high else 'low', wl), mk_refcoq_clamp(j, high, wl), bounds='everything beyond the limit'))
    for j in range(5):
        for high in (False, True):
            if RRO[j][2] is None and high:
                continue
            hs.append(H('refro/limit %s %s' % (RRO[j][0], 'high' if high else 'low'), mk_refro_clamp(j, high), bounds='everything beyond the limit, other conditions fixed'))
    hs += [H('refro/lapse rate ' + w, mk_refro_tlr(w)) for w in ('high', 'minus high', 'low')]
    hs += [H('refro/beyond 93', mk_refro_far(False)), H('refro/beyond -93', mk_refro_far(True)), H('refro/turns', refro_turn), H('refro/vacuum', refro_vacuum)]
    return hs


PROPS = {'C21': dict(harnesses=harnesses, claim='The closed formulas for every argument in the boxes; the ray-traced refraction only for its argument limits, sign, periodicity and vacuum (its adaptive quadrature has no bound on symbolic conditions).')}
