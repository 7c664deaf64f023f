"""Horizon coordinates (C15)."""
from ..engine import H

PREC = {'d': dict(f32=False, tol=1e-12, L='d', eps=1e-10, e2h='de2h', h2e='dh2e'), 's': dict(f32=True, tol=2e-5, L='f', eps=1e-4, e2h='e2h', h2e='h2e')}


def horizon_xyz(E, h, d, p):
    sh, ch, sd, cd, sp, cp = E.sin(h), E.cos(h), E.sin(d), E.cos(d), E.sin(p), E.cos(p)
    return -ch * cd * sp + sd * cp, -sh * cd, ch * cd * cp + sd * sp


def mk(p):
    P = PREC[p]
    t, L, f32 = P['tol'], P['L'], P['f32']

    def e2h(E):
        h, d, phi = E.real('ha', -7, 7, f32=f32), E.real('dec', -7, 7, f32=f32), E.real('phi', -7, 7, f32=f32)
        A, El = E.buf(L, None, 'az'), E.buf(L, None, 'el')
        x, y, z = horizon_xyz(E, h, d, phi)
        r2 = x * x + y * y
        E.assume(E.gt(r2, P['eps']))
        E.call(P['e2h'], E.buf(L * 2, [h, d], 'dir'), phi, A, El)
        r = E.sqrt(r2)
        E.unit('azimuth', y, x, A[0], t * 10, w=r, ctol=t * 300)
        E.close('sine of the elevation', E.sin(El[0]), z, t * 10)
        E.close('cosine of the elevation', E.cos(El[0]), r, t * 10)
        E.leq('azimuth not negative', 0.0, A[0], 1e-12)
        E.leq('azimuth not above 2 pi', A[0], 2 * E.PI, 1e-6)
        E.leq('elevation at most 90 degrees', El[0], E.PI / 2, 1e-6)
        E.leq('elevation at least -90 degrees', -E.PI / 2, El[0], 1e-6)

    def h2e(E):
        a, e, phi = E.real('az', -7, 7, f32=f32), E.real('el', -7, 7, f32=f32), E.real('phi', -7, 7, f32=f32)
        S = E.buf(L * 2, None, 'dir')
        x, y, z = horizon_xyz(E, a, e, phi)
        r2 = x * x + y * y
        E.assume(E.gt(r2, P['eps']))
        E.call(P['h2e'], a, e, phi, S)
        r = E.sqrt(r2)
        E.unit('hour angle', y, x, S[0], t * 10, w=r, ctol=t * 300)
        E.close('sine of the declination', E.sin(S[1]), z, t * 10)
        E.close('cosine of the declination', E.cos(S[1]), r, t * 10)
        E.leq('hour angle at least -pi', -E.PI, S[0], 1e-6)
        E.leq('hour angle at most pi', S[0], E.PI, 1e-6)
        E.leq('declination at most 90 degrees', S[1], E.PI / 2, 1e-6)
        E.leq('declination at least -90 degrees', -E.PI / 2, S[1], 1e-6)

    def back(E):
        """equatorial -> horizon -> equatorial"""
        h, d, phi = E.real('ha', -3.1, 3.1, f32=f32), E.real('dec', -1.5, 1.5, f32=f32), E.real('phi', -1.5, 1.5, f32=f32)
        x, y, z = horizon_xyz(E, h, d, phi)
        E.assume(E.gt(x * x + y * y, P['eps']))
        A, El, S = E.buf(L, None, 'az'), E.buf(L, None, 'el'), E.buf(L * 2, None, 'dir')
        E.call(P['e2h'], E.buf(L * 2, [h, d], 'dir0'), phi, A, El)
        E.call(P['h2e'], A[0], El[0], phi, S)
        cd = E.cos(d)
        E.close('declination comes back', E.sin(S[1]), E.sin(d), t * 100)
        E.close('hour angle comes back (east)', E.cos(S[1]) * E.sin(S[0]), cd * E.sin(h), t * 100)
        E.close('hour angle comes back (south)', E.cos(S[1]) * E.cos(S[0]), cd * E.cos(h), t * 100)

    def pole(E):
        """elevation at the zenith/pole itself: hour angle zero by convention"""
        w = E.int('w', 0, 1)
        S, A, El = E.buf(L * 2, None, 'dir'), E.buf(L, None, 'az'), E.buf(L, None, 'el')
        E.call(P['e2h'], E.buf(L * 2, [0.0, 0.0], 'd'), 0.0, A, El)
        E.close('zenith: azimuth zero', A[0], 0.0, t)
        E.unit('zenith: elevation', 1, 0, El[0], t)
        E.call(P['h2e'], 0.0, 0.0, 0.0, S)
        E.close('zenith: hour angle zero', S[0], 0.0, t)
    return [H(P['e2h'], e2h, bounds='all angles in +-7, off the zenith'), H(P['h2e'], h2e, bounds='all angles in +-7, off the poles'),
            H(P['e2h'] + ' then ' + P['h2e'], back, bounds='off the zenith'), H(P['e2h'] + ', ' + P['h2e'] + '/zenith', pole)]


def zd(E):
    h, d, phi = E.real('ha', -7, 7), E.real('dec', -7, 7), E.real('phi', -7, 7)
    x, y, z = horizon_xyz(E, h, d, phi)
    r = E.call('zd', E.buf('dd', [h, d], 'dir'), phi)
    E.close('cosine of the zenith distance', E.cos(r), z, 1e-12)
    E.leq('not negative', 0.0, r, 1e-15)
    E.leq('at most pi', r, E.PI, 1e-6)


def pa(E):
    h, d, phi = E.real('ha', -7, 7), E.real('dec', -7, 7), E.real('phi', -7, 7)
    s = E.cos(phi) * E.sin(h)
    c = E.sin(phi) * E.cos(d) - E.cos(phi) * E.sin(d) * E.cos(h)
    E.assume(E.gt(s * s + c * c, 1e-10))
    r = E.call('pa', E.buf('dd', [h, d], 'dir'), phi)
    E.unit('parallactic angle', s, c, r, 1e-12, w=E.sqrt(s * s + c * c), ctol=1e-11)
    E.leq('at most pi', r, E.PI, 1e-6)
    E.leq('at least -pi', -E.PI, r, 1e-6)


def pa_zenith(E):
    E.close('zero at the zenith on the equator', E.call('pa', E.buf('dd', [0.0, 0.0], 'dir'), 0.0), 0.0, 1e-15)


def altaz(E):
    h, d, phi = E.real('ha', -7, 7), E.real('dec', -7, 7), E.real('phi', -7, 7)
    A = E.buf('d' * 9, None, 'am')
    x, y, z = horizon_xyz(E, h, d, phi)
    r2 = x * x + y * y
    E.assume(E.gt(r2, 1e-9))
    E.call('altaz', E.buf('dd', [h, d], 'dir'), phi, A)
    r = E.sqrt(r2)
    E.unit('azimuth', y, x, A[0], 1e-11, w=r)
    E.close('sine of the elevation', E.sin(A[3]), z, 1e-11)
    E.close('cosine of the elevation', E.cos(A[3]), r, 1e-11)
    E.leq('azimuth not negative', 0.0, A[0], 1e-12)
    E.leq('azimuth not above 2 pi', A[0], 2 * E.PI, 1e-6)
    E.leq('elevation at most 90 degrees', A[3], E.PI / 2, 1e-6)
    E.leq('elevation at least -90 degrees', -E.PI / 2, A[3], 1e-6)
    s = E.cos(phi) * E.sin(h)
    c = E.sin(phi) * E.cos(d) - E.cos(phi) * E.sin(d) * E.cos(h)
    E.assume(E.gt(s * s + c * c, 1e-9))
    E.unit('parallactic angle', s, c, A[6], 1e-11, w=E.sqrt(s * s + c * c))
    E.leq('parallactic angle at most pi', A[6], E.PI, 1e-6)
    E.leq('parallactic angle at least -pi', -E.PI, A[6], 1e-6)


def altaz_rates(E):
    """velocities and accelerations are the first and second derivatives of the angles with respect to hour angle"""
    h, d, phi = E.real('ha', -7, 7), E.real('dec', -1.5, 1.5), E.real('phi', -1.5, 1.5)
    sh, ch, sd, cd, sp, cp = E.sin(h), E.cos(h), E.sin(d), E.cos(d), E.sin(phi), E.cos(phi)
    x, y, z = -ch * cd * sp + sd * cp, -sh * cd, ch * cd * cp + sd * sp
    q = x * x + y * y
    E.assume(E.gt(q, 1e-9))
    A = E.buf('d' * 9, None, 'am')
    E.call('altaz', E.buf('dd', [h, d], 'dir'), phi, A)
    # derivatives of x, y, z with respect to the hour angle
    x1, y1, z1 = sh * cd * sp, -ch * cd, -sh * cd * cp
    x2, y2, z2 = ch * cd * sp, sh * cd, -ch * cd * cp
    # azimuth = atan2(y, x):  a' = (x y' - y x')/q,  a'' = (x y'' - y x'')/q - a' q'/q
    n, n1, q1 = x * y1 - y * x1, x * y2 - y * x2, 2 * (x * x1 + y * y1)
    E.close('azimuth velocity', A[1] * q, n, 1e-11)
    E.close('azimuth acceleration', A[2] * q * q, n1 * q - n * q1, 1e-11)
    # sin e = z:  e' = z'/cos e, e'' cos e = z'' + z e'^2
    r = E.sqrt(q)
    E.close('elevation velocity', A[4] * r, z1, 1e-11)
    E.close('elevation acceleration', A[5] * r * q, z2 * q + z * z1 * z1, 1e-11)
    # parallactic angle = atan2(s, c), s^2 + c^2 = q
    s, c = cp * sh, sp * cd - cp * sd * ch
    s1, c1, s2, c2 = cp * ch, cp * sd * sh, -cp * sh, cp * sd * ch
    n, n1, w, w1 = c * s1 - s * c1, c * s2 - s * c2, s * s + c * c, 2 * (s * s1 + c * c1)
    E.close('parallactic velocity', A[7] * w, n, 1e-11)
    E.close('parallactic acceleration', A[8] * w * w, n1 * w - n * w1, 1e-11)


def mk_pda(fn, sp, sd, sg):
    az = fn == 'pda2h'

    def box(E, name, s, hi):
        return E.real(name, 1e-3, hi) if s > 0 else E.real(name, -hi, -1e-3)

    def f(E):
        """every hour angle returned as valid reproduces the given azimuth (parallactic angle); one is rejected only for cause"""
        phi, d, g = box(E, 'phi', sp, 1.5), box(E, 'dec', sd, 1.5), box(E, 'azimuth' if az else 'pa', sg, 3.1)
        q = d - phi if sp * sd > 0 else d + phi
        E.assume(E.or_(E.gt(q, 1e-3), E.lt(q, -1e-3)))
        B = [E.buf('d', [99.0], 'ha1'), E.buf('b', None, 'v1'), E.buf('d', [99.0], 'ha2'), E.buf('b', None, 'v2')]
        E.call(fn, phi, d, g, *B)
        for k in (0, 2):
            h = B[k][0]
            if E.true(B[k + 1][0]):
                if az:
                    x, y, z = horizon_xyz(E, h, d, phi)
                else:
                    y = E.cos(phi) * E.sin(h)
                    x = E.sin(phi) * E.cos(d) - E.cos(phi) * E.sin(d) * E.cos(h)
                E.close('solution %d has that %s' % (k // 2 + 1, 'azimuth' if az else 'parallactic angle'), y * E.cos(g), x * E.sin(g), 1e-11, ctol=1e-9)
                E.leq('solution %d is on the right side of the meridian' % (k // 2 + 1), *((h * sg, 0.0) if az else (0.0, h * sg)), 1e-9)
                E.leq('hour angle at most pi', h, E.PI, 1e-6)
                E.leq('hour angle at least -pi', -E.PI, h, 1e-6)
            else:
                u, v = (d, phi) if az else (phi, d)
                a, c = E.sin(u) * E.sin(g) * E.cos(v), E.sin(g) * E.sin(v)
                none = E.gt(a * a, E.cos(u) * E.cos(u) * (E.cos(g) * E.cos(g) + c * c) - 1e-9)
                E.claim('solution %d rejected only if there is none, or it is on the wrong side' % (k // 2 + 1), E.or_(none, E.ge(h * sg, -1e-9) if az else E.le(h * sg, 1e-9)))
    return f


def harnesses(tier):
    hs = mk('d') + mk('s')
    hs += [H('zd', zd, bounds='all angles in +-7'), H('pa', pa, bounds='all angles in +-7, off the zenith'), H('pa/zenith', pa_zenith),
           H('altaz', altaz, bounds='all angles in +-7, off the zenith'), H('altaz/rates', altaz_rates, bounds='off the zenith')]
    for fn in ('pda2h', 'pdq2h'):
        for i in range(8):
            sp, sd, sg = [1 - 2 * (i >> k & 1) for k in range(3)]
            hs.append(H('%s/%s%s%s' % (fn, *['+-'[v < 0] for v in (sp, sd, sg)]), mk_pda(fn, sp, sd, sg), weight=3,
                        bounds='latitude, declination and angle of these signs, at least 1e-3 away from the critical values'))
    return hs


PROPS = {'C15': dict(harnesses=harnesses, claim='Every hour angle, declination, azimuth, elevation and latitude in the stated boxes, both precisions.')}
