"""Observer geometry, radial velocity components, proper motion and polar motion (C24)."""
from ..engine import H
from .series import f32

AU = 1.49597870e11


def geoc(E):
    p, h = E.real('latitude', -7, 7), E.real('height', -1e4, 1e5)
    r, z = E.buf('d', None, 'r'), E.buf('d', None, 'z')
    E.call('geoc', p, h, r, z)
    b2 = E.const((1 - 1 / 298.257) ** 2)
    s, c = E.sin(p), E.cos(p)
    q = 6378140 / E.sqrt(c * c + b2 * s * s)
    E.close('distance from axis', r[0], (q + h) * c / E.const(AU), 1e-15, ctol=1e-15)
    E.close('distance from equator', z[0], (b2 * q + h) * s / E.const(AU), 1e-15, ctol=1e-15)
    if E.pick(E.int('sea level', 0, 1)):
        return
    # on the spheroid itself at zero height
    E.call('geoc', p, 0.0, r, z)
    A = E.const(6378140.0 / AU)
    E.close('spheroid', r[0] * r[0] * b2 + z[0] * z[0], A * A * b2, 1e-18, ctol=1e-18)


def pvobs(E):
    p, h, st = E.real('latitude', -7, 7), E.real('height', -1e4, 1e5), E.real('lst', -7, 7)
    r, z = E.buf('d', None, 'r'), E.buf('d', None, 'z')
    E.call('geoc', p, h, r, z)
    pv = E.buf('dddddd', None, 'pv')
    E.call('pvobs', p, h, st, pv)
    w = E.const(7.292115855306589e-5)
    c, s = E.cos(st), E.sin(st)
    for n, i, v in (('x', 0, r[0] * c), ('y', 1, r[0] * s), ('z', 2, z[0]), ('dx', 3, -w * r[0] * s), ('dy', 4, w * r[0] * c), ('dz', 5, 0.0)):
        E.close(n, pv[i], v, 1e-18, ctol=1e-18)


def rverot(E):
    p, st, ra, dec = [E.real(n, -7, 7, f32=True) for n in ('latitude', 'lst', 'ra', 'dec')]
    r = E.call('rverot', p, E.buf('ff', [ra, dec], 'pos'), st)
    E.close('towards east', r, E.const(f32(0.4655)) * E.cos(p) * E.sin(st - ra) * E.cos(dec), 1e-6, ctol=2e-6)


VEL = {'rvgalc': (-108.70408, 97.86251, -164.33610), 'rvlg': (-148.23284, 133.44888, -224.09467), 'rvlsrd': (0.63823, 14.58542, -7.80116), 'rvlsrk': (-0.29000, 17.31726, -10.00141)}


def mk_rv(fn):
    def f(E):
        ra, dec = E.real('ra', -7, 7, f32=True), E.real('dec', -7, 7, f32=True)
        r = E.call(fn, E.buf('ff', [ra, dec], 'pos'))
        v = [E.const(f32(x)) for x in VEL[fn]]
        E.close('component away from the apex', r, v[0] * E.cos(ra) * E.cos(dec) + v[1] * E.sin(ra) * E.cos(dec) + v[2] * E.sin(dec), 1e-5, ctol=2e-4)
    return f


def pm(E):
    ra, dec = E.real('ra', -3.2, 6.4), E.real('dec', -1.57, 1.57)
    mr, md, px, rv = E.real('pm ra', -1e-4, 1e-4), E.real('pm dec', -1e-4, 1e-4), E.real('parallax', 0, 1), E.real('velocity', -500, 500)
    e0, e1 = E.real('ep0', 1900, 2100), E.real('ep1', 1900, 2100)
    t = e1 - e0
    sa, ca, sd, cd = E.sin(ra), E.cos(ra), E.sin(dec), E.cos(dec)
    w = E.const((365.25 * 86400.0 / 149597870.0) * 4.8481368111e-6) * rv * px
    v = [ca * cd + t * (w * ca * cd - mr * sa * cd - md * ca * sd), sa * cd + t * (w * sa * cd + mr * ca * cd - md * sa * sd), sd + t * (w * sd + md * cd)]
    for x in v:
        E.cut(x)
    o = E.buf('dd', None, 'out')
    E.call('pm', E.buf('dd', [ra, dec], 'pos'), E.buf('dd', [mr, md], 'motion'), px, rv, e0, e1, o)
    h = E.sqrt(v[0] * v[0] + v[1] * v[1])
    n = E.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
    E.leq('right ascension not negative', 0, o[0], 0.0)
    E.leq('right ascension at most 2pi', o[0], 6.283185307179587, 1e-15)
    E.leq('declination', o[1], 1.5707963267948967, 1e-15)
    E.leq('declination', -1.5707963267948967, o[1], 1e-15)
    E.close('east', E.sin(o[0]) * h, v[1], 1e-12, ctol=1e-12)
    E.close('towards equinox', E.cos(o[0]) * h, v[0], 1e-12, ctol=1e-12)
    E.close('declination.sin', E.sin(o[1]) * n, v[2], 1e-12, ctol=1e-12)
    E.close('declination.cos', E.cos(o[1]) * n, h, 1e-12, ctol=1e-12)


def pm_still(E):
    """no elapsed time: the direction is kept"""
    ra, dec, e = E.real('ra', 0.0, 6.28), E.real('dec', -1.57, 1.57), E.real('ep', 1900, 2100)
    o = E.buf('dd', None, 'out')
    E.call('pm', E.buf('dd', [ra, dec], 'pos'), E.buf('dd', [E.real('pm ra', -1e-4, 1e-4), E.real('pm dec', -1e-4, 1e-4)], 'motion'), E.real('parallax', 0, 1), E.real('velocity', -500, 500), e, e, o)
    E.angle('right ascension', o[0], ra, 1e-9)
    E.angle('declination', o[1], dec, 1e-9)


def polmo(E):
    el, ph, x, y = E.real('longitude', -3.14, 3.14), E.real('latitude', -1.55, 1.55), E.real('x', -1e-3, 1e-3), E.real('y', -1e-3, 1e-3)
    sx, cx, sy, cy = E.sin(x), E.cos(x), E.sin(y), E.cos(y)
    v = [E.cos(el) * E.cos(ph), E.sin(el) * E.cos(ph), E.sin(ph)]
    z = -v[1] * sy + v[2] * cy
    T = [v[0] * cx - z * sx, v[1] * cy + v[2] * sy, v[0] * sx + z * cx]
    o = [E.buf('d', None, n) for n in ('tl', 'tp', 'daz')]
    E.call('polmo', el, ph, x, y, *o)
    h = E.sqrt(T[0] * T[0] + T[1] * T[1])
    E.close('longitude.sin', E.sin(o[0][0]) * h, T[1], 1e-9)
    E.close('longitude.cos', E.cos(o[0][0]) * h, T[0], 1e-9)
    E.close('latitude.sin', E.sin(o[1][0]), T[2], 1e-9)
    E.close('latitude.cos', E.cos(o[1][0]), h, 1e-9)
    # the terrestrial pole in the true frame, its components north and east at the true site (times h)
    N = [-sx * cy, sy, cx * cy]
    north = N[2] * h * h - (N[0] * T[0] + N[1] * T[1]) * T[2]
    east = (-N[0] * T[1] + N[1] * T[0])
    d = E.sqrt(north * north + east * east)
    E.close('azimuth.sin', E.sin(o[2][0]) * d, -east, 1e-9)
    E.close('azimuth.cos', E.cos(o[2][0]) * d, north, 1e-9)


def polmo_pole(E):
    """a site exactly on the celestial pole: longitude zero and a finite azimuth correction"""
    s = (1, -1)[E.pick(E.int('south', 0, 1))]
    o = [E.buf('d', None, n) for n in ('tl', 'tp', 'daz')]
    E.call('polmo', 0.0, s * 1.5707963267948966, s * 6.123233995736766e-17, 0.0, *o)
    E.close('longitude', o[0][0], 0.0, 1e-12)
    E.close('latitude', o[1][0], s * 1.5707963267948966, 1e-12)
    E.leq('azimuth correction', o[2][0], 3.2)
    E.leq('azimuth correction', -3.2, o[2][0])


def polmo_none(E):
    el, ph = E.real('longitude', -3.14, 3.14), E.real('latitude', -1.57, 1.57)
    o = [E.buf('d', None, n) for n in ('tl', 'tp', 'daz')]
    E.call('polmo', el, ph, 0.0, 0.0, *o)
    E.angle('longitude', o[0][0], el, 1e-9)
    E.angle('latitude', o[1][0], ph, 1e-9)
    E.angle('azimuth', o[2][0], 0.0, 1e-9)


def c24(tier):
    hs = [H('geoc', geoc), H('pvobs', pvobs), H('rverot', rverot), H('pm', pm, bounds='|proper motion| <= 1e-4 rad/yr, 1900..2100'), H('pm/no time', pm_still), H('polmo', polmo), H('polmo/no motion', polmo_none), H('polmo/pole', polmo_pole, bounds='one double-precision case per pole')]
    return hs + [H(fn, mk_rv(fn)) for fn in VEL]


PROPS = {'C24': dict(harnesses=c24, claim='All arguments in the boxes.')}
