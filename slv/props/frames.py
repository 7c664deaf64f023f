"""Precession, nutation and ecliptic matrices (C14); galactic, supergalactic, ecliptic and FK4 E-term transformations (C16)."""
from ..engine import H
from .vecs import orthogonal

AS2R = 0.484813681109535994e-5


def rot(E, ax, a):
    s, c = E.sin(a), E.cos(a)
    return {'X': [1, 0, 0, 0, c, s, 0, -s, c], 'Y': [c, 0, -s, 0, 1, 0, s, 0, c], 'Z': [c, s, 0, -s, c, 0, 0, 0, 1]}[ax]


def mul(a, b):
    r = []
    for i in range(3):
        for j in range(3):
            e = 0
            for k in range(3):
                x, y = a[3 * i + k], b[3 * k + j]
                if isinstance(x, (int, float)) and x == 0 or isinstance(y, (int, float)) and y == 0:
                    continue
                e = e + x * y
            r.append(e)
    return r


def horner(E, cs, x):
    r = E.const(cs[-1])
    for c in reversed(cs[:-1]):
        r = E.const(c) + r * x
    return r


def poly2(E, rows, t0, t):
    """sum rows[i](t0) t^i"""
    return horner2([horner(E, r, t0) if isinstance(r, (list, tuple)) else E.const(r) for r in rows], t)


def horner2(cs, x):
    r = cs[-1]
    for c in reversed(cs[:-1]):
        r = c + r * x
    return r


# Euler angles in arcseconds: coefficients of t (per power), polynomials in t0
MODELS = {
    'prec': (2000.0, 100.0, [[2306.2181, 1.39656, -0.000139], [0.30188, -0.000344], [0.017998]],
             [[2306.2181, 1.39656, -0.000139], [1.09468, 0.000066], [0.018203]],
             [[2004.3109, -0.85330, -0.000217], [-0.42665, -0.000217], [-0.041833]]),
    'prebn': (1850.0, 100.0, [[2303.5548, 1.39720, 0.000059], [0.30242, -0.000269], [0.017996]],
              [[2303.5548, 1.39720, 0.000059], [1.09478, 0.000387], [0.018324]],
              [[2005.1125, -0.85294, -0.000365], [-0.42647, -0.000365], [-0.041802]]),
    'precl': (2000.0, 1000.0,
              [[23060.9097, 139.7459, -0.0038, -0.5918, -0.0037, 0.0007], [30.2226, -0.2523, -0.3840, -0.0014, 0.0007], [18.0183, -0.1326, 0.0006, 0.0005],
               [-0.0583, -0.0001, 0.0007], [-0.0285], [-0.0002]],
              [[23060.9097, 139.7459, -0.0038, -0.5918, -0.0037, 0.0007], [109.5270, 0.2446, -1.3913, -0.0134, 0.0026], [18.2667, -1.1400, -0.0173, 0.0044],
               [-0.2821, -0.0093, 0.0032], [-0.0301, 0.0006], [-0.0001]],
              [[20042.0207, -85.3131, -0.2111, 0.3642, 0.0008, -0.0005], [-42.6566, -0.2111, 0.5463, 0.0017, -0.0012], [-41.8238, 0.0359, 0.0027, -0.0001],
               [-0.0731, 0.0019, 0.0009], [-0.0127, 0.0011], [0.0004]]),
}


def prec_angles(E, fn, ep0, ep1):
    base, unit, zeta, z, theta = MODELS[fn]
    t0, t = (ep0 - base) / unit, (ep1 - ep0) / unit
    k = t * E.const(AS2R)
    return [poly2(E, m, t0, t) * k for m in (zeta, z, theta)]


def prec_matrix(E, fn, ep0, ep1):
    zeta, z, theta = prec_angles(E, fn, ep0, ep1)
    return mul(rot(E, 'Z', -z), mul(rot(E, 'Y', theta), rot(E, 'Z', -zeta)))


EP = {'prec': (1000, 3000), 'prebn': (1000, 3000), 'precl': (-5000, 7000)}


def mk_prec(fn):
    def f(E):
        lo, hi = EP[fn]
        a, b = E.real('ep0', lo, hi), E.real('ep1', lo, hi)
        M = E.buf('d' * 9, None, 'm')
        E.call(fn, a, b, M)
        R = prec_matrix(E, fn, a, b)
        for i in range(9):
            E.close('element %d%d' % (i // 3, i % 3), M[i], R[i], 1e-12, ctol=1e-10)

    def orth(E):
        lo, hi = EP[fn]
        a, b = E.real('ep0', lo, hi), E.real('ep1', lo, hi)
        M = E.buf('d' * 9, None, 'm')
        E.call(fn, a, b, M)
        orthogonal(E, M.all(), 1e-12)

    def same(E):
        a = E.real('ep', *EP[fn])
        M = E.buf('d' * 9, None, 'm')
        E.call(fn, a, a, M)
        for i in range(9):
            E.close('no precession over no time', M[i], 1.0 if i % 4 == 0 else 0.0, 1e-14)
    return f, orth, same


def obliquity(E, mjd):
    t = (mjd - E.const(51544.5)) / 36525
    return E.const(AS2R) * horner(E, [84381.448, -46.8150, -0.00059, 0.001813], t)


DLO, DHI = -100000.0, 150000.0


def ecmat(E):
    d = E.real('mjd', DLO, DHI)
    M = E.buf('d' * 9, None, 'm')
    E.call('ecmat', d, M)
    R = rot(E, 'X', obliquity(E, d))
    for i in range(9):
        E.close('element %d%d' % (i // 3, i % 3), M[i], R[i], 1e-12)


def nutmat(E, d):
    p, e, e0 = [E.buf('d', None, n) for n in ('psi', 'eps', 'eps0')]
    E.call('nutc', d, p, e, e0)
    return mul(rot(E, 'X', -(e0[0] + e[0])), mul(rot(E, 'Z', -p[0]), rot(E, 'X', e0[0])))


def nut(E):
    d = E.real('mjd', DLO, DHI)
    M = E.buf('d' * 9, None, 'm')
    E.call('nut', d, M)
    R = nutmat(E, d)
    for i in range(9):
        E.close('element %d%d' % (i // 3, i % 3), M[i], R[i], 1e-12)


def nut_orth(E):
    d = E.real('mjd', DLO, DHI)
    M = E.buf('d' * 9, None, 'm')
    E.call('nut', d, M)
    orthogonal(E, M.all(), 1e-12)


def prenut(E):
    ep, d = E.real('epoch', 1000, 3000), E.real('mjd', DLO, DHI)
    M, N, P = [E.buf('d' * 9, None, n) for n in 'mnp']
    E.call('prenut', ep, d, M)
    E.call('nut', d, N)
    E.call('prec', ep, 2000 + (d - E.const(51544.5)) / E.const(365.25), P)
    R = mul(N.all(), P.all())
    for i in range(9):
        E.close('element %d%d' % (i // 3, i % 3), M[i], R[i], 1e-12, ctol=1e-10)


def s2v(E, a, b):
    return [E.cos(a) * E.cos(b), E.sin(a) * E.cos(b), E.sin(b)]


def mv(M, v):
    r = []
    for i in range(3):
        e = 0
        for j in range(3):
            x = M[3 * i + j]
            if not (isinstance(x, (int, float)) and x == 0):
                e = e + x * v[j]
        r.append(e)
    return r


def tr(M):
    return [M[3 * (k % 3) + k // 3] for k in range(9)]


def is_direction(E, S, w, tol=1e-12, rng=True, names=('longitude', 'latitude'), ctol=1e-9):
    """S holds the spherical coordinates of the direction w (not normalised); w must be off the poles"""
    q = w[0] * w[0] + w[1] * w[1]
    E.assume(E.gt(q, 1e-8))
    m = E.sqrt(q + w[2] * w[2])
    E.close('%s: x' % names[0], E.cos(S[1]) * E.cos(S[0]) * m, w[0], tol, ctol=ctol)
    E.close('%s: y' % names[0], E.cos(S[1]) * E.sin(S[0]) * m, w[1], tol, ctol=ctol)
    E.close('%s: z' % names[1], E.sin(S[1]) * m, w[2], tol, ctol=ctol)
    if rng:
        E.leq('%s not negative' % names[0], 0.0, S[0], 1e-9)
        E.leq('%s not above 2 pi' % names[0], S[0], 2 * E.PI, 1e-9)
        E.leq('%s at most pi/2' % names[1], S[1], E.PI / 2, 1e-9)
        E.leq('%s at least -pi/2' % names[1], -E.PI / 2, S[1], 1e-9)


def mk_preces(sysid):
    def f(E):
        a, b, e0, e1 = E.real('ra', -7, 7), E.real('dec', -1.57, 1.57), E.real('ep0', 1500, 2500), E.real('ep1', 1500, 2500)
        fn = {4: 'prebn', 5: 'prec'}[sysid]
        M = E.buf('d' * 9, None, 'm')
        E.call(fn, e0, e1, M)
        S = E.buf('dd', [a, b], 'pos')
        E.call('preces', sysid, e0, e1, S)
        is_direction(E, S, mv(M.all(), s2v(E, a, b)), names=('right ascension', 'declination'))
    return f


def preces_bad(E):
    a, b, e0, e1 = E.real('ra', -7, 7), E.real('dec', -1.57, 1.57), E.real('ep0', 1500, 2500), E.real('ep1', 1500, 2500)
    s = E.int('system', 0, 6)
    E.assume(E.and_(E.ne(s, 4), E.ne(s, 5)))
    S = E.buf('dd', [a, b], 'pos')
    E.call('preces', s, e0, e1, S)
    E.claim('unsupported system gives -99, -99', E.and_(E.eq(S[0], -99.0), E.eq(S[1], -99.0)))


def harnesses_c14(tier):
    hs = []
    for fn in ('prec', 'prebn', 'precl'):
        a, b, c = mk_prec(fn)
        B = 'epochs %d..%d' % EP[fn]
        hs += [H(fn, a, bounds=B, expand=False), H(fn + '/orthogonal', b, bounds=B, expand=False), H(fn + '/same epoch', c, bounds=B)]
    D = 'MJD %g..%g' % (DLO, DHI)
    hs += [H('ecmat', ecmat, bounds=D), H('nut', nut, bounds=D, expand=False), H('nut/orthogonal', nut_orth, bounds=D, expand=False), H('prenut', prenut, bounds=D, expand=False),
           H('preces/FK4', mk_preces(4), bounds='epochs 1500..2500, off the poles', expand=False), H('preces/FK5', mk_preces(5), bounds='epochs 1500..2500, off the poles', expand=False),
           H('preces/other systems', preces_bad)]
    return hs


# ------------------------------------------------------------------------------------------------ C16
GAL = [-0.054875539726, -0.873437108010, -0.483834985808, +0.494109453312, -0.444829589425, +0.746982251810, -0.867666135858, -0.198076386122, +0.455983795705]
SGAL = [-0.735742574804, +0.677261296414, 0.0, -0.074553778365, -0.080991471307, +0.993922590400, +0.673145302109, +0.731271165817, +0.110081262225]
GAL50 = [-0.066988739415, -0.872755765852, -0.483538914632, +0.492728466075, -0.450346958020, +0.744584633283, -0.867600811151, -0.188374601723, +0.460199784784]


def mk_fixed(fn, M):
    def f(E):
        a, b = E.real('a', -7, 7), E.real('b', -1.57, 1.57)
        S = E.buf('dd', None, 'out')
        E.call(fn, E.buf('dd', [a, b], 'in'), S)
        is_direction(E, S, mv([E.const(x) if x else 0 for x in M], s2v(E, a, b)), tol=1e-9)
    return f


def eterms(E, be):
    t = (be - 1950) * E.const(1.00002135903e-2)
    e = E.const(0.01673011) - (E.const(0.00004193) + E.const(0.000000126) * t) * t
    ob = horner(E, [84404.836, -46.8495, -0.00319, -0.00181], t) * E.const(AS2R)
    pl = horner(E, [1015489.951, 6190.67, 1.65, 0.012], t) * E.const(AS2R)
    k = e * E.const(20.49552) * E.const(AS2R)
    return [k * E.sin(pl), -k * E.cos(pl) * E.cos(ob), -k * E.cos(pl) * E.sin(ob)]


def etrms(E):
    be = E.real('epoch', 1700, 2200)
    V = E.buf('ddd', None, 'ev')
    E.call('etrms', be, V)
    ex = eterms(E, be)
    for i in range(3):
        E.close('component %d' % i, V[i], ex[i], 1e-16, ctol=1e-15)


def addet(E):
    a, b, be = E.real('ra', -7, 7), E.real('dec', -1.57, 1.57), E.real('epoch', 1700, 2200)
    S, V = E.buf('dd', None, 'out'), E.buf('ddd', None, 'ev')
    E.call('addet', E.buf('dd', [a, b], 'in'), be, S)
    E.call('etrms', be, V)
    v = s2v(E, a, b)
    is_direction(E, S, [v[i] + V[i] for i in range(3)], names=('right ascension', 'declination'), ctol=1e-11)


def subet(E):
    a, b, be = E.real('ra', -7, 7), E.real('dec', -1.57, 1.57), E.real('epoch', 1700, 2200)
    S, V = E.buf('dd', None, 'out'), E.buf('ddd', None, 'ev')
    E.call('etrms', be, V)
    v = s2v(E, a, b)
    V = [E.cut(x) for x in V.all()]
    f = 1 + sum(v[i] * V[i] for i in range(3))
    w = [E.cut(v[i] * f - V[i]) for i in range(3)]
    E.call('subet', E.buf('dd', [a, b], 'in'), be, S)
    is_direction(E, S, w, names=('right ascension', 'declination'), ctol=1e-11)


def eg50(E):
    a, b = E.real('ra', -7, 7), E.real('dec', -1.57, 1.57)
    S, L = E.buf('dd', None, 'out'), E.buf('dd', None, 'loc')
    E.call('subet', E.buf('dd', [a, b], 'in'), 1950.0, L)
    g = mv([E.const(x) for x in GAL50], s2v(E, E.cut(L[0]), E.cut(L[1])))
    E.call('eg50', E.buf('dd', [a, b], 'in'), S)
    is_direction(E, S, g, tol=1e-9)


def ge50(E):
    a, b = E.real('l', -7, 7), E.real('b', -1.57, 1.57)
    S, V, L = E.buf('dd', None, 'out'), E.buf('ddd', None, 'ev'), E.buf('dd', None, 'loc')
    E.call('etrms', 1950.0, V)
    w = [E.cut(x) for x in mv(tr([E.const(x) for x in GAL50]), s2v(E, a, b))]
    E.assume(E.gt(w[0] * w[0] + w[1] * w[1], 1e-8))
    E.call('dcc2s', E.buf('ddd', w, 'w'), L)
    u = s2v(E, E.cut(L[0]), E.cut(L[1]))
    E.call('ge50', E.buf('dd', [a, b], 'in'), S)
    is_direction(E, S, [u[i] + V[i] for i in range(3)], tol=1e-9, names=('right ascension', 'declination'))


def mk_ecl(fn):
    def f(E):
        a, b, d = E.real('a', -7, 7), E.real('b', -1.57, 1.57), E.real('mjd', -50000, 100000)
        S = E.buf('dd', None, 'out')
        X, P = E.buf('d' * 9, None, 'x'), E.buf('d' * 9, None, 'p')
        E.call('ecmat', d, X)
        E.call('prec', 2000.0, 2000 + (d - E.const(51544.5)) / E.const(365.25), P)
        v = s2v(E, a, b)
        w = mv(X.all(), mv(P.all(), v)) if fn == 'eqecl' else mv(tr(P.all()), mv(tr(X.all()), v))
        w = [E.cut(x) for x in w]
        E.assume(E.gt(w[0] * w[0] + w[1] * w[1], 1e-8))
        E.call(fn, E.buf('dd', [a, b], 'in'), d, S)
        is_direction(E, S, w, tol=1e-10, ctol=1e-9)
    return f


def harnesses_c16(tier):
    hs = []
    B = 'every direction off the poles'
    for fn, M in (('eqgal', GAL), ('galeq', tr(GAL)), ('galsup', SGAL), ('supgal', tr(SGAL))):
        hs.append(H(fn, mk_fixed(fn, M), bounds=B))
    hs += [H('etrms', etrms, bounds='Besselian epochs 1700..2200'), H('addet', addet, bounds='Besselian epochs 1700..2200', expand=False), H('subet', subet, bounds='Besselian epochs 1700..2200', expand=False),
           H('eg50', eg50, bounds=B), H('ge50', ge50, bounds=B), H('eqecl', mk_ecl('eqecl'), bounds=B + ', MJD -50000..100000', expand=False),
           H('ecleq', mk_ecl('ecleq'), bounds=B + ', MJD -50000..100000', expand=False)]
    return hs


PROPS = {
    'C14': dict(harnesses=harnesses_c14, claim='Every pair of epochs and every date in the stated ranges; the composite matrices are decided relative to the nutation components of the same code (C22 decides those).'),
    'C16': dict(harnesses=harnesses_c16, claim='Every direction off the poles, every date and epoch in the stated ranges.'),
}
