"""Vectors, matrices and spherical coordinates (C12), rotation matrices (C13), separations and bearings (C20)."""
from ..engine import H

PREC = {'d': dict(f32=False, tol=1e-12, L='d', eps=1e-10), 's': dict(f32=True, tol=2e-5, L='f', eps=1e-3)}
NM = {'s': {}, 'd': {}}
for s_, d_ in (('vdv', 'dvdv'), ('vn', 'dvn'), ('vxv', 'dvxv'), ('mxv', 'dmxv'), ('imxv', 'dimxv'), ('mxm', 'dmxm'), ('cs2c', 'dcs2c'),
               ('cc2s', 'dcc2s'), ('cs2c6', 'ds2c6'), ('cc62s', 'dc62s'), ('av2m', 'dav2m'), ('m2av', 'dm2av'), ('euler', 'deuler'),
               ('pav', 'dpav'), ('bear', 'dbear'), ('sep', 'dsep'), ('sepv', 'dsepv')):
    NM['s'][s_] = s_
    NM['d'][s_] = d_


def vec(E, p, name, b=10.0):
    return [E.real('%s%d' % (name, i), -b, b, f32=PREC[p]['f32']) for i in range(3)]


def mk_products(p):
    P, N = PREC[p], NM[p]
    T = P['tol'] * 300

    def dot(E):
        a, b = vec(E, p, 'a'), vec(E, p, 'b')
        A, B = E.buf(P['L'] * 3, a, 'a'), E.buf(P['L'] * 3, b, 'b')
        E.close('scalar product', E.call(N['vdv'], A, B), a[0] * b[0] + a[1] * b[1] + a[2] * b[2], T)
        E.close('symmetric', E.call(N['vdv'], B, A), E.call(N['vdv'], A, B), T)

    def cross(alias):
        def f(E):
            a, b = vec(E, p, 'a'), vec(E, p, 'b')
            A, B = E.buf(P['L'] * 3, a, 'a'), E.buf(P['L'] * 3, b, 'b')
            C = {0: E.buf(P['L'] * 3, None, 'c'), 1: A, 2: B}[alias]
            E.call(N['vxv'], A, B, C)
            for i in range(3):
                j, k = (i + 1) % 3, (i + 2) % 3
                E.close('component %d' % i, C[i], a[j] * b[k] - a[k] * b[j], T)
                if alias != 1: E.same('first operand unchanged', A[i], a[i])
                if alias != 2: E.same('second operand unchanged', B[i], b[i])
        return f

    def crossself(E):
        a = vec(E, p, 'a')
        A = E.buf(P['L'] * 3, a, 'a')
        E.call(N['vxv'], A, A, A)
        for i in range(3):
            E.close('vector product with itself vanishes', A[i], 0.0, T)

    def norm(alias):
        def f(E):
            a = vec(E, p, 'a')
            E.assume(E.gt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2], P['eps'] * 1e-2))
            A = E.buf(P['L'] * 3, a, 'a')
            U = A if alias else E.buf(P['L'] * 3, None, 'u')
            m = E.call(N['vn'], A, U)
            E.leq('modulus not negative', 0.0, m)
            E.close('modulus squared', m * m, a[0] * a[0] + a[1] * a[1] + a[2] * a[2], T * 10)
            u = U.all()
            E.close('unit length', u[0] * u[0] + u[1] * u[1] + u[2] * u[2], 1.0, P['tol'])
            for i in range(3):
                E.close('same direction', u[i] * m, a[i], T)
        return f

    def normzero(E):
        A = E.buf(P['L'] * 3, [0.0, 0.0, 0.0], 'a')
        U = E.buf(P['L'] * 3, [E.real('g%d' % i, -9, 9, f32=P['f32']) for i in range(3)], 'u')
        m = E.call(N['vn'], A, U)
        E.claim('null vector stays null', E.and_(E.eq(m, 0.0), *[E.eq(U[i], 0.0) for i in range(3)]))

    def mv(fn, alias):
        def f(E):
            m = [E.real('m%d%d' % (i, j), -5, 5, f32=P['f32']) for i in range(3) for j in range(3)]
            a = vec(E, p, 'a')
            M, A = E.buf(P['L'] * 9, m, 'm'), E.buf(P['L'] * 3, a, 'a')
            B = A if alias else E.buf(P['L'] * 3, None, 'b')
            E.call(N[fn], M, A, B)
            for i in range(3):
                E.close('component %d' % i, B[i], sum((m[3 * i + j] if fn == 'mxv' else m[3 * j + i]) * a[j] for j in range(3)), T)
                if not alias: E.same('operand unchanged', A[i], a[i])
            for i in range(9):
                E.same('matrix unchanged', M[i], m[i])
        return f

    def mm(alias):
        def f(E):
            a = [E.real('a%d%d' % (i, j), -5, 5, f32=P['f32']) for i in range(3) for j in range(3)]
            b = [E.real('b%d%d' % (i, j), -5, 5, f32=P['f32']) for i in range(3) for j in range(3)]
            A, B = E.buf(P['L'] * 9, a, 'a'), E.buf(P['L'] * 9, b, 'b')
            C = {0: E.buf(P['L'] * 9, None, 'c'), 1: A, 2: B}.get(alias)
            if alias == 3:
                B, C, b = A, A, a
            E.call(N['mxm'], A, B, C)
            for i in range(3):
                for j in range(3):
                    E.close('element %d%d' % (i, j), C[3 * i + j], sum(a[3 * i + k] * b[3 * k + j] for k in range(3)), T)
        return f
    hs = [H(N['vdv'], dot), H(N['vxv'] + '/self', crossself), H(N['vn'] + '/null', normzero)]
    for al in (0, 1, 2):
        hs.append(H(N['vxv'] + '/alias%d' % al, cross(al), bounds='components in +-10'))
    for al in (0, 1):
        hs.append(H(N['vn'] + '/alias%d' % al, norm(al), bounds='components in +-10, not null'))
        hs.append(H(N['mxv'] + '/alias%d' % al, mv('mxv', al), bounds='elements in +-5'))
        hs.append(H(N['imxv'] + '/alias%d' % al, mv('imxv', al), bounds='elements in +-5'))
    for al in (0, 1, 2, 3):
        hs.append(H(N['mxm'] + '/alias%d' % al, mm(al), bounds='elements in +-5'))
    return hs


def mk_spherical(p):
    P, N = PREC[p], NM[p]
    t, L, f32 = P['tol'], P['L'], P['f32']

    def s2c(E):
        a, b = E.real('a', -7, 7, f32=f32), E.real('b', -7, 7, f32=f32)
        V = E.buf(L * 3, None, 'v')
        E.call(N['cs2c'], E.buf(L * 2, [a, b], 's'), V)
        E.close('x', V[0], E.cos(a) * E.cos(b), t)
        E.close('y', V[1], E.sin(a) * E.cos(b), t)
        E.close('z', V[2], E.sin(b), t)

    def c2s(E):
        v = vec(E, p, 'v')
        E.assume(E.gt(v[0] * v[0] + v[1] * v[1], P['eps']))
        S = E.buf(L * 2, None, 's')
        E.call(N['cc2s'], E.buf(L * 3, v, 'v'), S)
        rho = E.sqrt(v[0] * v[0] + v[1] * v[1])
        R = E.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
        E.unit('longitude', v[1], v[0], S[0], t * 30, w=rho)
        E.unit('latitude', v[2], rho, S[1], t * 30, w=R)
        E.leq('longitude at most pi', S[0], E.PI, 1e-6)
        E.leq('longitude at least -pi', -E.PI, S[0], 1e-6)
        E.leq('latitude at most pi/2', S[1], E.PI / 2, 1e-6)
        E.leq('latitude at least -pi/2', -E.PI / 2, S[1], 1e-6)

    def c2s_pole(E):
        z = E.real('z', -10, 10, f32=f32)
        S = E.buf(L * 2, None, 's')
        E.call(N['cc2s'], E.buf(L * 3, [0.0, 0.0, z], 'v'), S)
        E.claim('longitude zero at the poles and for the null vector', E.eq(S[0], 0.0))
        w = 1 if E.true(E.gt(z, 0)) else -1 if E.true(E.lt(z, 0)) else 0
        if w:
            E.unit('latitude of the pole', w, 0, S[1], t)
            E.leq('latitude at most pi/2', S[1], E.PI / 2, 1e-6)
            E.leq('latitude at least -pi/2', -E.PI / 2, S[1], 1e-6)
        else:
            E.close('latitude of the null vector', S[1], 0.0, t)

    def back(E):
        """spherical -> Cartesian -> spherical"""
        a, b = E.real('a', -3.1, 3.1, f32=f32), E.real('b', -1.5, 1.5, f32=f32)
        V, S = E.buf(L * 3, None, 'v'), E.buf(L * 2, None, 's')
        E.call(N['cs2c'], E.buf(L * 2, [a, b], 's'), V)
        E.call(N['cc2s'], V, S)
        E.angle('longitude comes back', S[0], a, t * 30)
        E.angle('latitude comes back', S[1], b, t * 30)

    def s2c6(E):
        a, b, r = E.real('a', -7, 7, f32=f32), E.real('b', -7, 7, f32=f32), E.real('r', -5, 5, f32=f32)
        ad, bd, rd = [E.real(n, -3, 3, f32=f32) for n in ('ad', 'bd', 'rd')]
        V = E.buf(L * 6, None, 'pv')
        E.call(N['cs2c6'], E.buf(L * 6, [a, b, r, ad, bd, rd], 's'), V)
        sa, ca, sb, cb = E.sin(a), E.cos(a), E.sin(b), E.cos(b)
        ex = [r * ca * cb, r * sa * cb, r * sb,
              rd * ca * cb - r * sa * cb * ad - r * ca * sb * bd, rd * sa * cb + r * ca * cb * ad - r * sa * sb * bd, rd * sb + r * cb * bd]
        for i, n in enumerate(('x', 'y', 'z', 'dx', 'dy', 'dz')):
            E.close(n, V[i], ex[i], t * 30)

    def c62s(E):
        v = vec(E, p, 'v', 3.0)
        d = vec(E, p, 'd', 3.0)
        q = v[0] * v[0] + v[1] * v[1]
        E.assume(E.gt(q, P['eps']))
        S = E.buf(L * 6, None, 's')
        E.call(N['cc62s'], E.buf(L * 6, v + d, 'pv'), S)
        rho, R = E.sqrt(q), E.sqrt(q + v[2] * v[2])
        E.unit('longitude', v[1], v[0], S[0], t * 30, w=rho)
        E.unit('latitude', v[2], rho, S[1], t * 30, w=R)
        E.close('distance', S[2], R, t * 30)
        E.leq('latitude at most pi/2', S[1], E.PI / 2, 1e-6)
        E.leq('latitude at least -pi/2', -E.PI / 2, S[1], 1e-6)
        E.close('longitude rate', S[3] * q, v[0] * d[1] - v[1] * d[0], t * 300)
        E.close('latitude rate', S[4] * R * R * rho, d[2] * q - v[2] * (v[0] * d[0] + v[1] * d[1]), t * 900)
        E.close('radial rate', S[5] * R, v[0] * d[0] + v[1] * d[1] + v[2] * d[2], t * 300)

    def c62s_pole(E):
        z = E.real('z', -5, 5, f32=f32)
        d = vec(E, p, 'd', 3.0)
        E.assume(E.ne(z, 0))
        S = E.buf(L * 6, None, 's')
        E.call(N['cc62s'], E.buf(L * 6, [0.0, 0.0, z] + d, 'pv'), S)
        w = 1 if E.true(E.gt(z, 0)) else -1
        E.close('longitude zero at the pole', S[0], 0.0, t)
        E.unit('latitude of the pole', w, 0, S[1], t)
        E.close('distance', S[2], w * z, t * 10)
        E.close('radial rate', S[5], w * d[2], t * 10)
        E.close('no longitude rate', S[3], 0.0, t)
        E.close('no latitude rate', S[4], 0.0, t)

    def c62s_null(E):
        S = E.buf(L * 6, None, 's')
        E.call(N['cc62s'], E.buf(L * 6, [0.0] * 6, 'pv'), S)
        for i in range(6):
            E.claim('null state gives zeros', E.eq(S[i], 0.0))

    def c62s_through(E):
        """a body passing through the origin: its direction is that of the velocity, which is all radial"""
        d = vec(E, p, 'd', 3.0)
        q = d[0] * d[0] + d[1] * d[1]
        E.assume(E.gt(q, P['eps']))
        S = E.buf(L * 6, None, 's')
        E.call(N['cc62s'], E.buf(L * 6, [0.0, 0.0, 0.0] + d, 'pv'), S)
        rho, R = E.sqrt(q), E.sqrt(q + d[2] * d[2])
        E.unit('longitude of the velocity', d[1], d[0], S[0], t * 30, w=rho)
        E.unit('latitude of the velocity', d[2], rho, S[1], t * 30, w=R)
        E.close('radial rate is the speed', S[5] * R, R * R, t * 300)
        E.close('no longitude rate', S[3], 0.0, t)
        E.close('no latitude rate', S[4], 0.0, t)

    def c62s_through_pole(E):
        z = E.real('dz', -5, 5, f32=f32)
        E.assume(E.ne(z, 0))
        S = E.buf(L * 6, None, 's')
        E.call(N['cc62s'], E.buf(L * 6, [0.0, 0.0, 0.0, 0.0, 0.0, z], 'pv'), S)
        w = 1 if E.true(E.gt(z, 0)) else -1
        E.close('longitude zero at the pole', S[0], 0.0, t)
        E.unit('latitude of the velocity', w, 0, S[1], t)
        E.close('radial rate is the speed', S[5], w * z, t * 10)
        E.close('no longitude rate', S[3], 0.0, t)
        E.close('no latitude rate', S[4], 0.0, t)

    def round6(E):
        """spherical -> Cartesian -> spherical, with velocities"""
        a, b, r = E.real('a', -3.1, 3.1, f32=f32), E.real('b', -1.4, 1.4, f32=f32), E.real('r', 0.5, 4, f32=f32)
        ad, bd, rd = [E.real(n, -2, 2, f32=f32) for n in ('ad', 'bd', 'rd')]
        V, S = E.buf(L * 6, None, 'pv'), E.buf(L * 6, None, 's')
        E.call(N['cs2c6'], E.buf(L * 6, [a, b, r, ad, bd, rd], 's'), V)
        E.call(N['cc62s'], V, S)
        E.angle('longitude', S[0], a, t * 100)
        E.angle('latitude', S[1], b, t * 100)
        for i, (n, x) in enumerate((('distance', r), ('longitude rate', ad), ('latitude rate', bd), ('radial rate', rd))):
            E.close(n, S[2 + i], x, t * 300)
    B = 'angles in +-7 rad, distances and rates bounded'
    return [H(N['cs2c'], s2c, bounds=B), H(N['cc2s'], c2s, bounds='components in +-10, off the poles'), H(N['cc2s'] + '/pole', c2s_pole, bounds='every point of the axis'),
            H(N['cs2c'] + ' then ' + N['cc2s'], back, bounds='off the poles'), H(N['cs2c6'], s2c6, bounds=B),
            H(N['cc62s'], c62s, bounds='components in +-3, off the poles'), H(N['cc62s'] + '/pole', c62s_pole), H(N['cc62s'] + '/null', c62s_null),
            H(N['cc62s'] + '/through the origin', c62s_through, bounds='null position, velocity components in +-3'), H(N['cc62s'] + '/through the origin along the axis', c62s_through_pole, bounds='null position, polar velocity'),
            H(N['cs2c6'] + ' then ' + N['cc62s'], round6, bounds='off the poles')]


def harnesses_c12(tier):
    hs = []
    for p in 'ds':
        hs += mk_products(p) + mk_spherical(p)
    return hs


# ------------------------------------------------------------------------------------------------ rotations
def rodrigues(E, k, phi):
    s, c = E.sin(phi), E.cos(phi)
    w = 1 - c
    x, y, z = k
    return [x * x * w + c, x * y * w + z * s, x * z * w - y * s,
            x * y * w - z * s, y * y * w + c, y * z * w + x * s,
            x * z * w + y * s, y * z * w - x * s, z * z * w + c]


def orthogonal(E, M, tol):
    for i in range(3):
        for j in range(i, 3):
            E.close('rows %d and %d orthonormal' % (i, j), sum(M[3 * i + k] * M[3 * j + k] for k in range(3)), 1.0 if i == j else 0.0, tol)
    E.close('determinant +1', M[0] * (M[4] * M[8] - M[5] * M[7]) - M[1] * (M[3] * M[8] - M[5] * M[6]) + M[2] * (M[3] * M[7] - M[4] * M[6]), 1.0, tol)


def axis3(E, p, name='u'):
    f32 = PREC[p]['f32']
    a, b = E.real(name + 'a', -3.14, 3.14, f32=f32), E.real(name + 'b', -1.57, 1.57, f32=f32)
    return [E.cos(a) * E.cos(b), E.sin(a) * E.cos(b), E.sin(b)]


def mk_rot(p):
    P, N = PREC[p], NM[p]
    t, L, f32 = P['tol'], P['L'], P['f32']

    def av2m(E):
        v = vec(E, p, 'v', 4.0)
        q = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
        E.assume(E.gt(q, P['eps']))
        M = E.buf(L * 9, None, 'm')
        E.call(N['av2m'], E.buf(L * 3, v, 'v'), M)
        phi = E.sqrt(q)
        R = rodrigues(E, [x / phi for x in v], phi)
        for i in range(9):
            E.close('element %d%d' % (i // 3, i % 3), M[i], R[i], t * 10)

    def av2m_orth(E):
        v = vec(E, p, 'v', 4.0)
        q = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
        E.assume(E.gt(q, P['eps']))
        M = E.buf(L * 9, None, 'm')
        E.call(N['av2m'], E.buf(L * 3, v, 'v'), M)
        orthogonal(E, M.all(), t * 10)
        for i in range(3):
            E.close('the axis is not moved', sum(M[3 * i + k] * v[k] for k in range(3)), v[i], t * 30)

    def av2m_null(E):
        M = E.buf(L * 9, None, 'm')
        E.call(N['av2m'], E.buf(L * 3, [0.0] * 3, 'v'), M)
        for i in range(9):
            E.claim('null axis gives the unit matrix', E.eq(M[i], 1.0 if i % 4 == 0 else 0.0))

    def m2av_any(E):
        m = [E.real('m%d' % i, -1, 1, f32=f32) for i in range(9)]
        M, A = E.buf(L * 9, m, 'm'), E.buf(L * 3, None, 'a')
        x, y, z = m[5] - m[7], m[6] - m[2], m[1] - m[3]
        E.assume(E.gt(x * x + y * y + z * z, P['eps']))
        E.call(N['m2av'], M, A)
        s2, c2 = E.sqrt(x * x + y * y + z * z), m[0] + m[4] + m[8] - 1
        phi = E.atan2(s2 / 2, c2 / 2)
        for i, c in enumerate((x, y, z)):
            E.close('axial vector %d' % i, A[i] * s2, phi * c, t * 30)

    def m2av_null(E):
        A = E.buf(L * 3, [9.0] * 3, 'a')
        d = E.real('d', -1, 1, f32=f32)
        E.call(N['m2av'], E.buf(L * 9, [d if i % 4 == 0 else 0.0 for i in range(9)], 'm'), A)
        for i in range(3):
            E.claim('a null or unit matrix gives a null axis', E.eq(A[i], 0.0))

    def rot(E, ax, a):
        s, c = E.sin(a), E.cos(a)
        return {'X': [1, 0, 0, 0, c, s, 0, -s, c], 'Y': [c, 0, -s, 0, 1, 0, s, 0, c], 'Z': [c, s, 0, -s, c, 0, 0, 0, 1]}[ax]

    def mul(a, b):
        r = []
        for i in range(3):
            for j in range(3):
                e = 0
                for k in range(3):
                    x, y = a[3 * i + k], b[3 * k + j]
                    if isinstance(x, (int, float)) and x == 0 or isinstance(y, (int, float)) and y == 0:
                        continue
                    e = e + x * y
                r.append(e)
        return r
    LAB = {'X': 'Xx1', 'Y': 'Yy2', 'Z': 'Zz3'}

    def euler(n, first):
        """order of n symbolic characters; first: axis of the first one or None"""
        def f(E):
            ang = [E.real(q, -7, 7, f32=f32) for q in ('phi', 'theta', 'psi')]
            cs = [E.int('c%d' % i, -128, 127) for i in range(n)]
            for c in cs:
                E.assume(E.ne(c, 0))
            if n:
                isax = E.or_(*[E.eq(cs[0], ord(x)) for x in (LAB[first] if first else 'Xx1Yy2Zz3')])
                E.assume(isax if first else E.not_(isax))
            S = E.buf('c' * (n + 1), cs + [0], 'order')
            M = E.buf(L * 9, None, 'm')
            E.call(N['euler'], S, ang[0], ang[1], ang[2], M)
            R = [1, 0, 0, 0, 1, 0, 0, 0, 1]
            for i in range(min(n, 3)):
                hit = None
                for ax in 'XYZ':
                    if E.true(E.or_(*[E.eq(cs[i], ord(x)) for x in LAB[ax]])):
                        hit = ax
                        break
                if hit is None:
                    break
                R = mul(rot(E, hit, ang[i]), R)
            for i in range(9):
                E.close('element %d%d' % (i // 3, i % 3), M[i], R[i], t * 10)
        return f

    def euler_orth(order):
        def f(E):
            ang = [E.real(q, -7, 7, f32=f32) for q in ('phi', 'theta', 'psi')]
            M = E.buf(L * 9, None, 'm')
            E.call(N['euler'], E.cstring(order), ang[0], ang[1], ang[2], M)
            orthogonal(E, M.all(), t * 10)
        return f
    hs = [H(N['av2m'], av2m, bounds='axial vector components in +-4'), H(N['av2m'] + '/rotation', av2m_orth, bounds='axial vector components in +-4'),
          H(N['av2m'] + '/null', av2m_null), H(N['m2av'] + '/any matrix', m2av_any, bounds='every matrix with elements in +-1'),
          H(N['m2av'] + '/null', m2av_null)]
    for n in (0, 1, 2, 3, 4):
        for first in ('X', 'Y', 'Z', None) if n else (None,):
            hs.append(H('%s/%d/%s' % (N['euler'], n, first or 'other'), euler(n, first), bounds='every string of %d characters, angles in +-7' % n))
    for o in ('ZXZ', 'ZYX', 'XYZ'):
        hs.append(H('%s/orthogonal/%s' % (N['euler'], o), euler_orth(o)))
    return hs


def harnesses_c13(tier):
    return mk_rot('d') + mk_rot('s')


# ------------------------------------------------------------------------------------------------ separations, bearings
def mk_sep(p):
    P, N = PREC[p], NM[p]
    t, L, f32 = P['tol'], P['L'], P['f32']

    def sepv(E):
        a, b = vec(E, p, 'a', 3.0), vec(E, p, 'b', 3.0)
        qa, qb = sum(x * x for x in a), sum(x * x for x in b)
        E.assume(E.and_(E.gt(qa, P['eps']), E.gt(qb, P['eps'])))
        r = E.call(N['sepv'], E.buf(L * 3, a, 'a'), E.buf(L * 3, b, 'b'))
        c = sum(x * y for x, y in zip(a, b))
        E.leq('not negative', 0.0, r, 1e-15)
        E.leq('at most pi', r, E.PI, 1e-6)
        X = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        s = E.sqrt(sum(x * x for x in X))
        h = E.sqrt(s * s + c * c)
        E.close('cosine of the angle', E.cos(r) * h, c, t * 100)
        E.close('sine of the angle', E.sin(r) * h, s, t * 100)

    def sepv_null(E):
        b = vec(E, p, 'b', 3.0)
        Z, B = E.buf(L * 3, [0.0] * 3, 'z'), E.buf(L * 3, b, 'b')
        E.claim('null vector gives zero', E.and_(E.eq(E.call(N['sepv'], Z, B), 0.0), E.eq(E.call(N['sepv'], B, Z), 0.0)))

    def sepv_par(E):
        """parallel and antiparallel vectors"""
        k = axis3(E, p)
        f, g = E.real('f', 0.1, 3, f32=f32), E.real('g', 0.1, 3, f32=f32)
        A = E.buf(L * 3, [x * f for x in k], 'a')
        E.close('parallel', E.call(N['sepv'], A, E.buf(L * 3, [x * g for x in k], 'b')), 0.0, t * 10, ctol=t * 300)
        E.angle('antiparallel', E.call(N['sepv'], A, E.buf(L * 3, [-x * g for x in k], 'b')), E.PI, t * 10, ctol=t * 300)

    def small(E):
        """small separations keep their relative accuracy"""
        d = E.real('d', 1e-7, 1e-3)
        a = E.real('a', -3, 3)
        A, B = E.buf('ddd', [E.cos(a), E.sin(a), 0.0], 'a'), E.buf('ddd', [E.cos(a), E.sin(a), d], 'b')
        r = E.call('dsepv', A, B)
        E.close('tangent of a small angle', E.sin(r), d * E.cos(r), 1e-15, ctol=3e-16)

    def sep(E):
        s = [E.real(n, -7, 7, f32=f32) for n in ('a1', 'b1', 'a2', 'b2')]
        r = E.call(N['sep'], E.buf(L * 2, s[:2], 'p'), E.buf(L * 2, s[2:], 'q'))
        E.leq('not negative', 0.0, r, 1e-15)
        E.leq('at most pi', r, E.PI, 1e-6)
        E.close('cosine rule', E.cos(r), E.sin(s[1]) * E.sin(s[3]) + E.cos(s[1]) * E.cos(s[3]) * E.cos(s[0] - s[2]), t * 10)

    def sep_sym(E):
        s = [E.real(n, -7, 7, f32=f32) for n in ('a1', 'b1', 'a2', 'b2')]
        A, B = E.buf(L * 2, s[:2], 'p'), E.buf(L * 2, s[2:], 'q')
        E.close('symmetric', E.cos(E.call(N['sep'], A, B)), E.cos(E.call(N['sep'], B, A)), t)

    def pav(E):
        a, b = vec(E, p, 'a', 3.0), vec(E, p, 'b', 3.0)
        rho2 = a[0] * a[0] + a[1] * a[1]
        E.assume(E.gt(rho2, P['eps']))
        r = E.call(N['pav'], E.buf(L * 3, a, 'a'), E.buf(L * 3, b, 'b'))
        m = E.sqrt(rho2 + a[2] * a[2])
        east = (b[1] * a[0] - b[0] * a[1]) * m
        north = b[2] * rho2 - a[2] * (b[0] * a[0] + b[1] * a[1])
        E.assume(E.gt(east * east + north * north, P['eps']))
        w = E.sqrt(east * east + north * north)
        E.unit('position angle', east, north, r, t * 300, w=w)
        E.leq('at most pi', r, E.PI, 1e-6)
        E.leq('at least -pi', -E.PI, r, 1e-6)

    def pav_same(E):
        a = vec(E, p, 'a', 3.0)
        A = E.buf(L * 3, a, 'a')
        E.claim('coincident points give zero', E.eq(E.call(N['pav'], A, E.buf(L * 3, a, 'b')), 0.0))

    def bear(E):
        s = [E.real(n, -7, 7, f32=f32) for n in ('a1', 'b1', 'a2', 'b2')]
        r = E.call(N['bear'], E.buf(L * 2, s[:2], 'p'), E.buf(L * 2, s[2:], 'q'))
        east = E.sin(s[2] - s[0]) * E.cos(s[3])
        north = E.sin(s[3]) * E.cos(s[1]) - E.cos(s[3]) * E.sin(s[1]) * E.cos(s[2] - s[0])
        E.assume(E.gt(east * east + north * north, P['eps']))
        w = E.sqrt(east * east + north * north)
        E.unit('position angle', east, north, r, t * 30, w=w, ctol=t * 300)
        E.leq('at most pi', r, E.PI, 1e-6)
        E.leq('at least -pi', -E.PI, r, 1e-6)

    def bear_same(E):
        s = [E.real(n, -7, 7, f32=f32) for n in ('a1', 'b1')]
        r = E.call(N['bear'], E.buf(L * 2, s, 'p'), E.buf(L * 2, s, 'q'))
        E.claim('coincident points give zero', E.eq(r, 0.0))
    hs = [H(N['sepv'], sepv, bounds='components in +-3, not null'), H(N['sepv'] + '/null', sepv_null), H(N['sepv'] + '/parallel', sepv_par, bounds='every direction'),
          H(N['sep'], sep, bounds='angles in +-7'), H(N['sep'] + '/symmetric', sep_sym), H(N['pav'], pav, bounds='components in +-3, first point off the poles'),
          H(N['pav'] + '/coincident', pav_same), H(N['bear'], bear, bounds='angles in +-7, distinct points'), H(N['bear'] + '/coincident', bear_same, bounds='angles in +-7')]
    if p == 'd':
        hs.append(H('dsepv/small', small, bounds='separations 1e-7..1e-3'))
    return hs


def harnesses_c20(tier):
    return mk_sep('d') + mk_sep('s')


PROPS = {
    'C12': dict(harnesses=harnesses_c12, claim='Every vector, matrix and angle in the stated boxes, both precisions, with and without aliased outputs.'),
    'C13': dict(harnesses=harnesses_c13, claim='Every axial vector, Euler angle triple and axis string of up to four characters in the stated boxes.'),
    'C20': dict(harnesses=harnesses_c20, claim='Every pair of directions in the stated boxes, both precisions.'),
}
