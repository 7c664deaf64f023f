"""Linear [x,y] models (C18); matrix inversion, SVD solution and covariance (C19)."""
from ..engine import H


# ------------------------------------------------------------------------------------------------ C18
def coeffs(E, lo=-10, hi=10):
    return [E.real(n, lo, hi) for n in 'abcdef']


def xy2xy(E):
    m = coeffs(E)
    x, y = E.real('x', -100, 100), E.real('y', -100, 100)
    X, Y = E.buf('d', None, 'x2'), E.buf('d', None, 'y2')
    E.call('xy2xy', x, y, E.buf('dddddd', m, 'model'), X, Y)
    E.close('x', X[0], m[0] + m[1] * x + m[2] * y, 1e-9)
    E.close('y', Y[0], m[3] + m[4] * x + m[5] * y, 1e-9)


def invf(E):
    m = coeffs(E)
    det = m[1] * m[5] - m[2] * m[4]
    E.assume(E.or_(E.gt(det, 1e-3), E.lt(det, -1e-3)))
    I = E.buf('dddddd', None, 'inverse')
    ok = E.call('invf', E.buf('dddddd', m, 'model'), I)
    E.claim('an inverse exists', E.true(ok))
    A = [[m[1], m[2]], [m[4], m[5]]]
    B = [[I[1], I[2]], [I[4], I[5]]]
    for i in range(2):
        for j in range(2):
            E.close('linear part %d%d' % (i, j), A[i][0] * B[0][j] + A[i][1] * B[1][j], 1.0 if i == j else 0.0, 1e-12, ctol=1e-8)
        E.close('zero point %d' % i, A[i][0] * I[0] + A[i][1] * I[3] + m[3 * i], 0.0, 1e-12, ctol=1e-7)


def invf_alias(E):
    """the inverse may replace the model"""
    m = coeffs(E)
    det = m[1] * m[5] - m[2] * m[4]
    E.assume(E.or_(E.gt(det, 1e-3), E.lt(det, -1e-3)))
    I, J = E.buf('dddddd', None, 'inverse'), E.buf('dddddd', m, 'both')
    E.call('invf', E.buf('dddddd', m, 'model'), I)
    E.call('invf', J, J)
    for i in range(6):
        E.same('coefficient %d' % i, J[i], I[i])


def invf_singular(E):
    b, c, k = E.real('b', -10, 10), E.real('c', -10, 10), (0, 1, -1, 2, -2, 4)[E.pick(E.int('k', 0, 5))]  # exact products
    I = E.buf('dddddd', [1.0, 2.0, 3.0, 4.0, 5.0, 6.0], 'inverse')
    ok = E.call('invf', E.buf('dddddd', [E.real('a', -10, 10), b, c, E.real('d', -10, 10), b * k, c * k], 'model'), I)
    E.claim('no inverse', E.not_(E.true(ok)))
    for i in range(6):
        E.same('output untouched', I[i], i + 1.0)


def mk_pxy(n):
    def f(E):
        m = coeffs(E, -2, 2)
        xe = [E.real('xe%d' % i, -10, 10) for i in range(2 * n)]
        xm = [E.real('xm%d' % i, -10, 10) for i in range(2 * n)]
        P, X, Y, R = E.buf('dd' * n, None, 'pred'), E.buf('d', None, 'xr'), E.buf('d', None, 'yr'), E.buf('d', None, 'r')
        E.call('pxy', n, E.buf('dd' * n, xe, 'exp'), E.buf('dd' * n, xm, 'meas'), E.buf('dddddd', m, 'model'), P, X, Y, R)
        sx = sy = 0
        for i in range(n):
            px = m[0] + m[1] * xm[2 * i] + m[2] * xm[2 * i + 1]
            py = m[3] + m[4] * xm[2 * i] + m[5] * xm[2 * i + 1]
            E.close('predicted x', P[2 * i], px, 1e-10)
            E.close('predicted y', P[2 * i + 1], py, 1e-10)
            sx, sy = sx + (px - xe[2 * i]) * (px - xe[2 * i]), sy + (py - xe[2 * i + 1]) * (py - xe[2 * i + 1])
        E.close('mean square in x', X[0] * X[0] * n, sx, 1e-9, ctol=1e-6)
        E.close('mean square in y', Y[0] * Y[0] * n, sy, 1e-9, ctol=1e-6)
        E.close('total mean square', R[0] * R[0] * n, sx + sy, 1e-9, ctol=1e-6)
        for nm, b in (('x', X), ('y', Y), ('total', R)):
            E.leq('rms %s not negative' % nm, 0.0, b[0])
    return f


def pxy_none(E):
    n = E.pick(E.int('n', -2, 0))
    P, X, Y, R = E.buf('dd', [7.0, 8.0], 'pred'), E.buf('d', None, 'xr'), E.buf('d', None, 'yr'), E.buf('d', None, 'r')
    E.call('pxy', n, E.buf('dd', [1.0, 2.0], 'exp'), E.buf('dd', [1.0, 2.0], 'meas'), E.buf('dddddd', coeffs(E), 'model'), P, X, Y, R)
    for nm, b in (('x', X), ('y', Y), ('total', R)):
        E.close('no samples, zero rms ' + nm, b[0], 0.0, 0.0)
    E.same('nothing transformed', P[0], 7.0)
    E.same('nothing transformed', P[1], 8.0)


def mk_dcmpf(flip, quad):
    """model given by scales r1, r2 > 0 and half sum / half difference u, w of its two column angles"""
    def f(E):
        u = {0: lambda: E.real('u', -1.5707, 1.5707), 1: lambda: E.real('u', 1.5709, 3.1415), 2: lambda: E.real('u', -3.1415, -1.5709)}[quad]()
        w = E.real('w', -1.5707, 1.5707)
        r1, r2 = E.real('r1', 0.1, 10), E.real('r2', 0.1, 10)
        al, be = u + w, u - w
        PI = 3.14159
        for x in (al, be):
            E.assume(E.and_(E.lt(x, PI), E.gt(x, -PI)))
        det = E.cos(u) * E.cos(u) - E.sin(u) * E.sin(u)
        E.assume(E.gt(det, 1e-3))
        a, d = E.real('a', -10, 10), E.real('d', -10, 10)
        s = -1 if flip else 1
        c, f_, e, b = r1 * E.sin(al), r1 * E.cos(al), r2 * E.sin(be), r2 * E.cos(be)
        if flip:
            e, b = -e, -b
        o = [E.buf('d', None, n) for n in ('xz', 'yz', 'xs', 'ys', 'perp', 'orient')]
        E.call('dcmpf', E.buf('dddddd', [a, b, c, d, e, f_], 'model'), *o)
        xz, yz, xs, ys, perp, orient = [x[0] for x in o]
        h = perp / 2
        sh, ch, so, co = E.sin(h), E.cos(h), E.sin(orient), E.cos(orient)
        # the documented four steps, multiplied out
        B, C = xs * (co * ch + so * sh), ys * (co * sh + so * ch)
        Em, F = xs * (co * sh - so * ch), ys * (co * ch - so * sh)
        E.close('coefficient b', B, b, 1e-9)
        E.close('coefficient c', C, c, 1e-9)
        E.close('coefficient e', Em, e, 1e-9)
        E.close('coefficient f', F, f_, 1e-9)
        E.close('zero point a', B * xz + C * yz, a, 1e-9, ctol=1e-6)
        E.close('zero point d', Em * xz + F * yz, d, 1e-9, ctol=1e-6)
        E.leq('y scale not negative', 0.0, ys)
        E.leq('perp at least -pi', -E.PI, perp, 1e-9)
        E.leq('perp at most pi', perp, E.PI, 1e-9)
    return f


def dcmpf_null(E):
    """a model that maps everything to one point"""
    o = [E.buf('d', None, n) for n in ('xz', 'yz', 'xs', 'ys', 'perp', 'orient')]
    E.call('dcmpf', E.buf('dddddd', [E.real('a', -10, 10), 0.0, 0.0, E.real('d', -10, 10), 0.0, 0.0], 'model'), *o)
    for x, n in zip(o, ('xz', 'yz', 'xs', 'ys', 'perp', 'orient')):
        E.close('null model: ' + n, x[0], 0.0, 0.0)


def samples(E, n, layout=None):
    xe = [E.real('xe%d' % i, -10, 10) for i in range(2 * n)]
    xm = [E.real('xm%d' % i, -10, 10) for i in range(2 * n)] if layout is None else [E.const(x) for x in layout]
    return xe, xm


LAYOUTS = {2: [0, 0, 3, 4], 3: [0, 0, 4, 1, -1, 3], 4: [-1, -1, 1, -1, 1, 1, -1, 1.5], 5: [0, 0, 2, 0, 0, 3, -4, 1, 1, -5]}


def mk_fit6c(n, exact):
    """measured positions fixed, expected ones arbitrary"""
    def f(E):
        xe, xm = samples(E, n, LAYOUTS[n])
        M = E.buf('dddddd', None, 'model')
        st = E.call('fitxy', False, n, E.buf('dd' * n, xe, 'exp'), E.buf('dd' * n, xm, 'meas'), M)
        E.claim('fit found', E.eq(st, 0))
        for k in range(2):
            r = [M[3 * k] + M[3 * k + 1] * xm[2 * i] + M[3 * k + 2] * xm[2 * i + 1] - xe[2 * i + k] for i in range(n)]
            E.close('%s: residuals sum to zero' % 'xy'[k], sum(r), 0.0, 1e-9)
            E.close('%s: residuals orthogonal to x' % 'xy'[k], sum(r[i] * xm[2 * i] for i in range(n)), 0.0, 1e-9)
            E.close('%s: residuals orthogonal to y' % 'xy'[k], sum(r[i] * xm[2 * i + 1] for i in range(n)), 0.0, 1e-9)
    return f


def mk_fit4(n):
    """solid-body fit, measured positions fixed"""
    def f(E):
        xe, xm = samples(E, n, LAYOUTS[n])
        M = E.buf('dddddd', None, 'model')
        st = E.call('fitxy', True, n, E.buf('dd' * n, xe, 'exp'), E.buf('dd' * n, xm, 'meas'), M)
        E.claim('fit found', E.eq(st, 0))
        m = M.all()
        R = range(n)
        ex, ey = xe[0::2], xe[1::2]
        L = [float(x) for x in LAYOUTS[n]]
        cx, cy = sum(L[0::2]) / n, sum(L[1::2]) / n
        dx, dy = [E.const(L[2 * i] - cx) for i in R], [E.const(L[2 * i + 1] - cy) for i in R]
        E.assume(E.or_(*[E.or_(E.gt(x, 1e-3), E.lt(x, -1e-3)) for x in m[1:3]]))
        plain = E.and_(E.eq(m[1], m[5]), E.eq(m[2], -m[4]))
        flip = E.and_(E.eq(m[1], -m[5]), E.eq(m[2], m[4]))
        E.claim('solid body form', E.or_(plain, flip))
        rx = [m[0] + m[1] * xm[2 * i] + m[2] * xm[2 * i + 1] - ex[i] for i in R]
        ry = [m[3] + m[4] * xm[2 * i] + m[5] * xm[2 * i + 1] - ey[i] for i in R]
        E.close('residuals sum to zero in x', sum(rx), 0.0, 1e-9)
        E.close('residuals sum to zero in y', sum(ry), 0.0, 1e-9)
        # normal equations of the chosen handedness
        if E.true(plain):
            E.close('scale', sum(rx[i] * xm[2 * i] + ry[i] * xm[2 * i + 1] for i in R), 0.0, 1e-9)
            E.close('rotation', sum(ry[i] * xm[2 * i] - rx[i] * xm[2 * i + 1] for i in R), 0.0, 1e-9)
        else:
            E.close('scale', sum(-rx[i] * xm[2 * i] + ry[i] * xm[2 * i + 1] for i in R), 0.0, 1e-9)
            E.close('rotation', sum(ry[i] * xm[2 * i] + rx[i] * xm[2 * i + 1] for i in R), 0.0, 1e-9)
        # the handedness with the smaller residual is the one with the larger matched length
        p0, p1 = sum(ex[i] * dx[i] + ey[i] * dy[i] for i in R), sum(ey[i] * dx[i] - ex[i] * dy[i] for i in R)
        q0, q1 = sum(-ex[i] * dx[i] + ey[i] * dy[i] for i in R), sum(ey[i] * dx[i] + ex[i] * dy[i] for i in R)
        if n > 2:
            if E.true(plain):
                E.leq('better handedness', q0 * q0 + q1 * q1, p0 * p0 + p1 * p1, 1e-7)
            else:
                E.leq('better handedness', p0 * p0 + p1 * p1, q0 * q0 + q1 * q1, 1e-7)
        else:
            E.claim('two samples: no reversal', plain)
    return f


def fit_few(E):
    s = E.bool('sbr')
    n = E.pick(E.int('n', -3, 2))
    E.assume(E.lt(n, 2) if E.true(s) else E.lt(n, 3))
    M = E.buf('dddddd', [1.0, 2.0, 3.0, 4.0, 5.0, 6.0], 'model')
    st = E.call('fitxy', s, n, E.buf('dddd', [1.0, 2.0, 3.0, 5.0], 'exp'), E.buf('dddd', [1.0, 2.0, 3.0, 5.0], 'meas'), M)
    E.claim('insufficient data', E.eq(st, 1))
    for i in range(6):
        E.same('model untouched', M[i], i + 1.0)


def mk_fit_none(sbr, n):
    """all measured positions coincide"""
    def f(E):
        xe = [E.real('xe%d' % i, -10, 10) for i in range(2 * n)]
        x, y = E.pick(E.int('x', -2, 2)), E.pick(E.int('y', -2, 2))
        st = E.call('fitxy', sbr, n, E.buf('dd' * n, xe, 'exp'), E.buf('dd' * n, [E.const(x), E.const(y)] * n, 'meas'), E.buf('dddddd', None, 'model'))
        E.claim('no fit', E.eq(st, 2))
    return f


def harnesses_c18(tier):
    th = tier == 'thorough'
    hs = [H('xy2xy', xy2xy, bounds='coefficients +-10, positions +-100'), H('invf', invf, bounds='coefficients +-10, |det| > 1e-3'), H('invf/in place', invf_alias), H('invf/singular', invf_singular),
          H('pxy/no samples', pxy_none), H('dcmpf/null', dcmpf_null), H('fitxy/too few', fit_few)]
    hs += [H('pxy/%d' % n, mk_pxy(n), bounds='%d samples' % n) for n in ((1, 2, 3) if not th else (1, 2, 3, 4))]
    for fl in (False, True):
        for q in range(3):
            hs.append(H('dcmpf%s/%d' % ('/reversed' if fl else '', q), mk_dcmpf(fl, q), bounds='scales 0.1..10, determinant > 1e-3'))
    for n in (3, 4, 5):
        hs.append(H('fitxy/6 coefficients/fixed layout %d' % n, mk_fit6c(n, True), bounds='%d samples, measured positions fixed' % n))
    for n in (2, 3, 4, 5):
        hs.append(H('fitxy/solid body/%d' % n, mk_fit4(n), bounds='%d samples, measured positions fixed' % n))
    hs += [H('fitxy/no fit/6/3', mk_fit_none(False, 3)), H('fitxy/no fit/4/2', mk_fit_none(True, 2))]
    return hs


# ------------------------------------------------------------------------------------------------ C19
def perms(n):
    if n == 0:
        return [[]]
    return [p[:i] + [n - 1] + p[i:] for p in perms(n - 1) for i in range(n)]


def mk_mat(fn, n, perm, sg):
    """every non-singular matrix is P L U with |L| <= 1 (partial pivoting); the matrix is given by its factors"""
    f32 = fn == 'smat'
    t, tol = ('f', 2e-3) if f32 else ('d', 1e-9)

    def f(E):
        L = [[0] * n for _ in range(n)]
        U = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                if j < i:
                    L[i][j] = E.real('l%d%d' % (i, j), -0.999, 0.999, f32)
                elif j == i:
                    U[i][i] = E.real('u%d%d' % (i, i), *((0.1, 10) if sg >> i & 1 == 0 else (-10, -0.1)), f32)
                else:
                    U[i][j] = E.real('u%d%d' % (i, j), -10, 10, f32)
        A = [0] * (n * n)
        for i in range(n):
            for j in range(n):
                e = U[i][j] if i <= j else 0
                for k in range(min(i, j + 1)):
                    e = L[i][k] * U[k][j] + e if not (isinstance(e, int)) else L[i][k] * U[k][j]
                A[perm[i] * n + j] = e
        y = [E.real('y%d' % i, -10, 10, f32) for i in range(n)]
        D = 1.0
        for i in range(n):
            D = D * U[i][i]
        inv = sum(1 for i in range(n) for j in range(i) if perm[j] > perm[i])
        if inv % 2:
            D = -D
        M, V, d, ws = E.buf(t * n * n, A, 'mat'), E.buf(t * n, y, 'vec'), E.buf(t, None, 'det'), E.buf('i' * n, None, 'ws')
        A = M.all()
        s = E.call(fn, n, M, V, d, ws)
        E.claim('not singular', E.not_(E.true(s)))
        k = 1e6 if n > 2 else 1e4
        E.close('determinant', d[0], D, 1e-12, ctol=tol * k)
        for i in range(n):
            E.close('equation %d' % i, sum(A[i * n + j] * V[j] for j in range(n)), y[i], 1e-12, ctol=tol * k)
            for j in range(n):
                E.close('inverse %d%d' % (i, j), sum(A[i * n + l] * M[l * n + j] for l in range(n)), 1.0 if i == j else 0.0, 1e-12, ctol=tol * k)
    return f


def mk_singular(fn, n, row):
    f32 = fn == 'smat'
    t = 'f' if f32 else 'd'

    def f(E):
        z = E.pick(E.int('which', 0, n - 1))
        A = [0.0 if (i // n if row else i % n) == z else E.real('m%d%d' % (i // n, i % n), -10, 10, f32) for i in range(n * n)]
        for x in A:
            if not isinstance(x, float):
                E.assume(E.or_(E.gt(x, 1e-3), E.lt(x, -1e-3)))
        d = E.buf(t, None, 'det')
        s = E.call(fn, n, E.buf(t * n * n, A, 'mat'), E.buf(t * n, [1.0] * n, 'vec'), d, E.buf('i' * n, None, 'ws'))
        E.claim('singular', E.true(s))
        E.close('zero determinant', d[0], 0.0, 0.0)
    return f


def mk_tiny(fn, n):
    """pivots well above the threshold whose product is below it: refused with a zero determinant, or solved"""
    f32 = fn == 'smat'
    t, tol = ('f', 2e-3) if f32 else ('d', 1e-9)

    def f(E):
        u = [E.real('u%d' % i, 1.5, 9, f32) for i in range(n)]
        sc = [1e-4, 1e-7] if f32 and n == 2 else [2.0 ** -44] * n
        A = [u[i] * sc[i] if i == j else 0.0 for i in range(n) for j in range(n)]
        y = [E.real('y%d' % i, -10, 10, f32) for i in range(n)]
        M, V, d = E.buf(t * n * n, A, 'mat'), E.buf(t * n, y, 'vec'), E.buf(t, None, 'det')
        s = E.call(fn, n, M, V, d, E.buf('i' * n, None, 'ws'))
        if E.true(s):
            E.close('zero determinant', d[0], 0.0, 0.0)
        else:
            for i in range(n):
                E.close('equation %d' % i, A[i * n + i] * V[i], y[i], 1e-12, ctol=tol)
                E.close('inverse %d' % i, A[i * n + i] * M[i * n + i], 1.0, 1e-12, ctol=tol)
    return f


def mk_dependent(fn, k, row):
    """the second row (column) is a multiple of the first"""
    f32 = fn == 'smat'
    t = 'f' if f32 else 'd'

    def f(E):
        a, b = [1.0, 2.0, -4.0][E.pick(E.int('a', 0, 2))], E.real('b', *((-10, 10) if row else (-0.99, 0.99)), f32)  # pivots are powers of two: exact in floating point
        A = [a, b, a * k, b * k] if row else [a, a * k, b, b * k]
        d = E.buf(t, None, 'det')
        s = E.call(fn, 2, E.buf(t * 4, A, 'mat'), E.buf(t * 2, [1.0, 1.0], 'vec'), d, E.buf('ii', None, 'ws'))
        E.claim('singular', E.true(s))
        E.close('zero determinant', d[0], 0.0, 0.0)
    return f


def mk_svd_diag(m, perm):
    """two columns with one non-zero element each: no QR iteration is needed"""
    def f(E):
        a, b = E.real('a', 0.25, 9), E.real('b', -9, -0.25)
        A = [0.0] * (2 * m)
        A[perm[0] * 2] = a
        A[perm[1] * 2 + 1] = b
        M, W, Vm, ws = E.buf('d' * (2 * m), A, 'a'), E.buf('dd', None, 'w'), E.buf('dddd', None, 'v'), E.buf('dd', None, 'ws')
        st = E.call('svd', m, 2, m, 2, M, W, Vm, ws)
        E.claim('converged', E.eq(st, 0))
        for j in range(2):
            E.leq('singular value not negative', 0.0, W[j], 1e-12)
            for k in range(2):
                E.close('v orthogonal', sum(Vm[i * 2 + j] * Vm[i * 2 + k] for i in range(2)), 1.0 if j == k else 0.0, 1e-12, ctol=1e-10)
                E.close('u orthogonal', sum(M[i * 2 + j] * M[i * 2 + k] for i in range(m)), 1.0 if j == k else 0.0, 1e-12, ctol=1e-10)
        for i in range(m):
            for j in range(2):
                E.close('element %d%d' % (i, j), sum(M[i * 2 + k] * W[k] * Vm[j * 2 + k] for k in range(2)), A[i * 2 + j], 1e-12, ctol=1e-10)
    return f


def mk_svdsol(m, n, mp, np):
    def f(E):
        U = [E.real('u%d' % i, -1, 1) for i in range(mp * np)]
        W = [E.real('w%d' % i, -9, 9) for i in range(n)]
        Vm = [E.real('v%d' % i, -1, 1) for i in range(np * np)]
        b = [E.real('b%d' % i, -9, 9) for i in range(m)]
        for w in W:
            E.assume(E.or_(E.eq(w, 0.0), E.gt(w, 1e-2), E.lt(w, -1e-2)))
        X = E.buf('d' * n, None, 'x')
        inp = [E.buf('d' * m, b, 'b'), E.buf('d' * (mp * np), U, 'u'), E.buf('d' * n, W, 'w'), E.buf('d' * (np * np), Vm, 'v')]
        E.call('svdsol', m, n, mp, np, *inp, E.buf('d' * n, None, 'ws'), X)
        z = [0.0 if E.true(E.eq(W[j], 0.0)) else sum(U[i * np + j] * b[i] for i in range(m)) / W[j] for j in range(n)]
        for k in range(n):
            E.close('x%d' % k, X[k], sum((Vm[k * np + l] * z[l] for l in range(n)), E.const(0)), 1e-12, ctol=1e-8)
        for B, src in zip(inp, (b, U, W, Vm)):
            for i, x in enumerate(src):
                E.same('input unchanged', B[i], x)
    return f


def mk_svdcov(n, np, nc):
    def f(E):
        W = [E.real('w%d' % i, -9, 9) for i in range(n)]
        Vm = [E.real('v%d' % i, -1, 1) for i in range(np * np)]
        for w in W:
            E.assume(E.or_(E.eq(w, 0.0), E.gt(w, 1e-1), E.lt(w, -1e-1)))
        C = E.buf('d' * (nc * nc), [99.0] * (nc * nc), 'cvm')
        E.call('svdcov', n, np, nc, E.buf('d' * n, W, 'w'), E.buf('d' * (np * np), Vm, 'v'), E.buf('d' * n, None, 'ws'), C)
        g = [0.0 if E.true(E.eq(W[j], 0.0)) else 1 / (W[j] * W[j]) for j in range(n)]
        for i in range(nc):
            for j in range(nc):
                if i < n and j < n:
                    E.close('covariance %d%d' % (i, j), C[i * nc + j], sum((Vm[i * np + k] * Vm[j * np + k] * g[k] for k in range(n)), E.const(0)), 1e-12, ctol=1e-9)
                else:
                    E.same('outside untouched', C[i * nc + j], 99.0)
    return f


def mk_svd1(m):
    """one column"""
    def f(E):
        A = [E.real('a%d' % i, -9, 9) for i in range(m)]
        E.assume(E.gt(sum(x * x for x in A), 1e-4))
        M, W, Vm, ws = E.buf('d' * m, A, 'a'), E.buf('d', None, 'w'), E.buf('d', None, 'v'), E.buf('d', None, 'ws')
        st = E.call('svd', m, 1, m, 1, M, W, Vm, ws)
        E.claim('converged', E.eq(st, 0))
        E.leq('singular value not negative', 0.0, W[0], 1e-12)
        E.close('v orthogonal', Vm[0] * Vm[0], 1.0, 1e-12)
        E.close('u orthogonal', sum(M[i] * M[i] for i in range(m)), 1.0, 1e-12)
        for i in range(m):
            E.close('row %d' % i, M[i] * W[0] * Vm[0], A[i], 1e-12, ctol=1e-10)
    return f


def svd_shape(E):
    m, n = E.pick(E.int('m', 1, 3)), E.pick(E.int('n', 1, 3))
    E.assume(E.lt(m, n))
    st = E.call('svd', m, n, 3, 3, E.buf('d' * 9, [1.0] * 9, 'a'), E.buf('d' * 3, None, 'w'), E.buf('d' * 9, None, 'v'), E.buf('d' * 3, None, 'ws'))
    E.claim('wrong shape', E.eq(st, -1))


def harnesses_c19(tier):
    th = tier == 'thorough'
    hs = []
    for fn in ('dmat', 'smat'):
        for n in (1, 2, 3, 4):
            for p in perms(n):
                if n == 4 and not (th or p in ([3, 2, 1, 0], [1, 2, 3, 0])):
                    continue
                for sg in range(2 ** n):
                    if n > 2 and sg not in (0, 2 ** n - 2) and not th:
                        continue
                    hs.append(H('%s/%d/%s/%d' % (fn, n, ''.join(map(str, p)), sg), mk_mat(fn, n, p, sg), bounds='%dx%d, row order %s, pivots 0.1..10 in magnitude, other factors up to 10' % (n, n, p)))
        for row in (True, False):
            hs.append(H('%s/zero %s' % (fn, 'row' if row else 'column'), mk_singular(fn, 2, row)))
        hs += [H('%s/tiny %d' % (fn, n), mk_tiny(fn, n)) for n in (2, 3)]
        hs += [H('%s/dependent %s %g' % (fn, 'rows' if r else 'columns', k), mk_dependent(fn, k, r)) for r in (True, False) for k in (1.0, -2.0, 0.5)]
    hs += [H('svd/diagonal %d %s' % (m, p), mk_svd_diag(m, p)) for m, p in ((2, (0, 1)), (2, (1, 0)), (3, (2, 0)))]
    hs += [H('svdsol/%d %d %d %d' % d, mk_svdsol(*d)) for d in ((1, 1, 1, 1), (2, 2, 2, 2), (3, 2, 3, 2), (3, 2, 4, 3), (3, 3, 3, 3))]
    hs += [H('svdcov/%d %d %d' % d, mk_svdcov(*d)) for d in ((1, 1, 1), (2, 2, 2), (2, 3, 3), (2, 3, 4), (3, 3, 3))]
    hs += [H('svd/one column %d' % m, mk_svd1(m)) for m in (1, 2, 3)]
    hs.append(H('svd/shape', svd_shape))
    return hs


PROPS = {
    'C18': dict(harnesses=harnesses_c18, claim='Every model and every sample set within the boxes; sample counts and, for the solid-body fit, the measured positions are bounded as listed.'),
    'C19': dict(harnesses=harnesses_c19, claim='Every matrix within the boxes for sizes up to 3; the SVD itself only for one column and for the shape test (its QR iteration has no useful bound).'),
}
