"""Pincushion and barrel distortion (C25)."""
from ..engine import H

TOL = 1e-9


def buf2(E, x, y):
    return E.buf('d', [x], 'x'), E.buf('d', [y], 'y')


def apply(E):
    c, x, y = E.real('disco', -200, 200), E.real('x', -3, 3), E.real('y', -3, 3)
    bx, by = buf2(E, x, y)
    E.call('pcd', c, bx, by)
    f = 1 + c * (x * x + y * y)
    E.close('x', bx[0], x * f, TOL, ctol=1e-8)
    E.close('y', by[0], y * f, TOL, ctol=1e-8)


def undistorted(E):
    """no distortion, or the centre: nothing changes"""
    k = E.pick(E.int('which', 0, 1))
    if k:
        c, x, y = 0.0, E.real('x', -5, 5), E.real('y', -5, 5)
    else:
        c, x, y = E.real('disco', -200, 200), 0.0, 0.0
    bx, by = buf2(E, x, y)
    E.call('unpcd', c, bx, by)
    E.same('x', bx[0], x)
    E.same('y', by[0], y)


def check(E, c, R, rp, a, tol=TOL):
    sa, ca = E.sin(a), E.cos(a)
    x, y = rp * ca, rp * sa
    bx, by = buf2(E, x, y)
    E.call('unpcd', c, bx, by)
    E.close('x', bx[0], R * ca, tol, ctol=1e-7)
    E.close('y', by[0], R * sa, tol, ctol=1e-7)
    return bx, by


def pincushion(E):
    # the real root of c R^3 + R = rp is (R + v) - v with c = 1/(3 v (R + v)): every c > 0, R > 0 arises for exactly one v > 0
    R, v, a = E.real('R', 0.001, 5), E.real('v', 0.01, 5), E.real('direction', -3.2, 3.2)
    c = 1 / (3 * v * (R + v))
    rp = R * (1 + c * R * R)
    check(E, c, R, rp, a)


def barrel_single(E):
    # one real root, on the other side: -(a+b) with c = -1/(3 a b)
    p, g, a = E.real('a', 0.05, 2), E.real('gap', 0.01, 3), E.real('direction', -3.2, 3.2)
    b = p + g
    c = -1 / (3 * p * b)
    R = -(p + b)
    check(E, c, R, R * (1 + c * R * R), a)


def barrel(E):
    # three real roots W cos((2 pi k - t) / 3), W = 2/sqrt(-3c): the middle one moves the point least
    W, t, a = E.real('W', 0.05, 20), E.real('t', 1.58, 3.12), E.real('direction', -3.2, 3.2)
    c = -4 / (3 * W * W)
    rp = -(W / 3) * E.cos(t)
    R = W * E.cos((E.const(6.283185307179586) - t) / 3)
    check(E, c, R, rp, a)


def barrel_roots(E):
    """that root satisfies R (1 + c R^2) = rp, and moves the point less than the other two"""
    W, u = E.real('W', 0.05, 20), E.real('third', 1.58 / 3, 3.12 / 3)
    k = E.const(6.283185307179586 / 3)
    c = -4 / (3 * W * W)
    R = W * E.cos(k - u)
    rp = -(W / 3) * E.cos(3 * u)
    E.close('root', R * (1 + c * R * R), rp, 1e-10)
    for n, o in (('second', W * E.cos(u)), ('third', W * E.cos(k + u))):
        E.leq('moves less than the %s root' % n, E.abs(R - rp), E.abs(o - rp))


def roundtrip(E):
    """the image of any tangent-plane point under pincushion distortion comes back"""
    R, v, a = E.real('R', 0.001, 2), E.real('v', 0.01, 5), E.real('direction', -3.2, 3.2)
    c = 1 / (3 * v * (R + v))
    x, y = R * E.cos(a), R * E.sin(a)
    bx, by = buf2(E, x, y)
    E.call('pcd', c, bx, by)
    E.call('unpcd', c, bx, by)
    E.close('x', bx[0], x, TOL, ctol=1e-7)
    E.close('y', by[0], y, TOL, ctol=1e-7)


def c25(tier):
    return [H('pcd', apply), H('unpcd/nothing to do', undistorted), H('unpcd/pincushion', pincushion), H('unpcd/barrel, one root', barrel_single), H('unpcd/barrel', barrel), H('lemma: three roots', barrel_roots), H('round trip', roundtrip)]


PROPS = {'C25': dict(harnesses=c25, claim='All arguments in the boxes.')}
