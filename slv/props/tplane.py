"""Tangent-plane projection (C17)."""
from ..engine import H

PREC = {'d': dict(f32=False, t=1e-11, L='d', s2tp='ds2tp', v2tp='dv2tp', tp2s='dtp2s', tp2v='dtp2v', tps2c='dtps2c', tpv2c='dtpv2c', big=0.9, ct=1e-8),
        's': dict(f32=True, t=5e-5, L='f', s2tp='s2tp', v2tp='v2tp', tp2s='tp2s', tp2v='tp2v', tps2c='tps2c', tpv2c='tpv2c', big=0.9, ct=5e-3)}
OK, TOO_FAR, ASTAR_ON_TP, ASTAR_TOO_FAR = 0, 1, 2, 3


def direction(E, name, f32, pole=True):
    a, b = E.real(name + 'a', -3.14, 3.14, f32=f32), E.real(name + 'b', -1.57, 1.57, f32=f32)
    return [E.cos(a) * E.cos(b), E.sin(a) * E.cos(b), E.sin(b)]


def mk(p):
    P = PREC[p]
    t, ct, L, f32 = P['t'], P['ct'], P['L'], P['f32']
    TINY = 1e-6

    def status(E, st, d, cases):
        """which of the four cases (away from the edges between them)"""
        want = {'near': (OK, E.gt(d, 2 * TINY)), 'edge': (TOO_FAR, E.and_(E.ge(d, 0.0), E.lt(d, TINY / 2))),
                'behind edge': (ASTAR_ON_TP, E.and_(E.lt(d, 0.0), E.gt(d, -TINY / 2))), 'behind': (ASTAR_TOO_FAR, E.lt(d, -2 * TINY))}
        return want[cases]

    def s2tp(case):
        def f(E):
            a, b, a0, b0 = [E.real(n, -7, 7, f32=f32) for n in ('ra', 'dec', 'tra', 'tdec')]
            d = E.sin(b) * E.sin(b0) + E.cos(b) * E.cos(b0) * E.cos(a - a0)
            st0, cond = status(E, None, d, case)
            E.assume(cond)
            if f32 and case in ('near', 'behind'):
                E.assume(E.or_(E.gt(d, 1e-2), E.lt(d, -1e-2)))
            X, Y = E.buf(L, None, 'xi'), E.buf(L, None, 'eta')
            st = E.call(P['s2tp'], E.buf(L * 2, [a, b], 'p'), E.buf(L * 2, [a0, b0], 't'), X, Y)
            E.claim('status', E.eq(st, st0))
            x, y = E.cos(b) * E.sin(a - a0), E.sin(b) * E.cos(b0) - E.cos(b) * E.sin(b0) * E.cos(a - a0)
            if case in ('near', 'behind'):
                E.close('xi', X[0] * d, x, t, ctol=ct)
                E.close('eta', Y[0] * d, y, t, ctol=ct)
            else:
                w = E.const(TINY) if case == 'edge' else -E.const(TINY)
                E.close('xi, star taken just clear of the edge', X[0] * w, x, t)
                E.close('eta, star taken just clear of the edge', Y[0] * w, y, t)
        return f

    def v2tp(case):
        def f(E):
            v, w = direction(E, 'p', f32), direction(E, 't', f32)
            d = sum(x * y for x, y in zip(v, w))
            st0, cond = status(E, None, d, case)
            E.assume(cond)
            r2 = w[0] * w[0] + w[1] * w[1]
            E.assume(E.gt(r2, 1e-8 if not f32 else 1e-4))
            if f32 and case in ('near', 'behind'):
                E.assume(E.or_(E.gt(d, 1e-2), E.lt(d, -1e-2)))
            X, Y = E.buf(L, None, 'xi'), E.buf(L, None, 'eta')
            st = E.call(P['v2tp'], E.buf(L * 3, v, 'p'), E.buf(L * 3, w, 't'), X, Y)
            E.claim('status', E.eq(st, st0))
            r = E.sqrt(r2)
            if case in ('near', 'behind'):
                E.close('xi', X[0] * d * r, v[1] * w[0] - v[0] * w[1], t, ctol=ct)
                E.close('eta', Y[0] * d * r, v[2] * r2 - w[2] * (v[0] * w[0] + v[1] * w[1]), t, ctol=ct)
        return f

    def v2tp_pole(s):
        def f(E):
            a, b = E.real('a', -3.14, 3.14, f32=f32), E.real('b', 0.01, 1.57, f32=f32)
            v = [E.cos(a) * E.cos(b), E.sin(a) * E.cos(b), E.sin(b) * s]
            X, Y = E.buf(L, None, 'xi'), E.buf(L, None, 'eta')
            st = E.call(P['v2tp'], E.buf(L * 3, v, 'p'), E.buf(L * 3, [0.0, 0.0, float(s)], 't'), X, Y)
            E.claim('status', E.eq(st, OK))
            d = E.sin(b)
            E.close('xi', X[0] * d, v[1], t, ctol=ct)
            E.close('eta', Y[0] * d, -s * v[0], t, ctol=ct)
            Q = E.buf(L * 3, None, 'q')
            xi, eta = E.real('xi', -2, 2, f32=f32), E.real('eta', -2, 2, f32=f32)
            E.call(P['tp2v'], xi, eta, E.buf(L * 3, [0.0, 0.0, float(s)], 't2'), Q)
            k = E.sqrt(1 + xi * xi + eta * eta)
            for i, c in enumerate((-s * eta, xi, s)):
                E.close('star component %d' % i, Q[i] * k, c, t, ctol=ct)
        return f

    def tp2s(E):
        xi, eta, a0, b0 = [E.real(n, lo, hi, f32=f32) for n, lo, hi in (('xi', -5, 5), ('eta', -5, 5), ('tra', -7, 7), ('tdec', -7, 7))]
        S = E.buf(L * 2, None, 'p')
        E.call(P['tp2s'], xi, eta, E.buf(L * 2, [a0, b0], 't'), S)
        D = E.cos(b0) - eta * E.sin(b0)
        E.assume(E.gt(xi * xi + D * D, 1e-8 if not f32 else 1e-4))
        k = E.sqrt(1 + xi * xi + eta * eta)
        E.close('north', E.sin(S[1]) * k, E.sin(b0) + eta * E.cos(b0), t, ctol=ct)
        E.close('towards', E.cos(S[1]) * E.cos(S[0] - a0) * k, D, t, ctol=ct)
        E.close('east', E.cos(S[1]) * E.sin(S[0] - a0) * k, xi, t, ctol=ct)
        E.leq('right ascension not negative', 0.0, S[0], 1e-6)
        E.leq('right ascension not above 2 pi', S[0], 2 * E.PI, 2e-6)
        E.leq('declination at most 90 degrees', S[1], E.PI / 2, 1e-6)
        E.leq('declination at least -90 degrees', -E.PI / 2, S[1], 1e-6)

    def tp2v(E):
        xi, eta = E.real('xi', -5, 5, f32=f32), E.real('eta', -5, 5, f32=f32)
        w = direction(E, 't', f32)
        r2 = w[0] * w[0] + w[1] * w[1]
        E.assume(E.gt(r2, 1e-8 if not f32 else 1e-4))
        Q = E.buf(L * 3, None, 'q')
        E.call(P['tp2v'], xi, eta, E.buf(L * 3, w, 't'), Q)
        k, r = E.sqrt(1 + xi * xi + eta * eta), E.sqrt(r2)
        e, n = [-w[1], w[0], 0], [-w[0] * w[2], -w[1] * w[2], r2]
        for i in range(3):
            E.close('star component %d' % i, Q[i] * k * r, w[i] * r + xi * e[i] + eta * n[i], t, ctol=ct)

    def round_s(E):
        """plane -> sphere -> plane"""
        xi, eta, a0, b0 = [E.real(n, lo, hi, f32=f32) for n, lo, hi in (('xi', -2, 2), ('eta', -2, 2), ('tra', -6.28, 6.28), ('tdec', -1.57, 1.57))]
        D = E.cos(b0) - eta * E.sin(b0)
        E.assume(E.gt(xi * xi + D * D, 1e-6 if not f32 else 1e-3))
        S, T, X, Y = E.buf(L * 2, None, 'p'), E.buf(L * 2, [a0, b0], 't'), E.buf(L, None, 'x'), E.buf(L, None, 'y')
        E.call(P['tp2s'], xi, eta, T, S)
        st = E.call(P['s2tp'], S, T, X, Y)
        E.claim('status', E.eq(st, OK))
        E.close('xi comes back', X[0], xi, t * 10, ctol=ct)
        E.close('eta comes back', Y[0], eta, t * 10, ctol=ct)

    def round_v(E):
        xi, eta = E.real('xi', -2, 2, f32=f32), E.real('eta', -2, 2, f32=f32)
        w = direction(E, 't', f32)
        E.assume(E.gt(w[0] * w[0] + w[1] * w[1], 1e-6 if not f32 else 1e-3))
        Q, T, X, Y = E.buf(L * 3, None, 'q'), E.buf(L * 3, w, 't'), E.buf(L, None, 'x'), E.buf(L, None, 'y')
        E.call(P['tp2v'], xi, eta, T, Q)
        st = E.call(P['v2tp'], Q, T, X, Y)
        E.claim('status', E.eq(st, OK))
        E.close('xi comes back', X[0], xi, t * 10, ctol=ct)
        E.close('eta comes back', Y[0], eta, t * 10, ctol=ct)

    def tps2c(E):
        xi, eta, a, b = [E.real(n, lo, hi, f32=f32) for n, lo, hi in (('xi', -1.5, 1.5), ('eta', -1.5, 1.5), ('ra', -6.28, 6.28), ('dec', -1.57, 1.57))]
        S = [E.buf(L * 2, None, 's1'), E.buf(L * 2, None, 's2')]
        n = E.call(P['tps2c'], xi, eta, E.buf(L * 2, [a, b], 'p'), S[0], S[1])
        sb, cb = E.sin(b), E.cos(b)
        r2 = cb * cb * (1 + eta * eta) - sb * sb * xi * xi
        k = E.sqrt(1 + xi * xi + eta * eta)
        E.assume(E.gt(cb, 1e-4 if not f32 else 1e-2))
        E.assume(E.or_(E.gt(r2, 1e-6 if not f32 else 1e-3), E.lt(r2, -1e-6 if not f32 else -1e-3)))
        sdf2 = sb * sb * k * k
        E.assume(E.or_(E.gt(sdf2, 1 + (1e-6 if not f32 else 1e-3)), E.lt(sdf2, 1 - (1e-6 if not f32 else 1e-3))))
        if E.true(E.gt(r2, 0)):
            two = E.true(E.gt(sdf2, 1))
            E.claim('one useful solution, or two near the pole', E.eq(n, 2 if two else 1))
            for i in (0, 1):
                s, c, sd, cd = E.sin(S[i][1]), E.cos(S[i][1]), E.sin(a - S[i][0]), E.cos(a - S[i][0])
                E.close('solution %d: distance from the star' % (i + 1), k * (sb * s + cb * c * cd), 1.0, t * 10, ctol=ct)
                E.close('solution %d: xi' % (i + 1), k * cb * sd, xi, t * 10, ctol=ct)
                E.close('solution %d: eta' % (i + 1), k * (sb * c - cb * s * cd), eta, t * 10, ctol=ct)
                E.leq('right ascension not negative', 0.0, S[i][0], 1e-6)
                E.leq('right ascension not above 2 pi', S[i][0], 2 * E.PI, 2e-6)
            if not two:
                E.leq('first solution has a proper declination', 0.0, E.cos(S[0][1]), 1e-6)
        else:
            E.claim('no solution', E.eq(n, 0))

    def tpv2c(E):
        xi, eta = E.real('xi', -1.5, 1.5, f32=f32), E.real('eta', -1.5, 1.5, f32=f32)
        v = direction(E, 'p', f32)
        S = [E.buf(L * 3, None, 's1'), E.buf(L * 3, None, 's2')]
        n = E.call(P['tpv2c'], xi, eta, E.buf(L * 3, v, 'p'), S[0], S[1])
        q2 = v[0] * v[0] + v[1] * v[1]
        r2 = q2 * (1 + eta * eta) - v[2] * v[2] * xi * xi
        k = E.sqrt(1 + xi * xi + eta * eta)
        E.assume(E.gt(q2, 1e-6 if not f32 else 1e-3))
        E.assume(E.or_(E.gt(r2, 1e-6 if not f32 else 1e-3), E.lt(r2, -1e-6 if not f32 else -1e-3)))
        sdf2 = v[2] * v[2] * k * k
        E.assume(E.or_(E.gt(sdf2, 1 + (1e-6 if not f32 else 1e-3)), E.lt(sdf2, 1 - (1e-6 if not f32 else 1e-3))))
        if E.true(E.gt(r2, 0)):
            two = E.true(E.gt(sdf2, 1))
            E.claim('one useful solution, or two near the pole', E.eq(n, 2 if two else 1))
            for i in (0, 1):
                s = S[i].all()
                E.close('solution %d: unit vector' % (i + 1), sum(x * x for x in s), 1.0, t * 10, ctol=ct)
                E.close('solution %d: distance from the star' % (i + 1), k * sum(x * y for x, y in zip(s, v)), 1.0, t * 10, ctol=ct)
                # north component: z - s_z (s.v) = eta * (s.v) * |cos dec|, east component likewise
                d = v[0] * s[1] - v[1] * s[0]
                E.close('solution %d: east' % (i + 1), k * k * d * d, xi * xi * (s[0] * s[0] + s[1] * s[1]), t * 10, ctol=ct)
                e = k * v[2] - s[2]
                E.close('solution %d: north' % (i + 1), e * e, eta * eta * (s[0] * s[0] + s[1] * s[1]), t * 10, ctol=ct)
            if not two:
                s = S[0].all()
                r, zk = E.sqrt(r2), v[2] * k
                E.claim('lemma 1', E.ge(r2 - zk * zk * eta * eta, 0.0), learn=True)
                E.claim('lemma 2', E.ge(r + zk * eta, 0.0), learn=True)
                E.close('first solution: the star lies on the given side in xi', (v[1] * s[0] - v[0] * s[1]) * (1 + eta * eta) * E.sqrt(q2 * (r2 + xi * xi)), xi * q2 * (r + zk * eta), t * 10, ctol=ct)
                E.leq('first solution: the star lies on the given side in eta', 0.0, eta * (k * v[2] - s[2]), 1e-6)
        else:
            E.claim('no solution', E.eq(n, 0))
    hs = []
    for c in ('near', 'edge', 'behind edge', 'behind'):
        if not (f32 and 'edge' in c):
            hs.append(H('%s/%s' % (P['s2tp'], c), s2tp(c), bounds='all angles in +-7'))
            hs.append(H('%s/%s' % (P['v2tp'], c), v2tp(c), bounds='every pair of directions, tangent point off the pole'))
    for s in (1, -1):
        hs.append(H('%s, %s/pole %+d' % (P['v2tp'], P['tp2v'], s), v2tp_pole(s)))
    hs += [H(P['tp2s'], tp2s, bounds='|xi|, |eta| <= 5'), H(P['tp2v'], tp2v, bounds='|xi|, |eta| <= 5'), H(P['tp2s'] + ' then ' + P['s2tp'], round_s, bounds='|xi|, |eta| <= 2'),
           H(P['tp2v'] + ' then ' + P['v2tp'], round_v, bounds='|xi|, |eta| <= 2'), H(P['tps2c'], tps2c, bounds='|xi|, |eta| <= 1.5, off the pole and the case boundaries', weight=3),
           H(P['tpv2c'], tpv2c, bounds='|xi|, |eta| <= 1.5, off the pole and the case boundaries', weight=3)]
    return hs


def harnesses(tier):
    return mk('d') + mk('s')


PROPS = {'C17': dict(harnesses=harnesses, claim='Every star and tangent point in the stated boxes, both precisions and both representations.')}
