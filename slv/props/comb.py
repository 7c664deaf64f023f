"""Combinations (C08), permutations (C09), observing stations (C10)."""
import os, json
from ..engine import H

OK, NOMORE, INVALID = 0, 1, 2


def mk_combn_next(k, top):
    def f(E):
        n = E.int('ncand', k, top)
        L = [E.int('l%d' % i, 1, top) for i in range(k)]
        for i in range(k - 1):
            E.assume(E.lt(L[i], L[i + 1]))
        E.assume(E.le(L[-1], n))
        b = E.buf('i' * k, L, 'list')
        st = E.call('combn', k, n, b)
        R = b.all()
        # successor: the lowest element that can move up does, those below restart at 1,2,...
        can = []
        for i in range(k):
            nx = L[i + 1] if i + 1 < k else n + 1
            can.append(E.lt(L[i] + 1, nx))
        hit = None
        for i in range(k):
            if E.true(can[i]):
                hit = i
                break
        if hit is None:
            E.claim('after the last combination the status says so', E.eq(st, NOMORE))
            E.claim('and the sequence restarts', E.and_(*[E.eq(R[i], i + 1) for i in range(k)]))
        else:
            E.claim('status OK', E.eq(st, OK))
            E.claim('next combination in sequence', E.and_(*[E.eq(R[i], i + 1 if i < hit else L[i] + 1 if i == hit else L[i]) for i in range(k)]))
        E.claim('ascending subset of the candidates', E.and_(E.ge(R[0], 1), E.le(R[-1], n), *[E.lt(R[i], R[i + 1]) for i in range(k - 1)]))
    return f


def mk_combn_init(k, top):
    def f(E):
        n = E.int('ncand', k, top)
        b = E.buf('i' * k, [E.int('l0', -2 ** 31, 0)] + [E.int('g%d' % i, -2 ** 31, 2 ** 31 - 1) for i in range(1, k)], 'list')
        st = E.call('combn', k, n, b)
        E.claim('first combination', E.and_(E.eq(st, OK), *[E.eq(b[i], i + 1) for i in range(k)]))
    return f


def combn_bad(E):
    k, n = E.int('nsel', -2 ** 31, 2 ** 31 - 1), E.int('ncand', -2 ** 31, 2 ** 31 - 1)
    E.assume(E.or_(E.lt(k, 1), E.lt(n, 1), E.gt(k, n)))
    b = E.buf('ii', [E.int('a', -9, 9), 7], 'list')
    a0 = b[0]
    st = E.call('combn', k, n, b)
    E.claim('illegal arguments are reported', E.eq(st, INVALID))
    E.claim('and the list is left alone', E.and_(E.eq(b[0], a0), E.eq(b[1], 7)))


def harnesses_c08(tier):
    hs = [H('invalid', combn_bad, bounds='every illegal argument pair')]
    for k in range(1, 7 if tier == 'quick' else 10):
        hs.append(H('next/%d' % k, mk_combn_next(k, 1000000000), bounds='subset size %d, any number of candidates to 1e9, any combination' % k))
        hs.append(H('first/%d' % k, mk_combn_init(k, 1000000000), bounds='subset size %d, any uninitialised list' % k))
    return hs


# ------------------------------------------------------------------------------------------------ permutations
def fact(n):
    return 1 if n < 2 else n * fact(n - 1)


def number(S):
    w, v = 1, 0
    for i, s in enumerate(S):
        v = v + s * w
        w *= i + 1
    return v


def check_order(E, n, S, O):
    E.claim('a permutation of 1..n', E.and_(*[E.and_(E.ge(O[i], 1), E.le(O[i], n)) for i in range(n)],
                                            *[E.ne(O[i], O[j]) for i in range(n) for j in range(i)]))
    # distinct states give distinct permutations: the state is recovered from the permutation
    o = [E.pick(x) for x in O]
    if sorted(o) == list(range(1, n + 1)):
        for l in range(2, n + 1):
            p = o.index(l)
            E.claim('the permutation determines the state (digit %d)' % l, E.eq(S[l - 1], sum(1 for q in range(p) if o[q] < l)))


def mk_permut_next(n):
    def f(E):
        S = [E.int('s%d' % i, 0, i) for i in range(n)]
        b, o = E.buf('i' * n, S, 'state'), E.buf('i' * n, [E.int('o%d' % i, -100, 100) for i in range(n)], 'order')
        st = E.call('permut', n, b, o)
        R = b.all()
        E.claim('state digits in range', E.and_(*[E.and_(E.ge(R[i], 0), E.le(R[i], i)) for i in range(n)]))
        v0, v1 = number(S), number(R)
        last = E.eq(v0, fact(n) - 1)
        E.claim('advances by one, wrapping after the last', E.or_(E.and_(last, E.eq(v1, 0)), E.eq(v1, v0 + 1)))
        E.claim('status tells when there are no more', E.and_(E.beq(E.eq(st, NOMORE), last), E.beq(E.eq(st, OK), E.not_(last))))
        check_order(E, n, R, o.all())
    return f


def mk_permut_first(n):
    def f(E):
        S = [E.int('s0', -2 ** 31, -1)] + [E.int('s%d' % i, -2 ** 31, 2 ** 31 - 1) for i in range(1, n)]
        b, o = E.buf('i' * n, S, 'state'), E.buf('i' * n, None, 'order')
        st = E.call('permut', n, b, o)
        E.claim('first permutation is n..1', E.and_(E.ne(st, INVALID), *[E.eq(o[i], n - i) for i in range(n)]))
        if n > 1:
            E.claim('status OK', E.eq(st, OK))
        E.claim('state is the first one', E.and_(*[E.eq(b[i], 0) for i in range(n)]))
    return f


def mk_permut_last(n):
    def f(E):
        S = list(range(n))
        S2 = list(S)
        # one step before the last
        for i in range(n):
            if S2[i] > 0:
                S2[i] -= 1
                for j in range(i):
                    S2[j] = j
                break
        g = E.int('g', -100, 100)
        b, o = E.buf('i' * n, S2, 'state'), E.buf('i' * n, [g] * n, 'order')
        st = E.call('permut', n, b, o)
        E.claim('final permutation is 1..n', E.and_(E.eq(st, OK), *[E.eq(o[i], i + 1) for i in range(n)]))
        st = E.call('permut', n, b, o)
        E.claim('then the first one again with "no more"', E.and_(E.eq(st, NOMORE), *[E.eq(o[i], n - i) for i in range(n)]))
    return f


def permut_bad(E):
    n = E.int('n', -2 ** 31, 0)
    b, o = E.buf('ii', [5, 6], 'state'), E.buf('ii', [7, 8], 'order')
    st = E.call('permut', n, b, o)
    E.claim('illegal size reported, arrays untouched', E.and_(E.eq(st, INVALID), E.eq(b[0], 5), E.eq(b[1], 6), E.eq(o[0], 7), E.eq(o[1], 8)))


def harnesses_c09(tier):
    hs = [H('invalid', permut_bad, bounds='every n <= 0')]
    for n in range(1, 6 if tier == 'quick' else 7):
        hs.append(H('next/%d' % n, mk_permut_next(n), bounds='n=%d, every reachable state' % n, weight=n))
    for n in range(1, 9):
        hs.append(H('first/%d' % n, mk_permut_first(n), bounds='n=%d, any uninitialised state' % n))
        if n > 1:
            hs.append(H('last/%d' % n, mk_permut_last(n), bounds='n=%d' % n))
    return hs


# ------------------------------------------------------------------------------------------------ stations
ST = json.load(open(os.path.join(os.path.dirname(__file__), '..', 'data', 'stations.json')))
AS = 0.484813681109535994e-5


def expect(E, r, ok, i):
    if i is None:
        E.claim('no such station', E.not_(ok))
        E.claim('names set to "?"', E.cstr(r[0]) == '?' and E.cstr(r[1]) == '?')
        E.claim('numbers set to zero', E.and_(E.eq(r[2], 0.0), E.eq(r[3], 0.0), E.eq(r[4], 0.0)))
        return
    s = ST[i]
    E.claim('found', ok)
    E.claim('identifier of the station', E.cstr(r[0]) == s[0])
    E.claim('name of the station', E.cstr(r[1]) == s[1])
    lon = ((s[3] * 60 + s[4]) * 60 + s[5]) * AS * (1 if s[2] == 'W' else -1)
    lat = ((s[7] * 60 + s[8]) * 60 + s[9]) * AS * (1 if s[6] == 'N' else -1)
    E.close('longitude, west positive', r[2], lon, 1e-12)
    E.close('geodetic latitude', r[3], lat, 1e-12)
    E.close('height', r[4], s[10], 1e-9)


def mk_obs_n(lo, hi):
    def f(E):
        n = E.int('n', lo, hi)
        r = E.buf('ppddd', None, 'obs')
        ok = E.call('obs', n, None, r)
        if E.true(E.ge(n, len(ST))):
            expect(E, r, ok, None)
            return
        expect(E, r, ok, E.pick(n))
    return f


def obs_null(E):
    n = E.int('n', -2 ** 31, -1)
    r = E.buf('ppddd', None, 'obs')
    expect(E, r, E.call('obs', n, None, r), None)


def obs_n_over_id(E):
    """the identifier is ignored when the number is not negative"""
    n = E.int('n', 0, 4)
    r = E.buf('ppddd', None, 'obs')
    ok = E.call('obs', n, E.cstring('MMT'), r)
    expect(E, r, ok, E.pick(n))


def mk_obs_id(first, ln):
    """first: list of possible first characters (None: any other)"""
    heads = sorted(set(s[0][0] for s in ST))

    def f(E):
        n = E.int('n', -2 ** 31, -1)
        cs = [E.int('c%d' % i, -128, 127) for i in range(ln)]
        for c in cs:
            E.assume(E.ne(c, 0))
        if first is None:
            for h in heads:
                E.assume(E.ne(cs[0], ord(h)))
        else:
            E.assume(E.eq(cs[0], ord(first)))
        b = E.buf('c' * (ln + 1), cs + [0], 'id')
        r = E.buf('ppddd', None, 'obs')
        ok = E.call('obs', n, b, r)
        hit = None
        for i, s in enumerate(ST):
            if first is None or s[0][0] != first or len(s[0]) < ln:
                continue
            if E.true(E.and_(*[E.eq(cs[j], ord(s[0][j])) for j in range(1, ln)]) if ln > 1 else True):
                hit = i
                break
        expect(E, r, ok, hit)
    return f


def mk_obs_exact(i):
    def f(E):
        n = E.int('n', -2 ** 31, -1)
        r = E.buf('ppddd', None, 'obs')
        ok = E.call('obs', n, E.cstring(ST[i][0]), r)
        j = next(k for k, s in enumerate(ST) if s[0].startswith(ST[i][0]))
        expect(E, r, ok, j)
    return f


def obs_empty(E):
    n = E.int('n', -2 ** 31, -1)
    r = E.buf('ppddd', None, 'obs')
    expect(E, r, E.call('obs', n, E.cstring(''), r), 0)


def harnesses_c10(tier):
    hs = [H('by number', mk_obs_n(0, 2 ** 31 - 1), bounds='every n >= 0', weight=3), H('no identifier', obs_null, bounds='every n < 0, null identifier'),
          H('number before identifier', obs_n_over_id, bounds='n in 0..4 with an identifier of another station')]
    heads = sorted(set(s[0][0] for s in ST))
    for ln in ((1, 2, 3, 4, 6, 11) if tier == 'quick' else range(1, 13)):
        hs.append(H('by identifier/other/%d' % ln, mk_obs_id(None, ln), bounds='every string of %d bytes starting with no known initial' % ln))
        for h in heads:
            hs.append(H('by identifier/%s/%d' % (h, ln), mk_obs_id(h, ln), bounds='every string of %d bytes starting with %s' % (ln, h), smoke=5))
    hs.append(H('by identifier/empty', obs_empty, bounds='empty prefix'))
    for i in range(len(ST)):
        hs.append(H('full identifier/%s' % ST[i][0], mk_obs_exact(i), bounds='exact identifier', smoke=2))
    return hs


PROPS = {
    'C08': dict(harnesses=harnesses_c08, claim='One step from an arbitrary valid combination (so any history of calls).'),
    'C09': dict(harnesses=harnesses_c09, claim='One step from an arbitrary valid state (so any history of calls).'),
    'C10': dict(harnesses=harnesses_c10, claim='Every station number, every identifier byte string of the stated lengths (up to 11; thorough: 12).'),
}
