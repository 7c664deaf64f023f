"""Pseudo-random numbers (C26), versions and waiting (C27)."""
from ..engine import H

M = 2147483647            # modulus of the minimal standard generator
F = 2e-7                  # half a unit in the last place of a float near 1, with room


def unit_range(E, n, r):
    E.claim(n + ' is not negative', E.le(0, r))
    E.claim(n + ' is below one', E.lt(r, 1))


DEC = (0, 1, 2, 5, 6, 7, 12, 30)      # powers of ten around which seeds are taken (the code scales a seed by its magnitude)


def seed_of(E, ks, neg=False):
    k = ks[E.pick(E.int('magnitude', 0, len(ks) - 1))]
    lo, hi = 10.0 ** (k - 0.4999), 10.0 ** (k + 0.4999)
    return E.real('seed', max(lo, 1.001 if neg else 1.0) - 1, hi - 1, f32=True)


def mk_first(ks, neg):
    def f(E):
        """first call, any seed"""
        E.fresh()
        s = seed_of(E, ks, neg)
        r = E.call('random', -s if neg else s)
        unit_range(E, 'first number', r)
        unit_range(E, 'second number', E.call('random', s))
    return f


def mk_once(ks):
    def f(E):
        """the seed counts at the first call only, and the same seed gives the same numbers"""
        s = seed_of(E, ks)
        a, b, c = E.real('second', -1e6, 1e6, f32=True), E.real('third', -1e6, 1e6, f32=True), E.real('other', -1e6, 1e6, f32=True)
        E.fresh()
        one = [E.call('random', x) for x in (s, a, b)]
        E.fresh()
        two = [E.call('random', x) for x in (s, c, a)]
        for i, (x, y) in enumerate(zip(one, two)):
            E.same('number %d' % (i + 1), x, y)
    return f


def mk_seed(k, neg):
    """the first number is that of the minimal standard generator started from the leading six or seven digits of |seed| + 1, made odd"""
    def f(E):
        E.fresh()
        j = E.int('digits', 316300, 3162000)
        fr = E.real('rest', -0.05, 0.05)
        a = (E.toreal(j) + fr) * E.const(10.0 ** (k - 6)) - 1
        r = E.call('random', -a if neg else a)
        odd = j + (1 - j % 2)
        n = (odd * 16807) % M
        E.close('first number from this seed', r, (E.toreal(n) - 1) / E.const(2.0 ** 31), F, ctol=2e-7)
    return f


def step(E, s):
    """the next state, and that state less one as a real number (cut: one unknown in 0..M-2 from here on)"""
    n = (s * 16807) % M
    u = E.cut(E.toreal(n)) - 1
    E.assume(E.and_(E.ge(n, 1), E.ge(u, 0)))      # by the lemma
    return n, u


def rnd_lemma(E):
    """no state steps to zero (the modulus is prime)"""
    s = E.int('state', 1, M - 1)
    E.claim('next state is not zero', E.ge((s * 16807) % M, 1))


def mk_state(back):
    def f(E):
        """any generator state, so any history: the range, and a step of the minimal standard generator"""
        E.fresh()
        E.call('random', 1.0)
        s = E.int('state', 1, M - 1)
        if not E.havoc('random', 'generator', 'l', [s]):
            E.claim('no such static variable: nothing to decide here', True)
            return
        for i in range(back + 1):
            s, u = step(E, s)
            r = E.call('random', 5.0)
        unit_range(E, 'number', r)
        E.close('minimal standard generator', r, u / E.const(2.0 ** 31), F, ctol=2e-7)
    return f


TOP = 130


def rnd_margin(E):
    """any state but the last few: below one by more than single-precision rounding can bridge"""
    E.fresh()
    E.call('random', 1.0)
    s = E.int('state', 1, M - 1)
    if not E.havoc('random', 'generator', 'l', [s]):
        E.claim('no such static variable: nothing to decide here', True)
        return
    n, u = step(E, s)
    E.assume(E.le(u, M - 2 - TOP))
    r = E.call('random', 5.0)
    E.leq('number', r, 1 - 2.0 ** -25)


def rnd_top(E):
    """the states that give the largest numbers, in single-precision arithmetic"""
    E.fresh()
    E.call('random', 1.0)
    k = E.pick(E.int('k', 0, TOP))
    if not E.havoc('random', 'generator', 'l', [(M - 1 - k) * pow(16807, -1, M) % M]):
        E.claim('no such static variable: nothing to decide here', True)
        return
    unit_range(E, 'number', E.call('random', 5.0))


def stream(n, s=123456789):
    """normal deviates of Box and Muller from the minimal standard generator"""
    import math
    out = []

    def u():
        nonlocal s
        s = s * 16807 % M
        return (s - 1) / (M - 1)
    while len(out) < n:
        x, y = 2 * u() - 1, 2 * u() - 1
        r = x * x + y * y
        if r < 1:
            w = math.sqrt(-2 * math.log(r) / r)
            out += [y * w, x * w]
    return out


def mk_gres(n):
    def f(E):
        """from the start of a process: each deviate is a fixed unit deviate times the standard deviation of that very call"""
        s = [E.real('stdev %d' % i, -100, 100, f32=True) for i in range(n)]
        E.fresh()
        a = [E.call('gresid', x) for x in s]
        E.fresh()
        b = [E.call('gresid', 1.0) for x in s]
        for i in range(n):
            E.close('deviate %d' % (i + 1), a[i], b[i] * s[i], 1e-4, ctol=1e-4)
        w = stream(n)
        for i in range(n):
            E.close('unit deviate %d' % (i + 1), b[i], E.const(w[i]), 2e-3, ctol=2e-3)
    return f


def gres_state(E):
    """any generator state: a pair of deviates is a Box-Muller pair of the next point drawn inside the unit circle"""
    E.fresh()
    E.call('gresid', 1.0)
    E.call('gresid', 1.0)
    s = E.int('state', 1, M - 1)
    if not E.havoc('gresid', 'generator', 'l', [s]):
        E.claim('no such static variable: nothing to decide here', True)
        return
    s1, u1 = step(E, s)
    s2, u2 = step(E, s1)
    k = E.const(2.0 ** 31)         # M - 1 in single precision
    x, y = 2 * u1 / k - 1, 2 * u2 / k - 1
    r = x * x + y * y
    E.assume(E.and_(E.lt(r, 0.98), E.gt(r, 0.001)))
    d = E.real('stdev', 0.5, 2, f32=True)
    a = E.call('gresid', d)
    b = E.call('gresid', d)
    E.close('length', (a * a + b * b), -2 * d * d * E.log(r), 1e-3, ctol=2e-2)
    E.close('direction', a * x, b * y, 1e-4, ctol=1e-3)
    E.leq('side', -1e-4, a * y)


def c26(tier):
    n = 12 if tier == 'quick' else 60
    return [*[H('random/first call, %s seed, 10^%d' % ('negative' if n else 'positive', k), mk_first((k,), n), bounds='seed near that power of ten') for k in DEC for n in (0, 1)],
            *[H('random/seeding, 10^%d' % k, mk_once((k,))) for k in (0, 2, 6)], *[H('random/seed, %s, 10^%d' % ('negative' if n else 'positive', k), mk_seed(k, n), bounds='|seed| + 1 with six or seven leading digits near 10^%d' % k) for k in (1, 3, 6, 9) for n in (0, 1)], H('lemma: states', rnd_lemma), H('random/any state', mk_state(0), bounds='every state of the generator'),
            H('random/two steps', mk_state(1), bounds='every state of the generator'), H('random/margin', rnd_margin, bounds='all but the last %d states' % TOP), H('random/largest', rnd_top, bounds='the last %d states, one by one' % (TOP + 1)),
            H('gresid/history', mk_gres(n), bounds='%d calls' % n),
            H('gresid/any state', gres_state, bounds='every state whose next point falls inside the unit circle')]


def version(E):
    """the number and the text name the same release"""
    n = E.call('veri')
    s = E.cstr(E.call('vers'))
    s = s if isinstance(s, str) else bytes(c & 255 for c in E.x._cs(E.call('vers'))).decode('latin1')
    import re
    m = re.fullmatch(r'(\d+)\.(\d+)-(\d+)', s)
    E.claim('text has the form M.N-R', bool(m))
    if m:
        a, b, c = map(int, m.groups())
        E.claim('number is M million, N thousand, R', E.eq(n, a * 1000000 + b * 1000 + c))


def pause(E):
    """sleeps once for the nearest whole number of seconds (halves away from zero); nothing for less than half a second"""
    E.fresh()
    s = E.real('seconds', -2e4, 2e6, f32=True)
    E.interrupt(None)
    E.call('wait', s)
    n = E.round(s)
    z = E.sleeps()
    if E.true(E.le(n, 0)):
        E.claim('returns at once', len(z) == 0 or all(x == 0 for p in z for x in p))
    else:
        E.claim('one sleep', len(z) == 1)
        if len(z) == 1:
            E.claim('whole seconds', E.eq(z[0][1], 0))
            E.close('seconds', E.toreal(z[0][0]), n, 0, ctol=0)


def pause_signal(E):
    """a sleep interrupted by a signal is resumed for what remains"""
    E.fresh()
    s, left = E.real('seconds', 3, 1e6, f32=True), E.int('left', 1, 1000000)
    E.assume(E.lt(E.toreal(left) + 1, s))
    E.interrupt(left)
    E.call('wait', s)
    z = E.sleeps()
    E.claim('two sleeps', len(z) == 2)
    if len(z) == 2:
        E.close('first', E.toreal(z[0][0]), E.round(s), 0, ctol=0)
        E.claim('rest', E.eq(z[1][0], left))
        E.claim('whole seconds', E.eq(z[1][1], 0))


def c27(tier):
    return [H('veri, vers', version), H('wait', pause, bounds='-2e4..2e6 s'), H('wait/interrupted', pause_signal, bounds='one interruption')]


PROPS = {'C26': dict(harnesses=c26, claim='Every seed and generator state in the boxes.', assume=['The generator is the libstdc++ minimal standard one, executed from its template code; arithmetic on its numbers is exact.']),
         'C27': dict(harnesses=c27, claim='Every duration in the box.', assume=['Sleeping is a stand-in that records the request and may be interrupted once.'])}
