import os, runpy
_b1 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b1.py'))
HD = _b1['HD']
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=HD + demo, needs=needs, breaks=breaks))


bug('djcal-late-fraction', 'C02', [('djcal.cc', 'date.d_ifraction = f_nint(f);', 'date.d_ifraction = (int) (mjd * fd - d * fd + (mjd < 0.0? 0.0: 0.5));')],
    '''int main() { Date d; djcal(2, -1000.25, d); if (d.d_ifraction != 75) BAD("a: %d", d.d_ifraction); djcal(1, -3000.27, d); if (d.d_ifraction != 7) BAD("b: %d", d.d_ifraction);
    djcal(2, -7.123456, d); if (d.d_ifraction != 88) BAD("c: %d", d.d_ifraction); return 0; }''',
    'a date before 1858 whose fraction is not a whole number of the requested units', 'the fraction is truncated, not rounded, and no longer belongs to the rounded day')
bug('year-zero', 'C03', [('slalib.cc', 'year >= 0 && year <= 49', 'year > 0 && year <= 49')],
    '''int main() { int y = 0, d = 0; calyd(0, 3, 1, y, d); if (y != 2000 || d != 61) BAD("%d %d", y, d); double m; caldj(0, 1, 1, m); if (m != 51544) BAD("%g", m); return 0; }''',
    'the two-digit year 00', 'it is no longer read as 2000')
bug('dranrm-zero', 'C07', [('dranrm.cc', 'if (result < 0.0) {', 'if (result <= 0.0 && angle != 0.0) {')],
    '''int main() { double r = dranrm(6.283185307179586476925287); if (r != 0.0) BAD("one turn gives %.17g", r); r = dranrm(-0.5); if (std::fabs(r - 5.7831853071795862) > 1e-12) BAD("%g", r); return 0; }''',
    'an exact number of turns', 'the result is 2 pi, outside the range, instead of 0')
bug('combn-skip', 'C08', [('combn.cc', 'if (nmax - list_i > 1) {', 'if (nmax - list_i > ((i >= nsel && i > 3)? 2: 1)) {')],
    '''int main() { int l[5] = {0}, n = 1; if (combn(5, 8, l) != CPS_OK) BAD("start"); while (combn(5, 8, l) == CPS_OK) if (++n > 200) BAD("no end"); if (n != 56) BAD("%d combinations of 5 from 8", n); return 0; }''',
    'four or more elements and the largest one about to take the last candidate', 'combinations with the last candidate are never produced')
bug('obs-prefix', 'C10', [('obs.cc', 'size_t nlen = std::strlen(id);', 'size_t nlen = std::strlen(id) > 8? 8: std::strlen(id);')],
    '''int main() { Observatory o; if (!obs(-1, "MAGELLAN2", o) || std::strcmp(o.o_id, "MAGELLAN2")) BAD("found %s", o.o_id); if (obs(-1, "PARKES123", o)) BAD("accepted"); if (!obs(-1, "GEMINIS", o) || std::strcmp(o.o_id, "GEMINIS")) BAD("%s", o.o_id); return 0; }''',
    'an identifier longer than eight characters', 'only the first eight characters are compared')
bug('prec-theta', 'C14', [('prec.cc', '(-0.85330 - 0.000217 * t0) * t0)', '(-0.85330 - 0.000217 * t) * t0)')],
    '''int main() { Matrix<double> a, b, c, d; prec(1950.0, 1700.0, a); /* the angle theta at 1950 over -2.5 centuries */ double t0 = -0.5, t = -2.5, s = 0.484813681109535994e-5;
    double th = ((2004.3109 + (-0.85330 - 0.000217 * t0) * t0) + ((-0.42665 - 0.000217 * t0) - 0.041833 * t) * t) * t * s; if (std::fabs(a[2][2] - std::cos(th)) > 1e-13) BAD("%.16g %.16g", a[2][2], std::cos(th)); return 0; }''',
    'a starting epoch other than J2000', 'a second-order term uses the interval instead of the starting epoch')
bug('etrms-perihelion', 'C16', [('etrms.cc', '(1.65 + 0.012 * jc) * jc) * jc', '(1.65 + 0.021 * jc) * jc) * jc')],
    '''int main() { Vector<double> e; etrms(1700.0, e); double T = (1700.0 - 1950.0) * 1.00002135903e-2, s = 0.484813681109535994e-5, ec = 0.01673011 - (0.00004193 + 0.000000126 * T) * T,
    p = (1015489.951 + (6190.67 + (1.65 + 0.012 * T) * T) * T) * s; if (std::fabs(e[0] - ec * 20.49552 * s * std::sin(p)) > 1e-12) BAD("%.16g %.16g", e[0], ec * 20.49552 * s * std::sin(p)); return 0; }''',
    'an epoch centuries from 1950', 'the longitude of perihelion drifts')
bug('dtps2c-second', 'C17', [('dtps2c.cc', '''        r = -r;
        s = sdf - eta * r;
        c = sdf * eta + r;''', '''        r = -r;
        s = sdf - eta * r;
        c = (eta < 0.0 && sdf < 0.0)? -sdf * eta + r: sdf * eta + r;''')],
    '''int main() { Spherical<double> p, a, b; double x, y; p.set_ra(1.0); p.set_dec(-1.4); int n = dtps2c(0.1, -0.15, p, a, b); if (n < 1) BAD("none"); TPPStatus st = ds2tp(p, b, x, y);
    if (std::fabs(x - 0.1) > 1e-9 || std::fabs(y + 0.15) > 1e-9) BAD("second solution projects to %g %g (%d)", x, y, (int) st); return 0; }''',
    'a southern star with negative eta', 'the second tangent point is wrong')
bug('fitxy-flip', 'C18', [('fitxy.cc', '''                        const double yr = d + c * x_measured + b * y_measured - expected[i][1];''', '''                        const double yr = d + c * x_measured + b * y_measured - expected[i][1] * sign;''')],
    '''int main() { double me[4][2] = {{0, 0}, {1, 0}, {0, 2}, {3, 1}}, ex[4][2]; for (int i = 0; i < 4; i++) { ex[i][0] = -me[i][0]; ex[i][1] = me[i][1] + 0.5; } FitCoeffs m; double f[6];
    if (fitxy(true, 4, ex, me, m) != FIT_OK) BAD("status"); for (int i = 0; i < 4; i++) { double x, y; xy2xy(me[i][0], me[i][1], m, x, y); if (std::fabs(x - ex[i][0]) > 1e-9 || std::fabs(y - ex[i][1]) > 1e-9) BAD("sample %d: %g %g", i, x, y); } return 0; }''',
    'a solid-body fit of mirror-imaged positions with three or more samples', 'the mirror-image solution is judged by wrong residuals and the other one is returned')
bug('dmat-swap', 'C19', [('dmat.cc', '''                for (j = 0; j < n; j++) {
                    const double t1 = element(k, j);''', '''                for (j = (k > 1? 1: 0); j < n; j++) {
                    const double t1 = element(k, j);''')],
    '''int main() { double a[16] = {2, 1, 0, 1, 1, 3, 1, 0, 0, 1, 0.1, 5, 1, 0, 4, 1}, b[16], v[4] = {4, 5, 6.1, 6}, w[4], d; int ws[4]; std::memcpy(b, a, sizeof a); std::memcpy(w, v, sizeof v);
    if (dmat(4, a, v, d, ws)) BAD("singular"); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { double s = 0; for (int k = 0; k < 4; k++) s += a[i * 4 + k] * b[k * 4 + j]; if (std::fabs(s - (i == j)) > 1e-9) BAD("inverse times matrix [%d][%d] = %g", i, j, s); } return 0; }''',
    'a matrix of order four (or more) that needs a row exchange at its third step', 'part of the row is left behind in the exchange')
bug('svdcov-null', 'C19', [('svdcov.cc', '(s1 != 0.0)? 1.0 / (s1 * s1): 0.0', '(l == 0 || s1 > 1.0e-3 * w[0])? 1.0 / (s1 * s1): 0.0')],
    '''int main() { double w[2] = {1e-4, 2.0}, v[4] = {1, 0, 0, 1}, ws[2], c[4]; w[0] = 2.0; w[1] = 1e-3; svdcov(2, 2, 2, w, v, ws, c); if (std::fabs(c[3] - 1e6) > 1) BAD("%g", c[3]); return 0; }''',
    'a singular value below a thousandth of the first', 'it is dropped although it is not null')
bug('refz-limit', 'C21', [('refz.cc', 'constexpr double DEG93_IN_RADIANS = 93.0;', 'constexpr double DEG93_IN_RADIANS = 92.0;')],
    '''int main() { double z = 92.5 / 57.29577951308232, r = refz(z, 2.9e-4, -3e-7), r2 = refz(92.0 / 57.29577951308232, 2.9e-4, -3e-7); double a = z - r, b = 92.0 / 57.29577951308232 - r2;
    if (std::fabs(a - b) < 1e-9) BAD("refraction stuck beyond 92 degrees"); return 0; }''', 'a zenith distance between 92 and 93 degrees', 'refraction becomes constant a degree too early')
bug('nutc80-term', 'C22', [('nutc80.cc', 'dp = dp + std::sin(elp + d);', 'dp = dp + std::sin(elp - d);')],
    '''int main() { double p, e, e0, q = 0, lo = 1e9, hi = -1e9; /* amplitude 0.0001 arcsec of the term at argument l' + D */
    const double A = 0.484813681109535994e-5; double s = 0, c = 0; for (int i = 0; i < 20000; i++) { double t = 45000.0 + i * 0.73, T = (t - 51544.5) / 36525.0;
    double elp = A * (1287099.804 + (99.0 * 1296000.0 + 1292581.224 + (-0.577 - 0.012 * T) * T) * T), d = A * (1072261.307 + (1236.0 * 1296000.0 + 1105601.328 + (-6.891 + 0.019 * T) * T) * T);
    nutc80(t, p, e, e0); s += p * std::sin(elp + d); } s = s * 2 / 20000 / A * 1e4; if (s < 0.5) BAD("amplitude of the term: %g", s); return 0; }''',
    'sub-milliarcsecond attention to one of the 106 terms', 'the argument of one term is wrong')
bug('gmsta-order', 'C22', [('gmsta.cc', '''        d1 = fdate;
        d2 = date;''', '''        d1 = fdate;
        d2 = (fdate < 0.0)? date + 1.0e-6: date;''')],
    '''int main() { double a = gmsta(51544.0, -0.25), b = gmst(51543.75); if (std::fabs(a - b) > 1e-8) BAD("%.12g %.12g", a, b); return 0; }''',
    'a negative second part of the date', 'the sidereal time is off by a tenth of a second')
bug('earth-negative-year', 'C23', [('earth.cc', 'const int y4 = ((year % 4) + 4) % 4;', 'const int y4 = std::abs(year % 4);')],
    '''int main() { VectorPV<float> a, b; /* the position a day apart, across the year end, before year 0 */ earth(-99, 365, 0.0f, a); earth(-98, 1, 0.0f, b); double s = std::hypot(a.get_x() - b.get_x(), a.get_y() - b.get_y());
    if (s < 0.010 || s > 0.024) BAD("the Earth moved %g AU in a day", s); return 0; }''', 'a year before 0 that is not a multiple of 4', 'the position is off by up to half a day of motion')
bug('pm-radial', 'C24', [('pm.cc', 'motion.get_dec() * std::cos(dir_ep0.get_dec()) + w * pos[2]', 'motion.get_dec() * std::cos(dir_ep0.get_dec()) + std::abs(w) * pos[2]')],
    '''int main() { Spherical<double> a, m, b; a.set_ra(1); a.set_dec(1.2); m.set_ra(0); m.set_dec(0); pm(a, m, 1.0, -300.0, 1950.0, 2050.0, b); if (std::fabs(b.get_dec() - 1.2) > 1e-12) BAD("%.15g", b.get_dec()); return 0; }''',
    'an approaching star with a parallax', 'a purely radial motion changes the declination')
bug('unpcd-limit', 'C25', [('unpcd.cc', 'if (w1 < w3) {', 'if (w1 < w3 && disco > -10.0) {')],
    '''int main() { double x = 0.05, y = 0.02; pcd(-20.0, x, y); unpcd(-20.0, x, y); if (std::fabs(x - 0.05) > 1e-9 || std::fabs(y - 0.02) > 1e-9) BAD("%g %g", x, y); return 0; }''',
    'strong barrel distortion with three roots', 'the root on the far side is returned')
bug('gresid-pair', 'C26', [('gresid.cc', 'static SLALIB_THREAD_LOCAL float g_next;', 'static SLALIB_THREAD_LOCAL float g_next, g_dev;'), ('gresid.cc', 'g_next = x * w;', 'g_next = x * w;\n        g_dev = stdev;'),
                           ('gresid.cc', '        g = g_next;', '        g = g_next;\n        stdev = g_dev;')],
    '''int main() { gresid(1.0f); float a = gresid(0.0f); if (a != 0.0f) BAD("deviate %g for standard deviation zero", a); return 0; }''',
    'two calls of a pair with different standard deviations', 'the second deviate has the standard deviation of the first call')
bug('random-reseed', 'C26', [('random.cc', 'if (first_time) {', 'if (first_time || (seed < 0.0f && seed != -1.0f)) {')],
    '''int main() { random(3.0f); float a = random(-2.0f), b = random(-2.0f); if (a == b) BAD("the sequence restarts"); return 0; }''', 'a negative seed at a later call', 'the generator is seeded again')
bug('wait-round', 'C27', [('wait.cc', 'f_nint(seconds)', '(seconds < 4.0f)? f_nint(seconds): (int) seconds')],
    '''#include <time.h>
static long want; extern "C" int nanosleep(const struct timespec* r, struct timespec*) { want = r->tv_sec; return 0; }
int main() { wait(4.75f); if (want != 5) BAD("%ld", want); wait(2.6f); if (want != 3) BAD("%ld", want); return 0; }''', 'four seconds or more with a fraction of at least a half', 'the duration is truncated')
