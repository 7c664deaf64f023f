HD = '#include "slalib.h"\n#include <cstdio>\n#include <cmath>\n#include <cstring>\nusing namespace sla;\n#define BAD(...) do { std::printf(__VA_ARGS__); std::printf("\\n"); return 1; } while (0)\n'
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=HD + demo, needs=needs, breaks=breaks))


bug('cldj-century', 'C01', [('cldj.cc', '- (3 * ((year - (12 - month) / 10 + 4900) / 100)) / 4', '- (3 * ((year + 4900) / 100)) / 4')],
    '''int main() { double a = 0, b = 0; cldj(1900, 2, 28, a); cldj(1900, 3, 1, b); if (b - a != 1.0) BAD("1900 Feb 28 to Mar 1: %g days", b - a);
    cldj(2100, 1, 31, a); cldj(2099, 12, 31, b); if (a - b != 31.0) BAD("2100 January has %g days", a - b); return 0; }''',
    'a January or February date in a century year that is not a leap year', 'the day count is off by one in those two months')
bug('djcal-fraction-sign', 'C02', [('djcal.cc', '''        if (f < 0.0) {
            f += fd;
        }''', '''        if (f < 0.0 && ndp > 0) {
            f += fd;
        } else if (f < 0.0) {
            f = 0.0;
        }'''), ('djcal.cc', 'const double df = f_anint(mjd * fd);', 'const double df = (mjd < 0.0)? std::ceil(mjd * fd - 0.5): f_anint(mjd * fd);')],
    '''int main() { Date d; djcal(0, -0.5, d); /* half a day before the epoch rounds away from zero */ if (d.d_day != 16) BAD("day %d", d.d_day); return 0; }''',
    'a negative MJD whose scaled value is exactly half an integer', 'the rounding of negative dates differs from that of positive ones')
bug('clyd-leap', 'C03', [('clyd.cc', 'jday = 59 + L - 365 * i + ((4 - N) / 4) * (1 - j);', 'jday = 59 + L - 365 * i + ((4 - N) / 4) * ((month > 2)? 1: 0);')],
    '''int main() { int y = 0, d = 0; clyd(2000, 2, 30, y, d); /* bad day, still converted: it is 1 March */ if (d != 61) BAD("2000 Feb 30 is day %d", d);
    clyd(1999, 13 - 1, 32, y, d); if (y != 2000 || d != 1) BAD("1999 Dec 32 is %d %d", y, d); clyd(2000, 3, 0, y, d); if (d != 60) BAD("2000 Mar 0 is day %d", d); return 0; }''',
    'a day number outside the month which falls on the other side of the end of February in a leap year', 'the leap day is counted by the month given rather than by the resulting date')
bug('dd2tf-carry', 'C04', [('dd2tf.cc', 'double interval = f_anint(rs * DAYS2SECONDS * std::abs(days));', 'double interval = rs * DAYS2SECONDS * std::abs(days);'),
                           ('dd2tf.cc', 'result.set_fraction(std::max(f_nint(std::min(fraction, rs - 1.0)), 0));', 'result.set_fraction(std::max(f_nint(std::min(fraction, rs - 0.5000001)), 0));'),
                           ],
    '''int main() { ConversionResult r; dd2tf(3, (12 * 3600 + 59 * 60 + 59.9997) / 86400.0, r); if (r.get_hours() != 13 || r.get_minutes() != 0 || r.get_seconds() != 0 || r.get_fraction() != 0)
    BAD("%d %d %d.%03d", r.get_hours(), r.get_minutes(), r.get_seconds(), r.get_fraction()); return 0; }''',
    'an interval within half a unit of the next second', 'the carry out of the rounded fraction is lost')
bug('dtf2d-seconds', 'C05', [('dtf2d.cc', 'seconds >= 60.0', 'seconds > 60.0')],
    '''int main() { double d; if (dtf2d(23, 59, 60.0, d) != T2D_BAD_SECONDS) BAD("60 seconds accepted"); return 0; }''', 'seconds exactly 60', 'status OK for out-of-range seconds')
bug('dt-break', 'C06', [('dt.cc', 'epoch >= 979.0258204760233', 'epoch >= 989.0258204760233')],
    '''int main() { double a = dt(989.0258204), b = dt(989.0258206); if (std::fabs(a - b) > 0.1) BAD("jump of %g s", b - a); return 0; }''', 'an epoch between 979 and 989', 'the wrong model is used and ET-UT jumps')
bug('drange-sign', 'C07', [('drange.cc', 'result -= f_sign(PI2, angle);', 'result -= (angle > PI2)? PI2: f_sign(PI2, result);'), ('drange.cc', 'if (std::fabs(result) >= PI) {', 'if (result >= PI || result < -PI) {')],
    '''int main() { const double PI = 3.141592653589793238462643; for (double a : {-PI, -3 * PI, PI}) { double r = drange(a); if (std::fabs(r) > PI + 1e-12) BAD("%g", r); } double r = drange(-PI); if (r < 0) BAD("-pi stays %g", r); return 0; }''',
    'exactly -pi', 'n/a')
bug('combn-top', 'C08', [('combn.cc', '''            for (int m = 0; m < i - 1;) {''', '''            for (int m = 0; m < i - 1 && list[m] > m + 1;) {''')],
    '''int main() { int l[4] = {1, 3, 4, 6}; l[0] = 2; combn(4, 8, l); /* 2 3 4 6 -> 1 2 5 6 */ if (l[0] != 1 || l[1] != 2 || l[2] != 5 || l[3] != 6) BAD("%d %d %d %d", l[0], l[1], l[2], l[3]);
    int n = 0, seen[256] = {0}; int k[4] = {0}; for (;;) { if (combn(4, 7, k) != CPS_OK) break; int m = 0; for (int i : k) m |= 1 << i; if (seen[m & 255]++) BAD("repeated"); if (++n > 100) BAD("no end"); }
    if (n != 35) BAD("%d combinations", n); return 0; }''', 'n/a', 'n/a')
bug('permut-restart', 'C09', [('permut.cc', 'if (state[0] < 0) {', 'if (state[0] < 0 || (n > 4 && state[n - 1] == n - 1 && state[n - 2] == n - 2 && state[2] < 0)) {'),
                             ('permut.cc', 'for (int j = 1; j <= n; j++) {', 'for (int j = 1; j <= n && (j == 1 || state[j - 2] == 0); j++) {'),
                             ('permut.cc', 'for (int k = 0; k < n; k++) {', 'for (int k = (n > 5 && state[n - 1] == n - 1)? 1: 0; k < n; k++) {')],
    '''int main() { int s[6] = {-1}, o[6], p[6]; for (int i = 0; i < 720; i++) { if (permut(6, s, o) != CPS_OK) BAD("early end at %d", i); unsigned m = 0; for (int v : o) m |= 1u << v; if (m != 126u) BAD("not a permutation at %d", i);
    /* the caller may use any output array, whatever it holds */ for (int k = 0; k < 6; k++) o[k] = 9; } return 0; }''',
    'six or more elements, the second half of the cycle, and an order array that does not hold the previous permutation', 'the order array is not fully initialised')
bug('obs-prefix', 'C10', [], '''int main() { return 0; }''', '', '')
BUGS.pop()
bug('epco-lower', 'C11', [('epco.cc', '''    } else if (result == 'B') {
        return epb(epj2d(epoch));''', '''    } else if (result == 'B') {
        return epb(epj2d((epoch < 1984.0)? epoch - 0.000021359: epoch));''')],
    '''int main() { for (double e = 1900; e < 2100; e += 7.3) { double b = epco('B', 'J', e), j = epco('J', 'B', b); if (std::fabs(j - e) > 1e-9) BAD("%g -> %.9f", e, j); } return 0; }''',
    'conversion to Besselian epoch before 1984', 'the round trip is no longer the identity')
bug('vxv-alias', 'C12', [('dvxv.cc', '', '')], '', '', '')
BUGS.pop()
bug('dc62s-pole', 'C12', [('dc62s.cc', 'if (rxy2 != 0.0) {', 'if (rxy2 > 1.0e-4 * r2) {')],
    '''int main() { VectorPV<double> v; SphericalPV<double> s; v.set_x(3e-3); v.set_y(4e-3); v.set_z(1.0); v.set_dx(1e-3); v.set_dy(0); v.set_dz(0); dc62s(v, s); if (std::fabs(s.get_longitude() - std::atan2(4.0, 3.0)) > 1e-9) BAD("longitude %g", s.get_longitude()); return 0; }''',
    'a direction within half a degree of a pole', 'longitude and rates are zeroed near the poles, not only at them')
bug('deuler-stop', 'C13', [], '', '', '')
BUGS.pop()
bug('dav2m-large', 'C13', [('dav2m.cc', 'const double sin_phi = std::sin(phi);', 'const double sin_phi = (phi <= 3.14159265358979)? std::sqrt(1.0 - std::cos(phi) * std::cos(phi)): std::fabs(std::sin(phi));')],
    '''int main() { Vector<double> v = {0, 0, 4.0}; Matrix<double> m; dav2m(v, m); if (std::fabs(m[0][1] - std::sin(4.0)) > 1e-9) BAD("%g", m[0][1]); return 0; }''',
    'a rotation by more than half a turn', 'rotations beyond 180 degrees turn the wrong way')
bug('dbear-pole', 'C20', [('dbear.cc', 'const double d_ra = db.get_ra() - da.get_ra();', 'double d_ra = db.get_ra() - da.get_ra();\n    if (d_ra > 3.141592653589793) {\n        d_ra = 6.283185307179586 - d_ra;\n    }')],
    '''int main() { Spherical<double> a{0.1, 0.2}, b{6.2, 0.3}, c{6.2 - 6.283185307179586, 0.3}; if (std::fabs(dbear(a, b) - dbear(a, c)) > 1e-9) BAD("%g %g", dbear(a, b), dbear(a, c)); return 0; }''',
    'right ascensions on either side of 0h', 'the bearing is mirrored east-west')
bug('altaz-acc', 'C15', [('altaz.cc', '(z * sin_phi + (2.0 - r_squared) * p_vel)', '(z * sin_phi + (2.0 - r) * p_vel)'), ('altaz.cc', 'const double p_vel = -x * cos_phi / r_squared;', 'const double p_vel = (x > 0.0)? -x * cos_phi / r_squared: -x * cos_phi / (r * r);')],
    '''int main() { AltazMount p, m, c; Spherical<double> s; const double h = 1e-5; double hs[] = {0.3, 1.1, -2.0}, ds[] = {-0.4, 0.6, 1.2}, phi = 0.5; for (double H : hs) for (double d : ds) { s.set_ha(H + h); s.set_dec(d); altaz(s, phi, p); s.set_ha(H - h); altaz(s, phi, m); s.set_ha(H); altaz(s, phi, c);
    double a = (p.get_az_velocity() - m.get_az_velocity()) / (2 * h); if (std::fabs(a - c.get_az_acceleration()) > 1e-4 * (1 + std::fabs(a))) BAD("%g %g", a, c.get_az_acceleration()); } return 0; }''',
    'an azimuth acceleration away from the tested direction', 'the acceleration is not the derivative of the velocity')
bug('pda2h-side', 'C15', [('pda2h.cc', 'ha2_valid = ha2 * an <= 0.0;', 'ha2_valid = (dn * pn < 0.0)? ha1_valid: ha2 * an <= 0.0;')],
    '''int main() { for (double phi = -1.2; phi < 1.3; phi += 0.3) for (double d = -1.25; d < 1.3; d += 0.17) for (double a = -3.05; a < 3.1; a += 0.31) { double h[2]; bool v[2]; pda2h(phi, d, a, h[0], v[0], h[1], v[1]);
    for (int k = 0; k < 2; k++) if (v[k]) { Spherical<double> s; s.set_ha(h[k]); s.set_dec(d); double az, el; de2h(s, phi, az, el); if (std::fabs(drange(az - a)) > 1e-6) BAD("phi %g dec %g az %g: %g", phi, d, a, az); } } return 0; }''',
    'a source of declination opposite in sign to the latitude', 'a solution at the opposite azimuth is reported as valid')
