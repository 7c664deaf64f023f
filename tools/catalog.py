"""The properties; tools/gen.py writes properties.jsonl and MANIFEST.json from this list."""
P = []
NA = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), note=''):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=['src/' + f for f in files], mechanism=[dict(name=n, where='src/' + w) for n, w in mech])))
    P[-1]['_note'] = note


prop('C01', 'Calendar date to Modified Julian Date is the Gregorian day count',
     'Converting a proleptic Gregorian date (year >= -4699) to Modified Julian Date gives exactly the number of days since 1858 November 17, also for day '
     'numbers outside the month; the variant with two-digit years reads 0-49 as 2000-2049 and 50-99 as 1950-1999. The status is OK exactly when the day exists '
     'in that month, a bad day is reported but still converted, and a bad year or month is reported (naming an offending field) and leaves the output untouched.',
     'every year from -4699 to 200000 (thorough 1400000), month, and day in -400..400; every invalid year/month',
     'the tests try a handful of dates; leap-century and range rules need every year and month', ['cldj.cc', 'caldj.cc'],
     [('calendar conversion', 'cldj.cc'), ('century default', 'caldj.cc')])
prop('C02', 'Modified Julian Date to calendar date inverts the day count',
     'Converting a Modified Julian Date to a calendar date yields an existing date whose day number plus the returned fraction (0 <= fraction < 1) is the argument; the '
     'fixed-precision variant returns the date rounded to the requested number of decimals, with the carry propagated into day, month and year. Dates outside the '
     'supported range are reported and leave the outputs untouched.',
     'every date in the supported range (before 1e9), decimals 0..4', 'tests use three dates; the inverse must hold at every month end, leap day and rounding carry',
     ['djcl.cc', 'djcal.cc'], [('inverse conversion', 'djcl.cc'), ('rounded conversion', 'djcal.cc')])
prop('C03', 'Calendar date to year and day-in-year',
     'Converting a Gregorian date to day-in-year gives the year and the 1-based day count within that year, with the same century default, month-length checks and status rules '
     'as the conversion to Modified Julian Date.',
     'every supported year, month and day', 'tests use a few dates', ['clyd.cc', 'calyd.cc'], [('day in year', 'clyd.cc'), ('century default', 'calyd.cc')])
prop('C04', 'Sexagesimal decomposition is exact rounding with fields in range',
     'Splitting days or radians into hours (or degrees), minutes, seconds and a decimal fraction gives exactly the magnitude rounded to the nearest unit of the requested precision, '
     'with minutes and seconds in 0..59, a fraction of the requested number of digits, carries propagated, and the sign + exactly for non-negative arguments. A negative number of decimals '
     'is treated as zero; valid fields composed into an interval and split again come back unchanged.',
     'arguments to +-40 days or +-250 rad; 0..9 decimals (0..5 single precision) and every negative number of decimals',
     'rounding and carry cases (59.9995...) depend on every argument and precision', ['dd2tf.cc', 'cd2tf.cc', 'dr2tf.cc', 'cr2tf.cc', 'dr2af.cc', 'cr2af.cc'],
     [('field split', 'dd2tf.cc')])
prop('C05', 'Sexagesimal composition and its range statuses',
     'Composing hours or degrees, minutes and seconds gives the corresponding days or radians whether or not the fields are in range. The status is OK exactly when all fields '
     'are in range (hours 0..23 or degrees 0..359, minutes 0..59, seconds 0 <= s < 60), and otherwise names a field that is out of range.',
     'every integer field and seconds value within +-1e8', 'boundary values of three independent fields', ['dtf2d.cc', 'ctf2d.cc', 'dtf2r.cc', 'ctf2r.cc', 'daf2r.cc', 'caf2r.cc'],
     [('validation and conversion', 'dtf2d.cc'), ('validation and conversion', 'daf2r.cc')])
prop('C06', 'TAI-UTC, TT-UTC and ET-UT follow the published tables at every instant',
     'TAI-UTC equals the published leap-second table (with the 1960s rate expressions) at every instant, steps exactly at 0h UTC of the published dates, and TT-UTC exceeds it by 32.184 s. '
     'ET-UT follows the three published parabolas in their periods and is continuous where they meet.',
     'every UTC instant MJD -1e5..1e6, every epoch -3000..4000', 'each of 41 steps has two edges; tests look at a handful', ['dat.cc', 'dtt.cc', 'dt.cc'],
     [('leap-second steps', 'dat.cc'), ('models', 'dt.cc')])
prop('C07', 'Angle normalisation lands in range and preserves the angle',
     'Normalising an angle returns a value in -pi..+pi (for the other variant 0..2pi, where 2 pi itself is excluded up to rounding of tiny negative angles) that differs from the argument by a whole number of turns; angles already inside the range are unchanged.',
     'every angle up to 1e15 in magnitude (single precision: 1e6)', 'tests use one or two angles', ['range.cc', 'drange.cc', 'ranorm.cc', 'dranrm.cc'],
     [('reduction', 'drange.cc'), ('reduction', 'dranrm.cc')])
prop('C08', 'Combination generator enumerates every subset once',
     'From any combination the generator moves to the next one in sequence (the lowest element that can move up does, the ones below restart), always an ascending subset of the candidates; after the last it '
     'restarts with 1..k and says so, an uninitialised list gives 1..k, and illegal arguments are reported leaving the list alone. Hence every subset is produced exactly once per cycle.',
     'every valid list of up to 6 (thorough 9) elements and any number of candidates to 1e9', 'the step must hold from every state of the sequence', ['combn.cc'], [('successor', 'combn.cc')],
     over=('inputs', 'histories'))
prop('C09', 'Permutation generator enumerates every permutation once',
     'From any state the generator advances its state number by one modulo n! and returns a permutation of 1..n that determines the state, so all n! permutations appear once per cycle. The first is n..1, the last is 1..n, '
     'after which "no more" is reported together with the first again; an illegal size is reported and changes nothing.',
     'every state for n up to 5 (thorough 6); first/last for n up to 8', 'the step must hold from every state', ['permut.cc'], [('mixed-radix state', 'permut.cc')], over=('inputs', 'histories'))
prop('C10', 'Observatory lookup by number and by identifier prefix',
     'A non-negative number selects that entry of the published station list (identifier, name, west-positive longitude, latitude, height) regardless of any identifier; a negative number selects the first '
     'station whose identifier starts with the given string. Anything else, including a null identifier, fails and sets the strings to "?" and the numbers to zero.',
     'every number, every identifier byte string of up to 11 bytes', 'the tests look at four stations', ['obs.cc'], [('table and search', 'obs.cc')])
prop('C11', 'Julian and Besselian epochs are the standard linear relations and invert',
     'Epoch conversions follow the standard Julian and Besselian definitions, conversion to a date and back is the identity, and the mixed conversion accepts B, b, J, j in either position: same type returns the epoch as given, '
     'different types convert, and an unrecognised letter gives zero.',
     'every date within +-1e6 days, epoch -1000..4000, every pair of letters', 'tests use a few values and letters', ['epj.cc', 'epb.cc', 'epj2d.cc', 'epb2d.cc', 'epco.cc'], [('conversions', 'epco.cc')])
prop('C12', 'Vector, matrix and spherical/Cartesian primitives obey their algebra',
     'Scalar and vector products, normalisation, matrix-vector and matrix-matrix products (also when an output is one of the inputs) equal their definitions, null vectors included. Conversions between spherical and Cartesian '
     'positions and velocities are exact inverses with longitude in -pi..pi and latitude in -pi/2..pi/2, and zero longitude at the poles; a state with null position takes the direction of its velocity, which is then all radial.',
     'all components, elements and angles in stated boxes, both precisions, every documented aliasing', 'tests use one vector or matrix each and no aliasing',
     ['dvdv.cc', 'dvn.cc', 'dvxv.cc', 'dmxv.cc', 'dimxv.cc', 'dmxm.cc', 'dcs2c.cc', 'dcc2s.cc', 'ds2c6.cc', 'dc62s.cc', 'vdv.cc', 'vn.cc', 'vxv.cc', 'mxv.cc', 'imxv.cc', 'mxm.cc', 'cs2c.cc', 'cc2s.cc', 'cs2c6.cc', 'cc62s.cc'],
     [('products', 'dmxm.cc'), ('coordinate conversion', 'dc62s.cc')])
prop('C13', 'Rotation matrices from axial vectors and Euler angles',
     'An axial vector gives the proper orthogonal matrix that rotates the frame about that axis by its length, the reverse operation recovers axis and angle, and null vectors and matrices map to the unit matrix and the null vector. An Euler-angle '
     'string of axis letters or digits in either case gives the product of the corresponding elementary frame rotations, stopping at three characters or the first unrecognised one.',
     'every axial vector in a box, every string of up to four bytes, all angles', 'tests use one vector and two strings', ['dav2m.cc', 'dm2av.cc', 'deuler.cc', 'av2m.cc', 'm2av.cc', 'euler.cc'],
     [('Rodrigues formula', 'dav2m.cc'), ('axis string', 'deuler.cc')])
prop('C20', 'Angular separations and position angles',
     'The separation of two directions (unit or not, spherical or Cartesian) is the angle in 0..pi between them, symmetric, zero for null vectors and accurate for small angles. The position angle of one direction seen from another has the east and north components '
     'of the second direction, lies in -pi..pi, and is zero for coincident points.',
     'every pair of directions in stated boxes, both precisions', 'tests use a single pair', ['dsep.cc', 'dsepv.cc', 'dbear.cc', 'dpav.cc', 'sep.cc', 'sepv.cc', 'bear.cc', 'pav.cc'],
     [('cross and dot product', 'dsepv.cc'), ('tangential components', 'dpav.cc')])
prop('C15', 'Horizon coordinates, zenith distance, parallactic angle and mount rates',
     'Conversion between hour angle/declination and azimuth/elevation is the rotation by the latitude, with azimuth in 0..2pi, hour angle in -pi..pi and elevation and declination in -pi/2..pi/2, and the two directions undo each other. Zenith distance lies in 0..pi. The mount '
     'routine returns the same angles plus the parallactic angle, and its velocities and accelerations are the first and second derivatives with respect to hour angle. Every hour angle reported as valid for a given azimuth or parallactic angle has that azimuth or parallactic angle.',
     'all hour angles, declinations, latitudes in +-7 rad off the zenith; inverse problems at least 1e-3 rad off their critical values', 'tests use one or two directions',
     ['e2h.cc', 'de2h.cc', 'h2e.cc', 'dh2e.cc', 'zd.cc', 'pa.cc', 'altaz.cc', 'pda2h.cc', 'pdq2h.cc'], [('rotation', 'de2h.cc'), ('rates', 'altaz.cc'), ('inverse problems', 'pda2h.cc')])
prop('C17', 'Tangent-plane projection, deprojection and tangent-point recovery',
     'Projecting a star onto the plane tangent at a point gives its gnomonic coordinates and a status that tells whether the star is in the hemisphere, on its edge, or behind; deprojection gives the star with right ascension in 0..2pi and declination in -pi/2..pi/2, and undoes projection. '
     'Recovering the tangent point from a star and its plane coordinates returns no solution exactly when none exists, otherwise points from which the star projects to those coordinates, and how many are useful. Spherical and Cartesian forms agree, at the poles too.',
     'stars and tangent points everywhere, plane coordinates up to 5 (recovery: 1.5), both precisions', 'tests use one star', ['s2tp.cc', 'ds2tp.cc', 'v2tp.cc', 'dv2tp.cc', 'tp2s.cc', 'dtp2s.cc', 'tp2v.cc', 'dtp2v.cc', 'tps2c.cc', 'dtps2c.cc', 'tpv2c.cc', 'dtpv2c.cc'],
     [('projection', 'ds2tp.cc'), ('deprojection', 'dtp2s.cc'), ('tangent point', 'dtps2c.cc')])
prop('C14', 'Precession, nutation and ecliptic matrices',
     'The precession matrices are the rotations given by the published IAU 1976 (FK5), Bessel-Newcomb (FK4) and long-term (Simon et al. 1994) Euler angles between any two epochs, orthogonal, and the unit matrix for equal epochs; the ecliptic matrix is the rotation by the mean obliquity; '
     'the nutation matrix is the rotation built from the nutation components, and the combined matrix is nutation times precession. Precessing a position applies the matrix of the chosen system with right ascension in 0..2pi; an unsupported system gives -99, -99.',
     'epochs 1000..3000 (long-term model -5000..7000), MJD -1e5..1.5e5, all directions off the poles', 'tests look at one pair of epochs and one date', ['prec.cc', 'prebn.cc', 'precl.cc', 'preces.cc', 'ecmat.cc', 'nut.cc', 'prenut.cc'],
     [('Euler angle series', 'prec.cc'), ('combined matrix', 'prenut.cc'), ('position', 'preces.cc')])
prop('C16', 'Galactic, supergalactic, ecliptic and FK4 E-term transformations',
     'Conversions between equatorial, galactic, supergalactic and ecliptic coordinates are the published fixed (or date-dependent) rotations, each the inverse of its partner, with longitude in 0..2pi and latitude in -pi/2..pi/2. The E-terms of aberration follow the published expressions at any epoch; '
     'adding them displaces a direction by the E-term vector, removing them is the published first-order inverse, and the FK4 galactic conversions combine them with the rotation.',
     'all directions off the poles, MJD -5e4..1e5, Besselian epochs 1700..2200', 'tests use one direction each', ['eqgal.cc', 'galeq.cc', 'galsup.cc', 'supgal.cc', 'eg50.cc', 'ge50.cc', 'eqecl.cc', 'ecleq.cc', 'etrms.cc', 'addet.cc', 'subet.cc'],
     [('galactic rotation', 'eqgal.cc'), ('E-terms', 'etrms.cc'), ('ecliptic', 'eqecl.cc')])
prop('C18', 'Linear plate models: fit, prediction, inversion and decomposition',
     'Applying a six-coefficient model, inverting it (composition with the inverse is the identity; a singular model is reported and leaves the output alone) and decomposing it into zero points, scales, non-perpendicularity and orientation (the documented four steps rebuild the model) are exact. '
     'A fit satisfies the normal equations of least squares; the solid-body fit has the right form and picks the handedness with the smaller residual (no reversal for two samples). Too few samples leave the model untouched, coincident samples give "no fit". Prediction returns the transformed positions and the RMS values.',
     'all coefficients in +-10; fits of 2..5 samples with every expected position; prediction with up to 3 (thorough 4) samples', 'tests use one sample set', ['fitxy.cc', 'pxy.cc', 'invf.cc', 'xy2xy.cc', 'dcmpf.cc'],
     [('least squares', 'fitxy.cc'), ('inverse', 'invf.cc'), ('decomposition', 'dcmpf.cc')])
prop('C19', 'Matrix inversion, SVD solution and covariance',
     'Inverting a non-singular matrix yields its inverse, its determinant and the solution of the linear equations whatever row exchanges are needed, in both precisions; a matrix with a null row or column, or with one row or column a multiple of the other, is reported singular with zero determinant, and one whose determinant is too small is either refused in the same way or solved correctly. Given a decomposition, the least-squares solution and the covariance matrix '
     'follow the standard formulas with null singular values dropped, respecting logical and physical array sizes and leaving inputs and the unused part alone. The decomposition of a single column, or of two columns with one non-zero element each, reproduces the matrix with orthogonal factors and non-negative singular values, and fewer rows than columns is reported.',
     'every matrix up to 3x3 (and two row orders of 4x4, thorough all) with pivots 0.1..10; decompositions up to 3x3 in stated layouts', 'tests use one matrix', ['dmat.cc', 'smat.cc', 'svd.cc', 'svdsol.cc', 'svdcov.cc'],
     [('elimination with pivoting', 'dmat.cc'), ('solution', 'svdsol.cc'), ('covariance', 'svdcov.cc')])
prop('C21', 'Air mass and atmospheric refraction models',
     'Air mass is the published polynomial in sec z - 1, even in z and constant beyond 87 degrees. Refraction of a zenith distance or a direction by two constants follows the published Newton steps, with the empirical curve beyond 83 degrees and a constant amount beyond 93 degrees (about 3 degrees elevation for directions, whose azimuth is kept); '
     'the constants from weather follow the published formulas, optical and radio, with every argument limited to its documented range, and change with wavelength by refractivity. The two-point constants reproduce the ray-traced refraction at tan z = 1 and 4; ray tracing limits its arguments, is odd in zenith distance and constant beyond 93 degrees, and gives nothing in vacuum.',
     'zenith distances to 10 rad, refraction constants to 1e-3 and -1e-6, weather in stated boxes and everything beyond the documented limits', 'tests use one atmosphere', ['airmas.cc', 'refz.cc', 'refv.cc', 'refcoq.cc', 'refco.cc', 'atmdsp.cc', 'refro.cc'],
     [('Newton steps', 'refz.cc'), ('quick constants', 'refcoq.cc'), ('argument limits', 'refro.cc')], note='The adaptive quadrature inside the ray tracing is executed only for concrete conditions.')
prop('C22', 'Sidereal time, nutation, equation of the equinoxes and TDB-TT',
     'Greenwich mean sidereal time is the IAU 1982 expression, in 0..2pi, also with the date in two parts given in either order. The nutation in longitude and obliquity and the mean obliquity are the published series (Shirai & Fukushima 2001; IAU 1980), term for term at every date; the equation of the equinoxes is the nutation projected on the equator plus the complementary terms. '
     'TDB-TT is the published series of Fairhead & Bretagnon plus planetary-mass adjustments plus the topocentric terms for the observer.',
     'every MJD in -1e5..1.5e5, every observer', 'tests use one date; a wrong coefficient in one of the hundreds of small terms is invisible there', ['gmst.cc', 'gmsta.cc', 'eqeqx.cc', 'nutc.cc', 'nutc80.cc', 'rcc.cc'],
     [('nutation series', 'nutc.cc'), ('IAU 1980 series', 'nutc80.cc'), ('TDB-TT series', 'rcc.cc')], note='Range reduction inside the 1980 series is used by its contract, which C07 decides.')
prop('C23', 'Earth and Moon ephemerides follow their published theories',
     'Earth position and velocity, heliocentric and barycentric, are the published simplified VSOP2000 series (and the Stumpff theory in the faster routine, precessed to the requested equinox, if any); the Moon follows the published series in both precisions; the low-precision Earth is the published Kepler motion plus lunar offset, for every year including leap and negative years. '
     'Velocities are those of the same theories. The Earth-motion correction is the projection of that motion on the star.',
     'every MJD in -1e5..1.5e5 (Stumpff: -30000..90000); low precision: every year -4800..3003, day 1..366, fraction', 'tests use one date each', ['epv.cc', 'evp.cc', 'earth.cc', 'moon.cc', 'dmoon.cc', 'ecor.cc'],
     [('VSOP2000 sums', 'epv.cc'), ('lunar series', 'dmoon.cc'), ('year and day count', 'earth.cc')])
prop('C24', 'Observer position, velocity corrections, space motion and polar motion',
     'The geocentric position of a site is that of the point on the reference spheroid at its geodetic latitude and height, and the observer position and velocity are that point turned by sidereal time and its rate. The diurnal, solar-motion (two standards) and galactic velocity components are the published vectors projected on the direction. '
     'Space motion between epochs, with parallax and radial velocity, follows straight-line motion with right ascension in 0..2pi; zero elapsed time changes nothing. Polar motion is the rigorous rotation of the site, the azimuth correction is that of the terrestrial pole, and both are finite everywhere, on the pole too.',
     'all directions, latitudes, heights, proper motions in stated boxes', 'tests use one site or star', ['geoc.cc', 'pvobs.cc', 'rverot.cc', 'rvgalc.cc', 'rvlg.cc', 'rvlsrd.cc', 'rvlsrk.cc', 'pm.cc', 'polmo.cc'],
     [('spheroid', 'geoc.cc'), ('space motion', 'pm.cc'), ('polar motion', 'polmo.cc')])
prop('C25', 'Pincushion and barrel distortion and its removal',
     'Distortion moves a tangent-plane point radially by the factor 1 + c R^2. Removing it is the exact inverse for pincushion (c > 0) and barrel (c < 0) coefficients: applying the distortion to the result gives the point back; where three undistorted points are possible the one that moves the point least is returned. '
     'Without distortion, or at the centre, nothing changes.',
     'every direction, radii to 5, coefficients from the stated families (all c > 0 and c < 0 that arise from the boxes)', 'tests use one point and one positive coefficient', ['pcd.cc', 'unpcd.cc'],
     [('factor', 'pcd.cc'), ('cubic, one and three real roots', 'unpcd.cc')])
prop('C26', 'Pseudo-random numbers and normal deviates',
     'Uniform numbers lie in [0,1) whatever the seed and however many have been drawn; the seed counts at the first call only, and the same seed gives the same sequence, that of the minimal standard generator started from the leading six or seven digits of |seed| + 1, made odd. Normal deviates come in Box-Muller pairs of the next point drawn inside the unit circle, each scaled by the standard deviation of its own call, and the sequence from process start is fixed.',
     'seeds of any size, every generator state (hence every history)', 'tests draw a few numbers from one seed', ['random.cc', 'gresid.cc'], [('seeding and range', 'random.cc'), ('pairs', 'gresid.cc')])
prop('C27', 'Library version and waiting',
     'The version number is M*1000000 + N*1000 + R and the version text is "M.N-R" for the same M, N, R. Waiting sleeps for the nearest whole number of seconds to the argument, returns at once when that is not positive, and sleeps for the remainder when a signal interrupts it.',
     'durations -2e4..2e6 s, one interruption at any point', 'tests do not call the waiting routine', ['veri.cc', 'vers.cc', 'wait.cc'], [('number', 'veri.cc'), ('text', 'vers.cc'), ('sleep', 'wait.cc')])
