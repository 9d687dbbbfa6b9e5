"""The properties: statement, which contracts decide each one, assumed contracts, options, evidence text."""
from irvc.exec import nothing

PROPS = {}
NOT_APPLICABLE = {}
NOTES = 'See DESIGN.md. Every check rebuilds the harness against /repo, regenerates the bitcode of /repo and its dependencies and discharges all obligations.'

TRUSTED = [
    'rustc 1.99 and LLVM 18-style optimisation-free lowering of the crate to bitcode (the verified text is that bitcode, regenerated from /repo on every run)',
    'the irvc verification-condition generator and its normaliser/interval provers (/verif/irvc), z3 and cvc5',
    'f64 arithmetic treated as exact real arithmetic; each numeric obligation carries a tolerance that absorbs the rounding it ignores',
    'libm elementary functions (sin, cos, tan, asin, acos, atan2, exp, ln, sqrt, ...) treated as their mathematical counterparts',
]


def get(pid):
    c = dict(PROPS[pid])
    c['id'] = pid
    c.setdefault('contracts', 'vc_%s_' % pid.lower())
    return c


def evidence(pid, cfg, tier, r):
    import os
    assumed = ['%s is replaced by its assumed contract' % s for s in r['stubbed']]
    return {
        'property': pid,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': cfg.get('level', 'proof'),
        'coverage': {
            'obligations': r['obligations'],
            'discharged': r['discharged'],
            'checker_cmd': 'cd /verif && python3 -m irvc.check %s --tier %s' % (pid, tier),
            'trusted_base': TRUSTED + assumed,
            'functions_under_contract': r['functions'],
            'functions_interpreted_in_total': r['all_functions'],
            'contracts': r['contracts'],
            'discharged_by_back_end': r['backends'],
            'solver_seconds': round(r['solver_time'], 2),
            'path_feasibility_queries': r['feasibility_queries'],
            'path_feasibility_seconds': round(r['feasibility_time'], 2),
            'build_seconds': r['build'],
            'known_findings_hit': r['known'],
            'obligations_of_known_findings': r['known_obligations'],
            'undischarged': r['failures'],
        },
        'assumptions': cfg.get('assumptions', []) + assumed + r['notes'],
        'wall_s': round(r['wall'], 2),
        'violations': 1 if r['status'] == 'violated' else 0,
    }

# assumed contracts of the time-scale tables and the nutation series (harness/src/assumed.rs)
TIME = dict(redirects=[
    (r'Time<.*TT.*>>::to_with::<.*UT1>$', 'ax_tt_to_ut1'),
    (r'TimeContext>::ut1_minus_utc$', 'ax_ut1_minus_utc'),
    (r'^tempoch_core::earth::eop::builtin_eop_at$', 'ax_builtin_eop_at'),
    (r'as siderust::astro::nutation::NutationModel>::nutation$', 'ax_nutation'),
], stubs=[
    (r'TimeContext>::(new|with_builtin_eop)$', nothing),
    (r'drop_glue::<.*TimeContext>$', nothing),
])
CIP = dict(redirects=[(r'^siderust::astro::cio::cip_xy$', 'ax_cip_xy')])

SITEROT = dict(redirects=[(r'::itrs_to_equatorial_mean_j2000_rotation::', 'ax_site_rotation')])
PRECROT = dict(redirects=[(r'^siderust::astro::precession::precession_matrix_iau2006$', 'ax_precession_matrix')])
CIRSROT = dict(redirects=[(r'^siderust::astro::cio::gcrs_to_cirs_matrix$', 'ax_cirs_matrix'), (r'^siderust::astro::polar_motion::polar_motion_matrix_from_eop$', 'ax_polar_motion')])
GST = dict(redirects=[(r'^siderust::astro::sidereal::gast_iau2006$', 'ax_gast'), (r'^siderust::astro::sidereal::gmst_iau2006$', 'ax_gmst')])

FWNUT = dict(redirects=[(r'as siderust::astro::nutation::NutationModel>::nutation$', 'ax_nutation_iau2006')])

SERIES = dict(redirects=[(r'bodies::solar_system::%s>::vsop87e$' % n, 'ax_' + n.lower())
                         for n in ('Sun', 'Earth', 'Mercury', 'Venus', 'Mars', 'Jupiter', 'Saturn', 'Uranus', 'Neptune')]
              + [(r'KeplerianOrbit>::kepler_position$', 'ax_kepler_position'), (r'KeplerianOrbit>::position_with_mu$', 'ax_position_with_mu')])

VEL = dict(redirects=[(r'bodies::solar_system::Earth>::vsop87e_vel$', 'ax_earth_velocity')])

ABERR = dict(redirects=[(r'aberration::apply_aberration_to_direction_with_velocity$', 'ax_aberrate'), (r'aberration::remove_aberration_from_direction_with_velocity$', 'ax_unaberrate')])


def merge(*ds, **kw):
    out = {}
    for d in ds + (kw,):
        for k, v in d.items():
            out[k] = out[k] + v if k in ('redirects', 'stubs', 'per') and k in out else v
    return out


DOMAIN = 'dates 1900-2100 TT'

PROPS['P01'] = dict(
    title='Azimuth convention conversion preserves the compass bearing',
    statement='Converting an azimuth between any two horizontal conventions (origin North/East/South/West, clockwise or counter-clockwise) '
              'yields an azimuth in [0,360] degrees that names exactly the same compass bearing under the target convention; converting back '
              'returns the original bearing, whatever the input angle. Directions and positions converted the same way keep altitude, distance and site, and the '
              'north/south and sense flips are the matching special cases.',
    over=['inputs', 'configurations'], quantifier='every real azimuth, every ordered pair of the 8 conventions',
    why='The tests convert a few sample azimuths for a few convention pairs; the claim is for all angles (including negative and many-turn ones) and all 64 pairs.',
    files=['src/coordinates/horizontal.rs'],
    mechanism=[('convert_azimuth', 'src/coordinates/horizontal.rs')],
    assumptions=['azimuth inputs range over |az| <= 1e5 degrees'],
    note='All inputs in the stated range, all 64 convention pairs; reals for f64, tolerance 1e-8.')

PROPS['P02'] = dict(
    TIME, per=[(r'earth|cirs|tirs|itrf|ecef', CIP), (r'true_of_date_loop', FWNUT)],
    title='Frame rotations are proper, invertible and compose consistently',
    statement='For every supported ordered pair of reference frames and every date, the rotation is a proper orthogonal matrix (length- and '
              'handedness-preserving) and the rotation of the reversed pair is exactly its inverse. Going directly between two frames equals going '
              'through the intermediate frame that connects them, so every path through the frame graph gives the same vector (between the mean and true frames of date: '
              'up to the celestial-pole offsets dX, dY, which enter only the rotations to and from ICRS).',
    over=['inputs', 'configurations'], quantifier='all frame pairs with a rotation provider, all dates 1900-2100, all Earth-orientation and nutation values',
    why='Tests sample a handful of dates and pairs with loose tolerances; a wrong sign, swapped factor or missed transpose in one of ~100 provider pairs is invisible to them.',
    files=['src/coordinates/transform/providers/mod.rs', 'src/coordinates/transform/providers/frames_inertial.rs', 'src/coordinates/transform/providers/frames_earth.rs',
           'src/coordinates/transform/providers/frames_planetary.rs', 'src/astro/precession.rs', 'src/astro/cio.rs', 'src/astro/polar_motion.rs'],
    mechanism=[('FrameRotationProvider impls', 'src/coordinates/transform/providers'), ('impl_via_icrs_bidirectional', 'src/coordinates/transform/providers')],
    assumptions=[DOMAIN, 'nutation angles below 41 arcsec, obliquity 22.3-24.1 deg, CIP offsets below 10 arcsec'],
    note='Every obligation is discharged on the interpreted bitcode of the providers; time-scale tables and the nutation series are replaced by arbitrary bounded functions of the date.')

PROPS['P03'] = merge(TIME, SERIES,
    title='Center shifts are exact vector differences of body positions',
    statement='Changing the reference center of a position adds exactly the vector from the new center to the old one (taken from the ephemeris in use, '
              'rotated into the frame and unit of the position), for every pair of supported centers; same-center shifts are zero, the reversed shift is the '
              'opposite, and shifts through a third center add up. Changing center then frame equals frame then center, and moving to a body-centred system '
              '(orbit around barycenter, Sun or Earth) subtracts that body\'s position and is undone by moving back.',
    over=['inputs', 'configurations'], quantifier='all center pairs, all ephemerides (positions are arbitrary functions of the date), all vectors, units au/km/m, dates 1900-2100',
    why='Tests compare a few positions at J2000 with one ephemeris; a swapped operand, a wrong body or a missing unit conversion in one of the macro-generated pairs stays unseen.',
    files=['src/coordinates/transform/providers/centers_standard.rs', 'src/coordinates/transform/providers/centers_planetary.rs',
           'src/coordinates/transform/centers/mod.rs', 'src/coordinates/transform/centers/position/to_bodycentric.rs', 'src/coordinates/transform/ext.rs'],
    mechanism=[('CenterShiftProvider impls', 'src/coordinates/transform/providers'), ('TransformCenter::to_center_as', 'src/coordinates/transform/centers/mod.rs')],
    assumptions=[DOMAIN, 'planetary series and Kepler propagation are arbitrary functions of the date'],
    note='All obligations discharged for arbitrary ephemeris values; the VSOP87 series, the Moon position and orbit propagation are uninterpreted.')

PROPS['P04'] = dict(
    TIME, per=[(r'cirs_rotation', CIP)],
    title='Earth and planet orientation follows the published definitions',
    statement='The rotations equal their defining standards at every date: frame bias, IAU 2006 precession angles and matrices, nutation (with celestial-pole offsets on the ICRS side), '
              'Earth rotation angle and sidereal time in [0, 2pi), polar motion with s\', CIP coordinates and CIO locator, ecliptic and galactic axes, TEME, and the '
              'pole and prime meridian of each body-fixed frame from its right ascension, declination and W. Rotations are passive with the standard\'s signs.',
    over=['inputs', 'configurations'], quantifier='all dates 1900-2100, all nutation angles and Earth-orientation values in their physical range',
    why='Reference-value tests cover one or two epochs with one orientation table; a wrong coefficient in a high-order term, a sign that cancels at the sampled date, or an '
        'orientation parameter that is ignored passes them.',
    files=['src/astro/precession.rs', 'src/astro/era.rs', 'src/astro/sidereal.rs', 'src/astro/cio.rs', 'src/astro/polar_motion.rs', 'src/bodies/solar_system.rs',
           'src/coordinates/transform/providers/mod.rs', 'src/coordinates/transform/providers/frames_inertial.rs', 'src/coordinates/transform/providers/frames_planetary.rs'],
    mechanism=[('precession_fw_angles, fw_matrix', 'src/astro/precession.rs'), ('earth_rotation_angle_parts', 'src/astro/era.rs'), ('gcrs_to_cirs_matrix', 'src/astro/cio.rs')],
    assumptions=[DOMAIN, 'nutation angles below 41 arcsec, |dX|,|dY| <= 10 arcsec, |xp|,|yp| <= 1 arcsec'],
    note='Compared with matrices rebuilt from elementary rotations; the nutation and VSOP series themselves are uninterpreted.')

PROPS['P05'] = dict(
    TIME, per=[(r'parallax|site', CIP), (r'horizontal|positions', GST), (r'site_linear|parallax|site_frames', SITEROT), (r'site_chain', CIRSROT), (r'ecliptic_of_date_|icrs_of_ecl', PRECROT)],
    title='The observer sees the sky from where the site is',
    statement='Changing a position from geocentric to topocentric subtracts one and the same site vector (the WGS84 position of the observer turned into the frame) whatever the target, '
              'and going back restores the position. Horizontal coordinates of a direction or position are its components along the site\'s local North, East and Up at the local sidereal time '
              '(apparent for true-of-date, mean for mean-of-date), azimuth running from North through East, and the inverse puts them back together; distance and site are kept. '
              'Ecliptic-of-date conversions are the precession rotations and their inverses.',
    over=['inputs', 'configurations'], quantifier='all sites (poles included), directions, distances, dates and Earth-orientation values',
    why='The tests check one site and one direction against a reference; a swapped sign in one hemisphere, a formula that breaks at the poles or a route that mirrors the azimuth passes them.',
    files=['src/coordinates/transform/centers/position/to_topocentric.rs', 'src/coordinates/transform/horizontal.rs', 'src/coordinates/transform/frames/to_horizontal.rs',
           'src/coordinates/transform/ecliptic_of_date.rs', 'src/astro/earth_rotation_provider.rs', 'src/astro/earth_rotation.rs'],
    mechanism=[('to_topocentric_with_ctx', 'src/coordinates/transform/centers/position/to_topocentric.rs'), ('ToHorizontal / FromHorizontal', 'src/coordinates/transform/horizontal.rs')],
    assumptions=[DOMAIN, 'site height -500..9000 m, latitudes of directions within +-1.57 rad'],
    note='All obligations discharged for arbitrary sidereal time, sites and directions.')

PROPS['P06'] = merge(TIME, VEL, SITEROT, per=[(r'annual|wrappers', ABERR), (r'deflection_(bodies|total|inverse)', dict(redirects=[(r'light_deflection::body_deflection::', 'ax_body_deflection')]))],
    title='Apparent directions follow relativity and straight-line star motion',
    statement='Aberration is the exact special-relativistic (Lorentz) transformation of a unit direction by the observer velocity: it keeps unit length and position distances, is undone by removal with the '
              'same velocity, and uses the barycentric velocity of the Earth, to which a ground observer adds the Earth-rotation velocity of the site. Light deflection bends a ray away from the Sun, Jupiter and Saturn by '
              '(rs/R) cot(elongation/2). Proper motion moves a star linearly in angle (catalogue rates divided by cos dec), space motion along a straight line at constant velocity from parallax and radial velocity, '
              'and undefined cases (pole, non-positive parallax) are refused.',
    over=['inputs'], quantifier='all directions, observer velocities up to 0.29 c, deflecting bodies, sites, stars and dates 1900-2100',
    why='Tests check sizes of a few shifts at one date; a first-order formula, a lost gamma factor, a wrong sign of one component or an epoch mixed up passes them.',
    files=['src/astro/aberration.rs', 'src/astro/light_deflection.rs', 'src/astro/proper_motion.rs', 'src/coordinates/observation/observer_state.rs', 'src/coordinates/observation/observational_direction.rs'],
    mechanism=[('aberrate_direction_lorentz', 'src/astro/aberration.rs'), ('body_deflection', 'src/astro/light_deflection.rs'), ('propagate_space_motion', 'src/astro/proper_motion.rs')],
    assumptions=[DOMAIN, 'observer speed below 0.29 c, source not exactly behind the deflecting body, declinations within 89 deg for catalogue rates'],
    note='The Earth velocity series and the site rotation are arbitrary functions of the date.')
PROPS['P07'] = merge(dict(redirects=[(r'^keplerian::anomaly::eccentric_from_mean$', 'ax_eccentric'), (r'^keplerian::anomaly::hyperbolic_from_mean$', 'ax_hyperbolic')]),
    title='Orbit propagation is exact two-body motion on the given conic',
    statement='Every heliocentric orbit (Keplerian, prepared, mean-motion, periapsis-distance conic) is propagated to the point of its ellipse or hyperbola, oriented by node, inclination and argument of periapsis, whose mean '
              'anomaly is M0 + n (t - t0), where n follows Kepler\'s third law with the Gaussian constant, the given gravitational parameter, or the given mean motion. Validated constructors accept exactly the finite, '
              'non-degenerate elements of their kind and name what is wrong; parabolas are refused at propagation.',
    over=['inputs'], quantifier='all elements with e in [0, 0.99] or [1.0001, 10], sizes 0.05-100 au, all orientations, all epochs and dates 1900-2100; all finite or non-finite constructor arguments',
    why='Tests propagate a few planets near J2000 and low eccentricity; a half-angle, degree/radian, sign or exponent error that vanishes at small e, i or dt escapes them.',
    files=['src/astro/conic_equations.rs', 'src/astro/orbit.rs', 'src/astro/conic.rs', 'src/astro/units.rs'],
    mechanism=[('calculate_conic_position', 'src/astro/conic_equations.rs'), ('PreparedOrbit::from_validated', 'src/astro/orbit.rs'), ('elliptic_geometry_from_sma', 'src/astro/conic.rs')],
    assumptions=[DOMAIN, 'the solver of Kepler\'s equation (crate keplerian) returns a solution or an error', 'inclinations within 0..180 deg, node and periapsis within 0..360 deg'],
    note='The solver is an arbitrary function; the contracts check what it is asked and that its answer is placed on the conic.')

PROPS['P08'] = merge(dict(redirects=[(r'^siderust::event::search::scan_fallback::brent_f64', 'ax_brent_f64'), (r'^siderust::event::search::root_finding::brent_core', 'ax_brent'),
                                     (r'^cheby::approx::fit::fit_dyn_from_fn', 'ax_fit'), (r'ChebySeriesDyn<.*>::roots_with$', 'ax_fit_zeros'), (r'sun_azimuth_rad$', 'ax_signal_azimuth')]),
    title='Event searches report exactly what the signal does',
    statement='For a signal that passes its threshold at most once between consecutive scan samples, altitude and azimuth searches report each crossing once, in time order, inside the window, with the direction the signal has there; above, below, '
              'in-range and out-of-range periods are ordered, disjoint, inside the window, and contain an instant (crossings aside) exactly if the signal satisfies the condition there. This includes signals that meet the threshold '
              'exactly on a scan sample or at the window\'s ends; passing the opposite bearing is not a bearing crossing. Each culmination at least a scan step inside the window is reported once, of the right kind, within the requested tolerance.',
    over=['inputs'], quantifier='all windows of four scan steps (the last possibly shorter), every pattern of crossings over them, every instant of each crossing inside its scan step, every instant of the window as witness',
    why='Tests search for a few sunrises; parity errors appear only for certain numbers of crossings, window alignments or samples that hit the threshold exactly.',
    files=['src/event/altitude/events.rs', 'src/event/azimuth/events.rs', 'src/event/search/crossings.rs', 'src/event/search/scan_fallback.rs', 'src/event/search/intervals.rs', 'src/event/search/periods.rs', 'src/event/search/extrema.rs'],
    mechanism=[('find_labelled_crossings', 'src/event/search/crossings.rs'), ('scan_labelled_crossings', 'src/event/search/scan_fallback.rs'), ('find_crossings', 'src/event/search/intervals.rs'), ('azimuth_crossings', 'src/event/azimuth/events.rs')],
    assumptions=['windows of four scan steps (the searches treat each step alike: bounded)', 'root refinement returns the zero in its bracket (Brent, assumed)', 'a Chebyshev fit fails or has the signal\'s zeros to within ten minutes', 'culminations: bounded to a tolerance of 0.4 scan steps'],
    note='The signal is an arbitrary step pattern with symbolic crossing instants.')

FORMAT = dict(redirects=[(r'^alloc::fmt::format$', 'ax_format'), (r'^alloc::fmt::format::', 'ax_format')])
FIELD = dict(redirects=[(r'^principia::gravity::spherical_harmonic_acceleration_raw_km', 'ax_harmonics')])
SHADOW = dict(redirects=[(r'Cylindrical as .*EclipseModel>::eclipse_factor', 'ax_cylinder'), (r'Conical as .*EclipseModel>::eclipse_factor', 'ax_cone')])
BODIES = dict(redirects=[(r'SunPerturbation as .*position_relative_to_origin', 'ax_sun_place'), (r'MoonPerturbation as .*position_relative_to_origin', 'ax_moon_place')])
PROPS['P09'] = merge(FORMAT, per=[(r'drag$', dict(redirects=[(r'density::geodetic_altitude$', 'ax_altitude')])), (r'geopotential', FIELD), (r'_srp', SHADOW), (r'body_sum', BODIES)],
    title='Force models follow their physical laws',
    statement='Each built-in acceleration equals its law for every state: drag opposes the motion relative to the co-rotating air with the density at the WGS84 height; radiation pressure pushes away from the Sun by the inverse square times the '
              'lit fraction of the shadow model (none, cylinder, overlapping discs); third bodies pull with the direct minus the indirect term, summed over bodies; the geopotential is evaluated in axes turned by the Earth rotation angle and turned '
              'back; relativity is the Schwarzschild term; empirical terms (constant or once/twice per revolution) act along radial, transverse and normal. Densities follow their profiles, thrust and propellant the rocket equation, '
              'composite models are sums, and missing providers, states below ground or without an orbit plane and unphysical parameters are refused.',
    over=['inputs', 'configurations'], quantifier='all positions up to 50000 km per axis, velocities to 12 km/s, epochs, coefficients, densities and ephemerides (arbitrary functions), every shadow geometry',
    why='Tests use one equatorial state and check order of magnitude or sign of one component; a swapped axis, a wrong unit factor, an indirect term lost or a shadow branch at an unusual geometry passes.',
    files=['src/astro/dynamics/forces/drag.rs', 'src/astro/dynamics/forces/srp.rs', 'src/astro/dynamics/forces/third_body.rs', 'src/astro/dynamics/forces/empirical.rs', 'src/astro/dynamics/forces/geopotential.rs',
           'src/astro/dynamics/forces/relativity.rs', 'src/astro/dynamics/density.rs', 'src/astro/dynamics/state.rs', 'src/pod/force/empirical_periodic.rs', 'src/pod/force/thrust.rs', 'src/pod/force/low_thrust.rs'],
    mechanism=[('AccelerationModel impls', 'src/astro/dynamics/forces'), ('geodetic_altitude', 'src/astro/dynamics/density.rs'), ('LowThrustLog::append', 'src/pod/force/low_thrust.rs')],
    assumptions=[DOMAIN, 'the spherical-harmonic kernel (crate principia) is an arbitrary function except for the zonal field', 'geodetic altitude decided on the equator, the poles and the ellipsoid'],
    note='The tesseral kernel is a dependency; the contract fixes what it is asked and how its answer is used.')
PROPS['P10'] = merge(per=[(r'_eclipse$', dict(redirects=[(r'geometry::occultation::occultation_fraction', 'ax_occultation')]))],
    title='Mission geometry: look angles, obstruction, shadows, orbit angles and masks',
    statement='Azimuth (north through east), elevation, range, range rate and light time of a target are those of the line of sight in the local east-north-up axes. A line of sight is obstructed exactly if its segment meets the ball; '
              'the hidden fraction of a body is the overlap of the two apparent discs, each of angular radius asin(R/d), and light, penumbra and umbra follow from it. Beta is the signed height of the Sun above the orbit plane; local solar time '
              'and LTAN are noon under the Sun, later to the east, within the day; a terrain mask is linear between circularly neighbouring azimuth samples given in any order and turn; field-of-view tests are inclusive.',
    over=['inputs'], quantifier='all sites, lines of sight, segments, ball radii, disc pairs, orbits, Sun directions and longitudes; masks of up to three samples',
    why='Tests look at the zenith or along an axis; a swapped axis, a wrong quadrant, a segment ending inside the ball, a wrap of the mask at north or a tangent-plane radius shows elsewhere.',
    files=['src/mission/geometry/az_el_range.rs', 'src/mission/geometry/local_frame.rs', 'src/mission/geometry/occultation.rs', 'src/mission/geometry/eclipse.rs', 'src/mission/geometry/orbit_relative.rs',
           'src/mission/geometry/terrain_mask.rs', 'src/mission/geometry/fov.rs', 'src/mission/site.rs'],
    mechanism=[('azimuth_elevation_range', 'src/mission/geometry/az_el_range.rs'), ('line_of_sight_obstructed', 'src/mission/geometry/occultation.rs'), ('TerrainMask', 'src/mission/geometry/terrain_mask.rs')],
    assumptions=[DOMAIN, 'terrain masks of one to three samples (bounded)', 'the hiding body is nearer than the hidden one'],
    note='Geometry is parametrised by angles and distances, so every configuration is covered.')

FAER = dict(redirects=[(r'^faer::linalg::matmul::matmul_imp', 'ax_matmul'), (r'^<faer::linalg::solvers::Llt<f64>>::new\b(?!_)', 'ax_llt'), (r'Llt<.*> as .*solve_in_place_with_conj', 'ax_llt_solve')])
PROPS['P11'] = merge(FORMAT, FAER, per=[(r'_transition', dict(redirects=[(r'^principia::variational::propagate_stm', 'ax_stm')])), (r'rk4_steps', dict(redirects=[(r'^principia::integrators::rk4::rk4_propagate', 'ax_rk4')]))],
    title='Orbit estimation is exact linear least squares and Kalman filtering',
    statement='Each accepted observation row adds h hT / sigma^2, h r / sigma^2 and (r / sigma)^2 to the normal equations; a rejected row (index, sigma or number out of range) changes nothing. Solving gives the update and inverse of the '
              'symmetric normal matrix or refuses one that is not positive definite; Gauss-Newton re-linearises at the improved parameters and reports convergence exactly when step and chi-square have settled. The filter carries covariance as '
              'Phi P PhiT + Q and updates by the Kalman gain; process noise, transition matrices along an arc, parameter partials, residual statistics and radial/along/cross-track comparisons follow their definitions.',
    over=['inputs', 'histories'], quantifier='all partials, residuals, weights, covariances, transition matrices, noise parameters, parameter values and residual lists within the sizes of the contracts',
    why='Tests solve one well-conditioned system with tidy numbers; an off-diagonal, a repeated or out-of-range index, a transposed transition matrix or a stopping rule shows only in others.',
    files=['src/pod/estimation/wls.rs', 'src/pod/estimation/nonlinear.rs', 'src/pod/estimation/sequential.rs', 'src/pod/process/noise.rs', 'src/pod/propagation/variational.rs', 'src/pod/propagation/integrators.rs',
           'src/pod/problem/covariance.rs', 'src/pod/qc/orbit_compare.rs', 'src/pod/qc/residuals.rs', 'src/pod/qc/slr_validation.rs'],
    mechanism=[('NormalEquations', 'src/pod/estimation/wls.rs'), ('gauss_newton', 'src/pod/estimation/nonlinear.rs'), ('OrbitEkf', 'src/pod/estimation/sequential.rs'), ('ProcessNoiseModel', 'src/pod/process/noise.rs')],
    assumptions=[DOMAIN, 'matrix products and Cholesky solutions of the faer crate are exact (assumed)', 'sizes bounded: three parameters per row, two per solution, one in the iteration (two rounds), covariance with one correlated pair in the filter update, two steps of transition matrices without zero entries (affn skips the addends of a zero)',
                 'single integrator and variational steps (crate principia) are arbitrary'],
    note='The six-dimensional prediction and transition contracts are for arbitrary full matrices.')

ET = dict(redirects=[(r'^siderust::ephemeris::jpl::eval::jd_tt_to_spice_et_seconds', 'ax_et')])
PROPS['P12'] = merge(FORMAT, per=[(r'chain|cycle|runtime|newest', ET)],
    title='Kernel segments and runtime ephemerides give the state they encode',
    statement='A type 2/3 record gives the Chebyshev series of the record that contains the time and its derivative, type 9/13 segments the polynomial through the nearest states (and velocities), stored times their stored states, times '
              'outside the coverage an error. Reading takes exactly the words of the segment and refuses bad trailers. Bodies are chained along their centres, later segments first where they cover the time; Earth and Moon follow from the '
              'barycentre and mass ratio. Spacecraft clocks are piecewise linear and invertible, leap seconds step at their epochs, attitudes turn at constant rate between records.',
    over=['inputs', 'histories'], quantifier='all coefficients, states, epochs, record lengths, times, clock partitions and quaternions, for the numbers of records and coefficients of the contracts',
    why='Tests use one constant segment at its middle; a record edge, an off-centre window, a clamped window, a later overlapping segment or a missing Earth segment shows only elsewhere.',
    files=['src/formats/spice/segment.rs', 'src/formats/spice/spk.rs', 'src/formats/spice/spk_kernel.rs', 'src/formats/spice/sclk.rs', 'src/formats/spice/lsk.rs', 'src/formats/spice/ck.rs', 'src/ephemeris/jpl/eval.rs',
           'src/ephemeris/jpl/bodies.rs', 'src/ephemeris/runtime_backend.rs'],
    mechanism=[('SpkSegment::evaluate', 'src/formats/spice/segment.rs'), ('SpkKernelSet', 'src/formats/spice/spk_kernel.rs'), ('RuntimeEphemeris', 'src/ephemeris/runtime_backend.rs')],
    assumptions=['sizes bounded: up to 4 coefficients, 2 records, Lagrange degree up to 3, Hermite windows of 2 or 3, 5 segments', 'ephemeris time minus TT is taken as zero in the chaining contracts; its formula is checked on a grid of dates (bounded)',
                 'text kernels and the hash maps of SpkKernel and KernelSet are outside'],
    note='Record spacing in the interpolation contracts is a fixed uneven pattern scaled and shifted arbitrarily.')

PROPS['P13'] = merge(FORMAT, dict(redirects=[(r'<%s as core::str::traits::FromStr>::from_str' % t, 'ax_parse_%s' % t) for t in ('f64', 'u32', 'i32', 'u64', 'i64')] +
                         [(r'^core::slice::memchr::memchr(_aligned)?$', 'ax_memchr'), (r'^core::slice::memchr::memrchr$', 'ax_memrchr'), (r'^core::str::converts::from_utf8$', 'ax_from_utf8')]),
    title='Messages and files decode to the numbers they encode',
    statement='A pair of CPR frames, or one with a reference nearby, gives the position that was encoded, within the resolution, over both hemispheres, pole caps and the antimeridian; frames of different zones are refused. ADS-B altitude and velocity '
              'fields follow their bit layout and report unavailable values as such. A well-formed two-line element set gives each number in its columns and the epoch of its date; one wrong checksum digit is refused. EOP, CPF and SP3 lines give '
              'their fields in the stated units and time scale; EOP values are linear between records and constant outside.',
    over=['inputs'], quantifier='all raw 17-bit positions per zone, all field values, all digits of the fixed-layout lines, all tables of up to five records',
    why='Tests decode a few published frames and lines; a zone edge, hemisphere, pole cap, sign, unavailable code or exponent sign shows only for other values.',
    files=['src/formats/adsb/mod.rs', 'src/formats/adsb/cpr.rs', 'src/formats/tle/parse.rs', 'src/formats/tle/tle.rs', 'src/formats/iers/eop.rs', 'src/formats/ilrs/cpf.rs', 'src/formats/igs/sp3.rs'],
    mechanism=[('decode_globally', 'src/formats/adsb/cpr.rs'), ('parse_tle', 'src/formats/tle/parse.rs'), ('interpolate', 'src/formats/iers/eop.rs'), ('read_sp3', 'src/formats/igs/sp3.rs')],
    assumptions=[DOMAIN, 'std: decimal parsing is exact, memchr finds the first byte, ASCII is UTF-8 (assumed contracts in harness/src/assumed.rs)', 'longitude zones: one of four per latitude zone (bounded); positions within 0.005 degrees of a zone edge are excluded',
                 'ADS-B frames are built from accepted bytes: hexadecimal reading and the CRC are not decided', 'line layouts are fixed, with all digits arbitrary'],
    note='Readers of free-form text are decided only on these layouts.')
