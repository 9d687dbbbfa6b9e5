//! Assumed contracts of dependencies and of data-driven models (see DESIGN.md, "Trusted base").
//! The verifier calls these in place of the named function; natively they are never called.
use crate::models::bounded;
use crate::rt::*;
use siderust::astro::nutation::NutationAngles;
use siderust::qtty::{CipCoordinates, Days, Radians, Seconds};
use siderust::time::*;

/// tempoch: TT -> UT1 is some function of the instant, within 0.01 day
#[no_mangle]
pub fn ax_tt_to_ut1(t: JulianDate, _c: &TimeContext) -> Result<Time<UT1, JD>, ConversionError> {
    let x = t.raw().value();
    Ok(Time::<UT1, JD>::new(x + func("ut1-tt(days)", x)))
}
/// tempoch: UT1-UTC table lookup
#[no_mangle]
pub fn ax_ut1_minus_utc(_c: &TimeContext, mjd: Days) -> Option<Seconds> {
    Some(Seconds::new(func("ut1-utc(seconds)", mjd.value())))
}
#[no_mangle]
pub fn ax_builtin_eop_at(mjd: Days) -> Option<tempoch::eop::EopValues> {
    Some(tempoch::eop::EopValues {
        mjd_utc: mjd,
        pm_xp: None,
        pm_yp: None,
        ut1_minus_utc: Seconds::new(func("eop.ut1-utc(seconds)", mjd.value())),
        lod: None,
        dx: None,
        dy: None,
        ut1_observed: true,
    })
}

/// nutation series: some angles depending only on the date, |dpsi|, |deps| < 41", obliquity 22.3..24.1 deg
#[no_mangle]
pub fn ax_nutation(t: JulianDate) -> NutationAngles {
    let x = t.raw().value();
    NutationAngles {
        dpsi: Radians::new(bounded(func("dpsi", x), 2e-4)),
        deps: Radians::new(bounded(func("deps", x), 2e-4)),
        mean_obliquity: Radians::new(0.405 + bounded(func("epsA-0.405", x), 0.015)),
    }
}
/// the same with the mean obliquity every nutation model of the crate reports (checked by vc_p04_obliquity)
#[no_mangle]
pub fn ax_nutation_iau2006(t: JulianDate) -> NutationAngles {
    let x = t.raw().value();
    NutationAngles {
        dpsi: Radians::new(bounded(func("dpsi", x), 2e-4)),
        deps: Radians::new(bounded(func("deps", x), 2e-4)),
        mean_obliquity: siderust::astro::precession::mean_obliquity_iau2006(t),
    }
}
/// CIP coordinates: some functions of the instant and the nutation, within 0.03 (obligation of vc_p02_cip_bound)
#[no_mangle]
pub fn ax_cip_xy(t: JulianDate, dpsi: Radians, deps: Radians) -> (CipCoordinates, CipCoordinates) {
    let x = t.raw().value();
    let k = dpsi.value() + 1e3 * deps.value();
    (CipCoordinates::new(bounded(func("cip.x", func("cip.x.date", x) + k), 0.03)), CipCoordinates::new(bounded(func("cip.y", func("cip.y.date", x) + k), 0.03)))
}

use siderust::astro::orbit::KeplerianOrbit;
use siderust::coordinates::cartesian::Position;
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::EclipticMeanJ2000;
use siderust::qtty::{AstronomicalUnit, GravitationalParameter};
macro_rules! ax_planet {
    ($($f:ident $x:literal $y:literal $z:literal),+) => { $(
        /// analytical planetary series: some function of the date
        #[no_mangle]
        pub fn $f(t: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit> {
            let d = t.raw().value();
            Position::new(bounded(func($x, d), 100.0), bounded(func($y, d), 100.0), bounded(func($z, d), 100.0))
        }
    )+ };
}
ax_planet!(ax_sun "vsop.sun.x" "vsop.sun.y" "vsop.sun.z", ax_earth "vsop.earth.x" "vsop.earth.y" "vsop.earth.z", ax_mercury "mercury.x" "mercury.y" "mercury.z",
    ax_venus "venus.x" "venus.y" "venus.z", ax_mars "mars.x" "mars.y" "mars.z", ax_jupiter "jupiter.x" "jupiter.y" "jupiter.z",
    ax_saturn "saturn.x" "saturn.y" "saturn.z", ax_uranus "uranus.x" "uranus.y" "uranus.z", ax_neptune "neptune.x" "neptune.y" "neptune.z");
/// Kepler propagation (decided separately): some function of the date
#[no_mangle]
pub fn ax_kepler_position(_o: &KeplerianOrbit, t: JulianDate) -> Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit> {
    let d = t.raw().value();
    Position::new(func("kepler.x", d), func("kepler.y", d), func("kepler.z", d))
}
#[no_mangle]
pub fn ax_position_with_mu(_o: &KeplerianOrbit, t: JulianDate, mu: GravitationalParameter) -> Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit> {
    let d = t.raw().value() + mu.value();
    Position::new(func("body.x", d), func("body.y", d), func("body.z", d))
}

/// sidereal time (decided by P04): some function of the two dates, the nutation and the obliquity
#[no_mangle]
pub fn ax_gast(ut1: JulianDate, tt: JulianDate, dpsi: Radians, eps: Radians) -> Radians {
    let k = func("gast.a", ut1.raw().value()) + func("gast.b", tt.raw().value()) + func("gast.c", dpsi.value()) + func("gast.d", eps.value());
    Radians::new(bounded(func("gast", k), 6.3))
}
#[no_mangle]
pub fn ax_gmst(ut1: JulianDate, tt: JulianDate) -> Radians {
    let k = func("gmst.a", ut1.raw().value()) + func("gmst.b", tt.raw().value());
    Radians::new(bounded(func("gmst", k), 6.3))
}
/// precession to mean equator of date (decided by P04 to be a rotation): arbitrary Euler angles
#[no_mangle]
pub fn ax_precession_matrix(t: JulianDate) -> affn::Rotation3 {
    let x = t.raw().value();
    affn::Rotation3::rz(Radians::new(bounded(func("prec.z", x), 3.0))) * affn::Rotation3::rx(Radians::new(bounded(func("prec.x", x), 3.0)))
        * affn::Rotation3::rz(Radians::new(bounded(func("prec.zz", x), 3.0)))
}
/// GCRS to CIRS (decided by P02/P04 to be a rotation): any matrix depending on the arguments
#[no_mangle]
pub fn ax_cirs_matrix(x: CipCoordinates, y: CipCoordinates, s: Radians) -> affn::Rotation3 {
    let k = func("cirs.a", x.value()) + func("cirs.b", y.value()) + func("cirs.c", s.value());
    let m = |n: &'static str| bounded(func(n, k), 1.0);
    affn::Rotation3::from_matrix_unchecked([[m("q.xx"), m("q.xy"), m("q.xz")], [m("q.yx"), m("q.yy"), m("q.yz")], [m("q.zx"), m("q.zy"), m("q.zz")]])
}
/// polar motion (decided by P04): any matrix depending on the arguments
#[no_mangle]
pub fn ax_polar_motion(x: siderust::qtty::Arcseconds, y: siderust::qtty::Arcseconds, t: JulianDate) -> affn::Rotation3 {
    let k = func("pm.a", x.value()) + func("pm.b", y.value()) + func("pm.c", t.raw().value());
    let m = |n: &'static str| bounded(func(n, k), 1.0);
    affn::Rotation3::from_matrix_unchecked([[m("w.xx"), m("w.xy"), m("w.xz")], [m("w.yx"), m("w.yy"), m("w.yz")], [m("w.zx"), m("w.zy"), m("w.zz")]])
}
/// Earth-fixed to mean equator of J2000 (vc_p05_site_rigid decides that it is a rotation): any matrix depending on the instant
#[no_mangle]
pub fn ax_site_rotation(t: JulianDate, _c: *const u8) -> affn::Rotation3 {
    let x = t.raw().value();
    let m = |k: &'static str| bounded(func(k, x), 1.0);
    affn::Rotation3::from_matrix_unchecked([[m("site.xx"), m("site.xy"), m("site.xz")], [m("site.yx"), m("site.yy"), m("site.yz")], [m("site.zx"), m("site.zy"), m("site.zz")]])
}
/// analytical series for the Earth's velocity: some function of the date, below 0.1 au/day
#[no_mangle]
pub fn ax_earth_velocity(t: JulianDate) -> siderust::coordinates::cartesian::Velocity<EclipticMeanJ2000, siderust::ephemeris::AuPerDay> {
    let d = t.raw().value();
    let v = |n: &'static str| siderust::qtty::Quantity::new(bounded(func(n, d), 0.1));
    siderust::coordinates::cartesian::Velocity::new(v("vsop.earth.vx"), v("vsop.earth.vy"), v("vsop.earth.vz"))
}
/// aberration (decided by vc_p06_aberration*): some function of the direction and the velocity
type Dir = siderust::coordinates::cartesian::Direction<siderust::coordinates::frames::EquatorialMeanJ2000>;
type Vel = siderust::coordinates::cartesian::Velocity<siderust::coordinates::frames::EquatorialMeanJ2000, siderust::ephemeris::AuPerDay>;
fn aberrated(n: [&'static str; 2], d: Dir, v: &Vel) -> Dir {
    let k = func("ab.a", d.x()) + func("ab.b", d.y()) + func("ab.c", d.z()) + func("ab.d", v.x().value()) + func("ab.e", v.y().value()) + func("ab.f", v.z().value());
    let (a, b) = (func(n[0], k), func(n[1], k));
    Dir::new_unchecked(b.cos() * a.cos(), b.cos() * a.sin(), b.sin())
}
#[no_mangle]
pub fn ax_aberrate(d: Dir, v: &Vel) -> Dir {
    aberrated(["aberrated.lon", "aberrated.lat"], d, v)
}
#[no_mangle]
pub fn ax_unaberrate(d: Dir, v: &Vel) -> Dir {
    aberrated(["geometric.lon", "geometric.lat"], d, v)
}
/// light deflection by one body (decided by vc_p06_deflection): some unit vector depending on the arguments, within 60 deg of the input
#[no_mangle]
pub fn ax_body_deflection(d: Dir, q: affn::cartesian::Displacement<siderust::coordinates::frames::EquatorialMeanJ2000, AstronomicalUnit>, rs: siderust::qtty::AstronomicalUnits) -> Dir {
    let k = func("bd.a", d.x()) + func("bd.b", d.y()) + func("bd.c", d.z()) + func("bd.d", q.x().value()) + func("bd.e", q.y().value()) + func("bd.f", q.z().value()) + func("bd.g", rs.value());
    let (a, b) = (func("bent.lon", k), func("bent.lat", k));
    let v = [b.cos() * a.cos(), b.cos() * a.sin(), b.sin()];
    let c = v[0] * d.x() + v[1] * d.y() + v[2] * d.z();
    assume(c > 0.5);
    assume(c <= 1.0);
    Dir::new_unchecked(v[0], v[1], v[2])
}
/// keplerian: an anomaly of the mean anomaly and the eccentricity; what was asked is kept for the contracts of P07
type Solved<T> = Result<T, keplerian::anomaly::AnomalyError>;
#[no_mangle]
pub fn ax_eccentric(m: keplerian::anomaly::MeanAnomaly, e: keplerian::Eccentricity, o: keplerian::anomaly::AnomalyOptions) -> Solved<keplerian::anomaly::EccentricAnomaly> {
    let ea = func("E", func("E.a", m.value()) + func("E.b", e.value()));
    unsafe { crate::p07_orbits::ASKED = [m.value(), e.value(), 2.0 * ea, o.tol(), o.max_iter() as f64] };
    Ok(keplerian::anomaly::EccentricAnomaly::from_value(2.0 * ea))
}
#[no_mangle]
pub fn ax_hyperbolic(m: keplerian::anomaly::MeanAnomaly, e: keplerian::Eccentricity, o: keplerian::anomaly::AnomalyOptions) -> Solved<keplerian::anomaly::HyperbolicAnomaly> {
    if func("solver fails", m.value() + 1e3 * e.value()) > 0.0 {
        unsafe { crate::p07_orbits::ASKED = [m.value(), e.value(), 1e9, o.tol(), o.max_iter() as f64] };
        return Err(keplerian::anomaly::AnomalyError::InvalidMeanAnomaly(0.0));
    }
    let h = bounded(func("H", func("H.a", m.value()) + func("H.b", e.value())), 10.0);
    unsafe { crate::p07_orbits::ASKED = [m.value(), e.value(), 2.0 * h, o.tol(), o.max_iter() as f64] };
    Ok(keplerian::anomaly::HyperbolicAnomaly::new(2.0 * h))
}
/// root refinement: an end whose value is zero, nothing without a sign change, else the signal's zero inside the bracket (decided in P09)
fn refined(lo: f64, hi: f64, f_lo: f64, f_hi: f64) -> Option<f64> {
    if f_lo == 0.0 {
        return Some(lo);
    }
    if f_hi == 0.0 {
        return Some(hi);
    }
    if (f_lo > 0.0) == (f_hi > 0.0) {
        return None;
    }
    let g = unsafe { crate::p08_events::SIG };
    for k in 0..g.n {
        if lo <= g.r[k] && g.r[k] <= hi {
            return Some(g.r[k]);
        }
    }
    ensure("the bracket holds a zero of the signal", false);
    None
}
#[no_mangle]
pub fn ax_brent_f64(lo: f64, hi: f64, f_lo: f64, f_hi: f64) -> Option<f64> {
    refined(lo, hi, f_lo, f_hi)
}
#[no_mangle]
pub fn ax_brent(p: siderust::time::Interval<siderust::time::ModifiedJulianDate>, f_lo: f64, f_hi: f64) -> Option<siderust::time::ModifiedJulianDate> {
    refined(p.start.raw().value(), p.end.raw().value(), f_lo, f_hi).map(siderust::time::ModifiedJulianDate::new)
}
/// the polynomial fit of a segment: it fails, or has slope one and the zeros `FIT`
#[no_mangle]
pub fn ax_fit(_degree: usize) -> Result<cheby::ChebySeriesDyn<f64>, cheby::ChebyError> {
    if unsafe { crate::p08_events::FIT }.is_none() {
        return Err(cheby::ChebyError::EmptyCoefficientSet);
    }
    cheby::ChebySeriesDyn::new(vec![0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0])
}
#[no_mangle]
pub fn ax_fit_zeros() -> Vec<f64> {
    let z = unsafe { crate::p08_events::FIT }.unwrap_or((0, [0.0; 4]));
    z.1[..z.0].to_vec()
}
/// the azimuth of the Sun: the signal of P08
#[no_mangle]
pub fn ax_signal_azimuth(t: siderust::time::ModifiedJulianDate) -> siderust::qtty::Radians {
    siderust::qtty::Radians::new(unsafe { crate::p08_events::SIG }.value(t.raw().value()))
}

/// geodetic altitude (vc_p09_altitude decides it): some number
#[no_mangle]
pub fn ax_altitude(r: &Position<Geocentric, siderust::coordinates::frames::GCRS, siderust::qtty::Kilometer>, a: siderust::qtty::Kilometers, f: siderust::qtty::Ratios) -> siderust::qtty::Kilometers {
    let h = real("altitude", -1e3, 1e5);
    unsafe { crate::p09_forces::ALT = [r.x().value(), r.y().value(), r.z().value(), a.value(), f.value(), h] };
    siderust::qtty::Kilometers::new(h)
}
/// crate principia: the spherical-harmonic kernel
#[no_mangle]
pub fn ax_harmonics(p: [f64; 3], n: u32, m: u32, _c: &principia::gravity::GravityConstants, _f: &(dyn principia::GravityFieldProvider + Send + Sync), rmin: f64) -> Result<[f64; 3], principia::PrincipiaError> {
    unsafe { crate::p09_forces::KERNEL = [p[0], p[1], p[2], n as f64, m as f64, rmin] };
    Ok([func("kernel.x", 0.0), func("kernel.y", 0.0), func("kernel.z", 0.0)])
}
type Dis = siderust::coordinates::cartesian::Displacement<siderust::coordinates::frames::GCRS, siderust::qtty::Kilometer>;
#[no_mangle]
pub fn ax_cylinder(a: Dis, b: Dis) -> siderust::qtty::Ratios {
    unsafe { crate::p09_forces::SHADE = [a.x().value(), a.y().value(), a.z().value(), b.x().value(), b.y().value(), b.z().value()] };
    siderust::qtty::Ratios::new(func("lit.cylinder", 0.0))
}
#[no_mangle]
pub fn ax_cone(a: Dis, b: Dis) -> siderust::qtty::Ratios {
    unsafe { crate::p09_forces::SHADE = [a.x().value(), a.y().value(), a.z().value(), b.x().value(), b.y().value(), b.z().value()] };
    siderust::qtty::Ratios::new(func("lit.cone", 0.0))
}
/// message formatting does not matter to any contract
#[no_mangle]
pub fn ax_format(_a: std::fmt::Arguments<'_>) -> String {
    String::new()
}

#[no_mangle]
pub fn ax_sun_place(_s: &siderust::astro::dynamics::forces::SunPerturbation, _e: &std::sync::Arc<dyn siderust::ephemeris::DynEphemeris + Send + Sync>, t: JulianDate) -> Result<Dis, siderust::astro::dynamics::errors::DynamicsError> {
    let p = unsafe { crate::p09_forces::DATE[0] = t.value(); crate::p09_forces::PLACES[0] };
    Ok(Dis::new(p[0], p[1], p[2]))
}
#[no_mangle]
pub fn ax_moon_place(_s: &siderust::astro::dynamics::forces::MoonPerturbation, _e: &std::sync::Arc<dyn siderust::ephemeris::DynEphemeris + Send + Sync>, t: JulianDate) -> Result<Dis, siderust::astro::dynamics::errors::DynamicsError> {
    let p = unsafe { crate::p09_forces::DATE[1] = t.value(); crate::p09_forces::PLACES[1] };
    Ok(Dis::new(p[0], p[1], p[2]))
}
type GPos = siderust::coordinates::cartesian::Position<siderust::coordinates::centers::Geocentric, siderust::coordinates::frames::ECEF, siderust::qtty::Meter>;
#[no_mangle]
pub fn ax_occultation(_o: &GPos, t: &GPos, tr: siderust::qtty::Meters, k: &GPos, kr: siderust::qtty::Meters) -> f64 {
    unsafe {
        crate::p10_geometry::FRACTION[1] = t.z().value();
        crate::p10_geometry::FRACTION[2] = tr.value();
        crate::p10_geometry::FRACTION[3] = k.y().value();
        crate::p10_geometry::FRACTION[4] = kr.value();
        crate::p10_geometry::FRACTION[0]
    }
}

// ---- faer: exact linear algebra (assumed contract of the dependency)
type Mm<'a> = faer::MatMut<'a, f64>;
type Mr<'a> = faer::MatRef<'a, f64>;
#[no_mangle]
pub fn ax_matmul(dst: Mm<'_>, beta: faer::Accum, a: Mr<'_>, _ca: faer::Conj, b: Mr<'_>, _cb: faer::Conj, alpha: &f64, _par: faer::Par) {
    let mut dst = dst;
    for i in 0..dst.nrows() {
        for j in 0..dst.ncols() {
            let mut s = 0.0;
            for k in 0..a.ncols() {
                s += a[(i, k)] * b[(k, j)];
            }
            s *= *alpha;
            if beta == faer::Accum::Add {
                s += dst[(i, j)];
            }
            dst[(i, j)] = s;
        }
    }
}
/// keeps the matrix itself; succeeds exactly on positive definite matrices (up to two rows)
#[no_mangle]
pub fn ax_llt(a: Mr<'_>, side: faer::Side) -> Result<faer::linalg::solvers::Llt<f64>, faer::linalg::cholesky::llt::factor::LltError> {
    use faer::linalg::cholesky::llt::factor::LltError;
    let n = a.nrows();
    let at = |i: usize, j: usize| if (side == faer::Side::Lower) == (i >= j) { a[(i, j)] } else { a[(j, i)] };
    assume(n <= 2);
    if n > 0 && !(at(0, 0) > 0.0) {
        return Err(LltError::NonPositivePivot { index: 0 });
    }
    if n > 1 && !(at(0, 0) * at(1, 1) - at(0, 1) * at(0, 1) > 0.0) {
        return Err(LltError::NonPositivePivot { index: 1 });
    }
    let m: faer::Mat<f64> = faer::Mat::from_fn(n, n, at);
    Ok(unsafe { std::mem::transmute::<faer::Mat<f64>, faer::linalg::solvers::Llt<f64>>(m) })
}
#[no_mangle]
pub fn ax_llt_solve(l: &faer::linalg::solvers::Llt<f64>, _c: faer::Conj, rhs: Mm<'_>) {
    let a = unsafe { std::mem::transmute::<&faer::linalg::solvers::Llt<f64>, &faer::Mat<f64>>(l) };
    let mut rhs = rhs;
    for k in 0..rhs.ncols() {
        if a.nrows() == 1 {
            rhs[(0, k)] = rhs[(0, k)] / a[(0, 0)];
        } else {
            let det = a[(0, 0)] * a[(1, 1)] - a[(0, 1)] * a[(1, 0)];
            let (x, y) = (rhs[(0, k)], rhs[(1, k)]);
            rhs[(0, k)] = (a[(1, 1)] * x - a[(0, 1)] * y) / det;
            rhs[(1, k)] = (a[(0, 0)] * y - a[(1, 0)] * x) / det;
        }
    }
}
type Ctx = siderust::astro::dynamics::context::DynamicsContext;
type Os = siderust::astro::dynamics::OrbitState;
#[no_mangle]
pub fn ax_stm(_m: &(), s: Os, dt: siderust::qtty::Second, _c: &Ctx) -> Result<(Os, principia::StateTransitionMatrix<siderust::coordinates::frames::GCRS>), principia::PrincipiaError> {
    let n = unsafe { crate::p11_estimation::CALLS };
    unsafe { crate::p11_estimation::CALLS = n + 1 };
    let f = unsafe { crate::p11_estimation::PHI[n] };
    let p = s.position;
    let q = siderust::astro::dynamics::state::Position::<siderust::coordinates::frames::GCRS>::new(p.x().value() + dt.value(), p.y().value(), p.z().value());
    Ok((Os::new(s.epoch, q, s.velocity), affn::matrix6::FrameMatrix6::from_array(f)))
}
#[no_mangle]
pub fn ax_rk4(_m: &(), s: Os, h: siderust::qtty::Second, dt: siderust::qtty::Second, _c: &Ctx) -> Result<Os, principia::PrincipiaError> {
    unsafe {
        let n = crate::p11_estimation::STEP[0];
        crate::p11_estimation::STEP = [n + 1.0, h.value(), dt.value(), s.position.x().value(), 0.0];
    }
    Ok(s)
}

/// ephemeris time without the annual term of at most 1.7 ms (the term has a contract of its own)
#[no_mangle]
pub fn ax_et(jd: siderust::time::JulianDate) -> f64 {
    (jd.raw().value() - 2451545.0) * 86400.0
}

/// decimal text read as the number it denotes
#[no_mangle]
pub fn ax_parse_f64(s: &str) -> Result<f64, std::num::ParseFloatError> {
    let b = s.as_bytes();
    let (mut i, mut neg, mut v, mut digits) = (0, false, 0.0f64, 0);
    if !b.is_empty() && (b[0] == b'-' || b[0] == b'+') {
        neg = b[0] == b'-';
        i = 1;
    }
    let mut scale = 1.0;
    let mut frac = false;
    while i < b.len() {
        let c = b[i];
        if c == b'.' && !frac {
            frac = true;
        } else if c >= b'0' && c <= b'9' {
            v = v * 10.0 + (c - b'0') as f64;
            digits += 1;
            if frac {
                scale *= 10.0;
            }
        } else {
            digits = -100000;
        }
        i += 1;
    }
    if digits <= 0 {
        return Err(unsafe { std::mem::transmute::<u8, std::num::ParseFloatError>(1) });
    }
    let v = v / scale;
    Ok(if neg { -v } else { v })
}

/// decimal text read as an integer
fn parse_int(s: &str, signed: bool) -> Option<i64> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut neg = false;
    if !b.is_empty() && (b[0] == b'+' || (signed && b[0] == b'-')) {
        neg = b[0] == b'-';
        i = 1;
    }
    if i == b.len() {
        return None;
    }
    let mut v = 0i64;
    while i < b.len() {
        if b[i] < b'0' || b[i] > b'9' {
            return None;
        }
        v = v * 10 + (b[i] - b'0') as i64;
        i += 1;
    }
    Some(if neg { -v } else { v })
}
fn bad_int() -> std::num::ParseIntError {
    unsafe { std::mem::transmute::<u8, std::num::ParseIntError>(1) }
}
#[no_mangle]
pub fn ax_parse_u32(s: &str) -> Result<u32, std::num::ParseIntError> {
    match parse_int(s, false) {
        Some(v) if v <= u32::MAX as i64 => Ok(v as u32),
        _ => Err(bad_int()),
    }
}
#[no_mangle]
pub fn ax_parse_i32(s: &str) -> Result<i32, std::num::ParseIntError> {
    match parse_int(s, true) {
        Some(v) if v <= i32::MAX as i64 => Ok(v as i32),
        _ => Err(bad_int()),
    }
}
#[no_mangle]
pub fn ax_parse_u64(s: &str) -> Result<u64, std::num::ParseIntError> {
    parse_int(s, false).map(|v| v as u64).ok_or(bad_int())
}
#[no_mangle]
pub fn ax_parse_i64(s: &str) -> Result<i64, std::num::ParseIntError> {
    parse_int(s, true).ok_or(bad_int())
}
/// the first / last position of a byte
#[no_mangle]
pub fn ax_memchr(x: u8, text: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < text.len() {
        if text[i] == x {
            return Some(i);
        }
        i += 1;
    }
    None
}
#[no_mangle]
pub fn ax_memrchr(x: u8, text: &[u8]) -> Option<usize> {
    let mut i = text.len();
    while i > 0 {
        i -= 1;
        if text[i] == x {
            return Some(i);
        }
    }
    None
}
/// ASCII bytes are text
#[no_mangle]
pub fn ax_from_utf8(v: &[u8]) -> Result<&str, std::str::Utf8Error> {
    let mut i = 0;
    while i < v.len() {
        assert!(v[i] < 128);
        i += 1;
    }
    Ok(unsafe { std::str::from_utf8_unchecked(v) })
}
