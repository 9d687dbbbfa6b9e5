//! P06: apparent directions: aberration, light deflection, proper motion.
use crate::models::*;
use crate::rt::*;
use affn::cartesian::Displacement;
use siderust::astro::aberration::*;
use siderust::astro::light_deflection::*;
use siderust::astro::nutation::Iau2006A;
use siderust::astro::proper_motion::*;
use siderust::bodies::solar_system::Earth;
use siderust::coordinates::cartesian::{Direction, Position, Velocity};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::observation::{Apparent, Astrometric, ObserverState};
use siderust::coordinates::spherical;
use siderust::coordinates::transform::{TransformCenter, TransformFrame};
use siderust::qtty::*;
use siderust::time::JulianDate;

type V = Per<AstronomicalUnit, Day>;
type Vel = Velocity<EquatorialMeanJ2000, V>;
const C_AU_DAY: f64 = 299792458.0 * 86400.0 / 149597870700.0;
const RS_SUN: f64 = 1.97412574336e-8;

fn dot(a: [f64; 3], b: [f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn dir<F: ReferenceFrame>(d: &Direction<F>) -> [f64; 3] {
    [d.x(), d.y(), d.z()]
}
fn unit(lon: f64, lat: f64) -> [f64; 3] {
    [lat.cos() * lon.cos(), lat.cos() * lon.sin(), lat.sin()]
}
fn any_dir() -> [f64; 3] {
    unit(real("lon", -3.2, 6.4), real("lat", -1.58, 1.58))
}
fn direction<F: ReferenceFrame>(v: [f64; 3]) -> Direction<F> {
    Direction::<F>::new_unchecked(v[0], v[1], v[2])
}
/// any velocity up to about 0.3 c
fn any_velocity() -> Vel {
    let v = |n| Quantity::<V>::new(real(n, -29.0, 29.0));
    Vel::new(v("vx"), v("vy"), v("vz"))
}
fn beta(v: &Vel) -> [f64; 3] {
    let b = *v / siderust::qtty::velocity::AU_PER_DAY_C;
    [b.x().value(), b.y().value(), b.z().value()]
}
fn varr(v: &Vel) -> [f64; 3] {
    [v.x().value(), v.y().value(), v.z().value()]
}
/// the Lorentz transformation of a light direction
fn lorentz(u: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    let b2 = dot(b, b);
    let ig = (1.0 - b2).sqrt();
    let bu = dot(b, u);
    std::array::from_fn(|k| (u[k] * ig + b[k] * (1.0 + bu / (1.0 + ig))) / (1.0 + bu))
}
fn earth_velocity(jd: JulianDate) -> Vel {
    Earth::vsop87e_vel(jd).to_frame()
}
fn bend(s: [f64; 3], q: [f64; 3], rs: f64) -> [f64; 3] {
    let m = dot(q, q).sqrt();
    let e = q.map(|x| x / m);
    let c = dot(s, e);
    let w: [f64; 3] = std::array::from_fn(|k| s[k] + rs / m / (1.0 + c) * (e[k] - c * s[k]));
    let n = dot(w, w).sqrt();
    w.map(|x| x / n)
}
fn disp(q: [f64; 3]) -> Displacement<ICRS, AstronomicalUnit> {
    Displacement::new(AstronomicalUnits::new(q[0]), AstronomicalUnits::new(q[1]), AstronomicalUnits::new(q[2]))
}
/// the body-to-observer vector: at the angle t from s, in any azimuth around it, at any distance
fn any_q(lon: f64, lat: f64, tmax: f64) -> [f64; 3] {
    let (t, f, r) = (real("angle", 0.0, tmax), real("azimuth", -3.2, 3.2), real("distance", 0.001, 100.0));
    let (sl, cl) = lon.sin_cos();
    let (sb, cb) = lat.sin_cos();
    let (s, e, n) = ([cb * cl, cb * sl, sb], [-sl, cl, 0.0], [-sb * cl, -sb * sl, cb]);
    let (st, ct) = t.sin_cos();
    let (sf, cf) = f.sin_cos();
    std::array::from_fn(|k| r * (ct * s[k] + st * (cf * e[k] + sf * n[k])))
}
fn any_lonlat() -> (f64, f64) {
    (real("lon", -3.2, 6.4), real("lat", -1.58, 1.58))
}
fn site() -> Geodetic<ECEF> {
    Geodetic::<ECEF>::new_raw(Degrees::new(real("site lon", -180.0, 180.0)), Degrees::new(real("site lat", -90.0, 90.0)), Meters::new(real("site height", -500.0, 9000.0)))
}
fn sph<F: ReferenceFrame>(d: &spherical::Direction<F>) -> [f64; 3] {
    unit(d.azimuth.value().to_radians(), d.polar.value().to_radians())
}

fn axis(lon: f64, jd: JulianDate, ctx: &siderust::coordinates::transform::AstroContext<AnyEph, AnyEop>) -> [f64; 3] {
    let s = Geodetic::<ECEF>::new_raw(Degrees::new(lon), Degrees::new(0.0), Meters::new(0.0));
    let o = Position::<Geocentric, EquatorialMeanJ2000, Meter>::new(0.0, 0.0, 0.0);
    let t: Position<Topocentric, EquatorialMeanJ2000, Meter> = o.to_center_as::<AnyEph, AnyEop, Iau2006A>(s, jd, ctx);
    [t.x().value(), t.y().value(), t.z().value()].map(|x| -x / 6378137.0)
}
macro_rules! wrapper {
    ($d:expr, $obs:expr, $v:expr; $($f:ident),+) => {$(
        {
            let u: Direction<$f> = direction($d);
            let e: Direction<EquatorialMeanJ2000> = u.to_frame();
            let want: Direction<$f> = apply_aberration_to_direction_with_velocity(e, &$v).to_frame();
            let back: Direction<$f> = remove_aberration_from_direction_with_velocity(e, &$v).to_frame();
            let app = Astrometric::new(u).to_apparent(&$obs);
            let ast = Apparent::new(u).to_astrometric(&$obs);
            let (x, w) = (dir(app.direction()), dir(&want));
            let (y, b) = (dir(ast.direction()), dir(&back));
            for k in 0..3 {
                ensure_eq(concat!("Astrometric::to_apparent (", stringify!($f), ") is aberration in the equatorial frame, turned back"), x[k], w[k], 1e-12);
                ensure_eq(concat!("Apparent::to_astrometric (", stringify!($f), ") removes it in the equatorial frame"), y[k], b[k], 1e-12);
            }
        }
    )+};
}

contracts! {
    fn vc_p06_aberration() {
        let (u, v) = (any_dir(), any_velocity());
        let b = beta(&v);
        let w = lorentz(u, b);
        let x = dir(&apply_aberration_to_direction_with_velocity(direction(u), &v));
        for k in 0..3 {
            ensure_eq("aberration is the Lorentz transformation of the direction", x[k], w[k], 1e-11);
        }
        ensure_eq("the aberrated direction has unit length", dot(x, x), 1.0, 1e-11);
    }
    fn vc_p06_aberration_removed() {
        let (u, v) = (any_dir(), any_velocity());
        let b = beta(&v);
        let w = lorentz(u, b.map(|x| -x));
        let x = dir(&remove_aberration_from_direction_with_velocity(direction(u), &v));
        for k in 0..3 {
            ensure_eq("removing aberration is the Lorentz transformation with the opposite velocity", x[k], w[k], 1e-11);
        }
    }
    fn vc_p06_aberration_inverse() {
        let (u, v) = (any_dir(), any_velocity());
        let b = beta(&v);
        let w = lorentz(lorentz(u, b), b.map(|x| -x));
        for k in 0..3 {
            ensure_eq("velocities are measured in units of the speed of light", b[k], varr(&v)[k] / C_AU_DAY, 1e-15);
            ensure_eq("the Lorentz transformation with the opposite velocity undoes it", w[k], u[k], 1e-11);
        }
    }
    fn vc_p06_aberration_rest() {
        let u = any_dir();
        let v = Vel::new(Quantity::<V>::new(0.0), Quantity::<V>::new(0.0), Quantity::<V>::new(0.0));
        let x = dir(&apply_aberration_to_direction_with_velocity(direction(u), &v));
        let y = dir(&remove_aberration_from_direction_with_velocity(direction(u), &v));
        for k in 0..3 {
            ensure_eq("an observer at rest sees no aberration", x[k], u[k], 0.0);
            ensure_eq("an observer at rest has nothing to remove", y[k], u[k], 0.0);
        }
    }
    fn vc_p06_annual() {
        let (jd, u) = (epoch(), any_dir());
        let v = earth_velocity(jd);
        let d: Direction<EquatorialMeanJ2000> = direction(u);
        let (a, b) = (dir(&apply_aberration_to_direction(d, jd)), dir(&apply_aberration_to_direction_with_velocity(d, &v)));
        let (r, s) = (dir(&remove_aberration_from_direction(d, jd)), dir(&remove_aberration_from_direction_with_velocity(d, &v)));
        for k in 0..3 {
            ensure_eq("annual aberration uses the barycentric velocity of the Earth", a[k], b[k], 1e-12);
            ensure_eq("removing annual aberration uses the barycentric velocity of the Earth", r[k], s[k], 1e-12);
        }
    }
    fn vc_p06_annual_positions() {
        let (jd, u, r) = (epoch(), any_dir(), real("distance", 0.001, 1e6));
        let d: Direction<EquatorialMeanJ2000> = direction(u);
        let p = Position::<Geocentric, EquatorialMeanJ2000, Kilometer>::new(u[0] * r, u[1] * r, u[2] * r);
        let (a, b) = (apply_aberration(p, jd), dir(&apply_aberration_to_direction(d, jd)));
        let (s, t) = (remove_aberration(p, jd), dir(&remove_aberration_from_direction(d, jd)));
        let (a, s) = ([a.x().value(), a.y().value(), a.z().value()], [s.x().value(), s.y().value(), s.z().value()]);
        for k in 0..3 {
            ensure_eq("aberration of a position turns its direction and keeps its distance", a[k] / r, b[k], 1e-11);
            ensure_eq("removing aberration of a position turns its direction and keeps its distance", s[k] / r, t[k], 1e-11);
        }
    }
    fn vc_p06_annual_origin() {
        let jd = epoch();
        let p = Position::<Geocentric, EquatorialMeanJ2000, Kilometer>::new(0.0, 0.0, 0.0);
        let (a, s) = (apply_aberration(p, jd), remove_aberration(p, jd));
        for x in [a.x(), a.y(), a.z(), s.x(), s.y(), s.z()] {
            ensure_eq("the observer's own position is left alone", x.value(), 0.0, 0.0);
        }
    }
    fn vc_p06_observer_geocentric() {
        let jd = epoch();
        let o = ObserverState::geocentric(jd);
        let (a, b) = (varr(o.velocity()), varr(&earth_velocity(jd)));
        for k in 0..3 {
            ensure_eq("a geocentric observer moves with the Earth", a[k], b[k], 1e-13);
        }
        ensure_eq("the observer state keeps its instant", o.jd().raw().value(), jd.raw().value(), 0.0);
    }
    fn vc_p06_observer_topocentric() {
        let (jd, s) = (epoch(), site());
        let ctx = any_ctx();
        let o = ObserverState::topocentric_with_ctx::<AnyEph, AnyEop, Iau2006A>(&s, jd, &ctx);
        let p: Position<Geocentric, ECEF, Meter> = s.to_cartesian();
        let w = 7.292115e-5 * 86400.0 / 149597870700.0;
        // the Earth-fixed axes on the equator, seen in the equatorial frame (in units of the equatorial radius)
        let (e, n) = (axis(0.0, jd, &ctx), axis(90.0, jd, &ctx));
        let r: [f64; 3] = std::array::from_fn(|k| w * (p.x().value() * n[k] - p.y().value() * e[k]));
        let (a, b) = (varr(o.velocity()), varr(&earth_velocity(jd)));
        for k in 0..3 {
            ensure_eq("a ground observer adds the rotation of the Earth to its orbital velocity", a[k], b[k] + r[k], 1e-10);
        }
        ensure_eq("the observer state keeps its instant", o.jd().raw().value(), jd.raw().value(), 0.0);
    }
    fn vc_p06_observer_explicit() {
        let (jd, v) = (epoch(), any_velocity());
        let o = ObserverState::from_velocity(v, jd);
        let (a, b) = (varr(o.velocity()), varr(&v));
        for k in 0..3 {
            ensure_eq("an explicit observer keeps its velocity", a[k], b[k], 0.0);
        }
        ensure_eq("the observer state keeps its instant", o.jd().raw().value(), jd.raw().value(), 0.0);
    }
    fn vc_p06_wrappers() {
        let (d, v) = (any_dir(), any_velocity());
        let o = ObserverState::from_velocity(v, JulianDate::new(2451545.0));
        wrapper!(d, o, v; EquatorialMeanJ2000, EclipticMeanJ2000, ICRS);
    }
    fn vc_p06_wrappers_spherical() {
        let (lon, lat, v) = (real("lon", -170.0, 350.0), real("lat", -89.9, 89.9), any_velocity());
        let o = ObserverState::from_velocity(v, JulianDate::new(2451545.0));
        let s = spherical::Direction::<EquatorialMeanJ2000>::new(Degrees::new(lon), Degrees::new(lat));
        let e: Direction<EquatorialMeanJ2000> = direction(unit(lon.to_radians(), lat.to_radians()));
        let x = sph(Astrometric::new(s).to_apparent(&o).direction());
        let y = sph(Apparent::new(s).to_astrometric(&o).direction());
        let (w, b) = (dir(&apply_aberration_to_direction_with_velocity(e, &v)), dir(&remove_aberration_from_direction_with_velocity(e, &v)));
        for k in 0..3 {
            ensure_eq("Astrometric::to_apparent (spherical) is the Cartesian one", x[k], w[k], 1e-9);
            ensure_eq("Apparent::to_astrometric (spherical) is the Cartesian one", y[k], b[k], 1e-9);
        }
    }
    fn vc_p06_deflection() {
        let (lon, lat) = any_lonlat();
        let (s, q, rs) = (unit(lon, lat), any_q(lon, lat, 3.1415), real("Schwarzschild radius", 1e-13, 1e-6));
        let (x, w) = (dir(&body_deflection::<ICRS>(direction(s), disp(q), AstronomicalUnits::new(rs))), bend(s, q, rs));
        for k in 0..3 {
            ensure_eq("a light ray bends by rs/(|q|(1+s.q)) away from the body", x[k], w[k], 1e-12);
        }
        ensure_eq("the deflected direction has unit length", dot(x, x), 1.0, 1e-11);
        let m = dot(q, q).sqrt();
        let (c, f) = (dot(s, q) / m, rs / m / (1.0 + dot(s, q) / m));
        ensure_eq("the deflected direction stays on the source's side", dot(x, s) * (1.0 + f * f * (1.0 - c * c)).sqrt(), 1.0, 1e-11);
    }
    fn vc_p06_deflection_bodies() {
        let (s, q) = (any_dir(), [real("q x", -50.0, 50.0), real("q y", -50.0, 50.0), real("q z", -50.0, 50.0)]);
        let d: Direction<ICRS> = direction(s);
        let x = dir(&solar_deflection(d, disp(q)));
        let j = dir(&jupiter_deflection(d, disp(q)));
        let k6 = dir(&saturn_deflection(d, disp(q)));
        let w = |rs: f64| dir(&body_deflection(d, disp(q), AstronomicalUnits::new(rs)));
        let (a, b, c) = (w(RS_SUN), w(RS_SUN / 1047.348644), w(RS_SUN / 3497.9018));
        for k in 0..3 {
            ensure_eq("the Sun deflects with its Schwarzschild radius", x[k], a[k], 1e-14);
            ensure_eq("Jupiter deflects with its Schwarzschild radius", j[k], b[k], 1e-16);
            ensure_eq("Saturn deflects with its Schwarzschild radius", k6[k], c[k], 1e-16);
        }
    }
    fn vc_p06_deflection_none() {
        let (s, rs) = (any_dir(), real("Schwarzschild radius", -1.0, 1.0));
        let q = [real("q x", -50.0, 50.0), real("q y", -50.0, 50.0), real("q z", -50.0, 50.0)];
        let d: Direction<ICRS> = direction(s);
        let x = if rs <= 0.0 { body_deflection(d, disp(q), AstronomicalUnits::new(rs)) } else { body_deflection(d, disp([0.0, 0.0, 0.0]), AstronomicalUnits::new(rs)) };
        let x = dir(&x);
        for k in 0..3 {
            ensure_eq("no mass or no distance means no deflection", x[k], s[k], 0.0);
        }
    }
    fn vc_p06_deflection_total() {
        let v = |a, b, c| [real(a, -50.0, 50.0), real(b, -50.0, 50.0), real(c, -50.0, 50.0)];
        let (s, a, b, c) = (any_dir(), v("ax", "ay", "az"), v("bx", "by", "bz"), v("cx", "cy", "cz"));
        let d: Direction<ICRS> = direction(s);
        let x = dir(&full_planetary_deflection(d, disp(a), disp(b), disp(c)));
        let w = dir(&saturn_deflection(jupiter_deflection(solar_deflection(d, disp(a)), disp(b)), disp(c)));
        for k in 0..3 {
            ensure_eq("the full deflection is the Sun's, Jupiter's and Saturn's together", x[k], w[k], 1e-12);
        }
    }
    fn vc_p06_deflection_angle() {
        let (t, r) = (real("elongation", 0.01, 3.14159), real("distance", 0.01, 100.0));
        // the body lies along +x, the source at the elongation t from it
        let q = [-r, 0.0, 0.0];
        let x = dir(&solar_deflection::<ICRS>(direction([t.cos(), t.sin(), 0.0]), disp(q)));
        let m = solar_deflection_magnitude(Radians::new(t), AstronomicalUnits::new(r)).value() * std::f64::consts::PI / 648000.0;
        let (along, across) = (x[0] * t.cos() + x[1] * t.sin(), x[1] * t.cos() - x[0] * t.sin());
        ensure_eq("the deflection points away from the body by (rs/R) cot(elongation/2)", across, m * along, 1e-13);
        ensure_eq("the deflection magnitude is (rs/R) cot(elongation/2)", m * (t / 2.0).sin(), RS_SUN / r * (t / 2.0).cos(), 1e-14);
    }
    fn vc_p06_deflection_inverse() {
        let (s, q) = (any_dir(), [real("q x", -50.0, 50.0), real("q y", -50.0, 50.0), real("q z", -50.0, 50.0)]);
        let d: Direction<ICRS> = direction(s);
        let (x, a) = (dir(&solar_deflection_inverse(d, disp(q))), dir(&solar_deflection(d, disp(q))));
        let w: [f64; 3] = std::array::from_fn(|k| s[k] - (a[k] - s[k]));
        let n = dot(w, w).sqrt();
        for k in 0..3 {
            ensure_eq("removing the deflection takes back the shift the deflection adds", x[k], w[k] / n, 1e-12);
        }
    }
    fn vc_p06_proper_motion() {
        let (ra, dec) = (real("ra", 0.0, 360.0), real("dec", -89.9, 89.9));
        let (ma, md) = (real("mu ra", -0.01, 0.01), real("mu dec", -0.01, 0.01));
        let (jd, r) = (real("jd", 2415020.5, 2488070.5), real("distance", 0.1, 1e9));
        type R = Per<Degree, Year>;
        let pos = || spherical::Position::<Geocentric, EquatorialMeanJ2000, AstronomicalUnit>::new(Degrees::new(ra), Degrees::new(dec), r);
        let t = (jd - 2451545.0) / 365.25;
        let a = set_proper_motion_since_j2000(pos(), ProperMotion::from_mu_alpha(Quantity::<R>::new(ma), Quantity::<R>::new(md)), JulianDate::new(jd)).unwrap();
        let x = unit(a.azimuth.value().to_radians(), a.polar.value().to_radians());
        let w = unit((ra + ma * t).to_radians(), (dec + md * t).to_radians());
        for k in 0..3 {
            ensure_eq("proper motion moves right ascension and declination at the given rates", x[k], w[k], 1e-9);
        }
        ensure_eq("proper motion keeps the distance", a.distance.value(), r, 0.0);
    }
    fn vc_p06_proper_motion_star() {
        let (ra, dec) = (real("ra", 0.0, 360.0), real("dec", -89.0, 89.0));
        let (ma, md) = (real("mu ra*", -0.01, 0.01), real("mu dec", -0.01, 0.01));
        let jd = real("jd", 2415020.5, 2488070.5);
        type R = Per<Degree, Year>;
        let pos = || spherical::Position::<Geocentric, EquatorialMeanJ2000, AstronomicalUnit>::new(Degrees::new(ra), Degrees::new(dec), 1.0);
        let t = (jd - 2451545.0) / 365.25;
        let a = set_proper_motion_since_j2000(pos(), ProperMotion::from_mu_alpha_star(Quantity::<R>::new(ma), Quantity::<R>::new(md)), JulianDate::new(jd)).unwrap();
        let x = unit(a.azimuth.value().to_radians(), a.polar.value().to_radians());
        let w = unit((ra + ma / dec.to_radians().cos() * t).to_radians(), (dec + md * t).to_radians());
        for k in 0..3 {
            ensure_eq("catalogue rates in right ascension are divided by cos(dec)", x[k], w[k], 1e-9);
        }
    }
    fn vc_p06_proper_motion_pole() {
        let pole = if flag("south") { -90.0 } else { 90.0 };
        type R = Per<Degree, Year>;
        let pos = || spherical::Position::<Geocentric, EquatorialMeanJ2000, AstronomicalUnit>::new(Degrees::new(real("ra", 0.0, 360.0)), Degrees::new(pole), 1.0);
        let m = ProperMotion::from_mu_alpha_star(Quantity::<R>::new(real("mu ra*", -0.01, 0.01)), Quantity::<R>::new(0.0));
        ensure("a catalogue rate at the pole is refused", set_proper_motion_since_j2000(pos(), m, JulianDate::new(2451000.0)).is_err());
        let s = StarSpaceMotion { pm_ra_cos_dec: Quantity::new(1.0), pm_dec: Quantity::new(1.0), parallax: MilliArcseconds::new(10.0), radial_velocity: Quantity::new(0.0) };
        ensure("space motion at the pole is refused", propagate_space_motion(pos(), s, JulianDate::new(2451000.0), JulianDate::new(2451545.0)).is_err());
    }
    fn vc_p06_space_motion() {
        let (ra, dec) = (real("ra", 0.0, 360.0), real("dec", -89.0, 89.0));
        let (ma, md) = (real("mu ra*", -11000.0, 11000.0), real("mu dec", -11000.0, 11000.0));
        let (plx, rv) = (real("parallax", 0.01, 1000.0), real("radial velocity", -1000.0, 1000.0));
        let (jd, j0) = (real("jd", 2415020.5, 2488070.5), real("epoch", 2433282.5, 2469807.5));
        let pos = spherical::Position::<Geocentric, EquatorialMeanJ2000, AstronomicalUnit>::new(Degrees::new(ra), Degrees::new(dec), 1.0);
        let s = StarSpaceMotion { pm_ra_cos_dec: Quantity::new(ma), pm_dec: Quantity::new(md), parallax: MilliArcseconds::new(plx), radial_velocity: Quantity::new(rv) };
        let out = propagate_space_motion(pos, s, JulianDate::new(jd), JulianDate::new(j0)).unwrap();
        let p = MilliArcseconds::new(plx).to::<Radian>().value();
        let (ma, md) = (s.pm_ra_cos_dec.to::<Per<Radian, Year>>().value(), s.pm_dec.to::<Per<Radian, Year>>().value());
        let v = s.radial_velocity.to::<Per<AstronomicalUnit, Year>>().value();
        let t = (JulianDate::new(jd).raw() - JulianDate::new(j0).raw()).value() / 365.25;
        let (sa, ca) = ra.to_radians().sin_cos();
        let (sd, cd) = dec.to_radians().sin_cos();
        let (r, ea, ed) = ([cd * ca, cd * sa, sd], [-sa, ca, 0.0], [-sd * ca, -sd * sa, cd]);
        // the star moves along a straight line at constant velocity; everything is scaled by the parallax
        let w: [f64; 3] = std::array::from_fn(|k| r[k] + t * (ma * ea[k] + md * ed[k] + v * p * r[k]));
        let n = dot(w, w).sqrt();
        let x = unit(out.azimuth.value().to_radians(), out.polar.value().to_radians());
        for k in 0..3 {
            ensure_eq("space motion is a straight line at constant velocity (direction)", x[k] * n, w[k], 1e-9);
        }
        ensure_eq("space motion is a straight line at constant velocity (distance)", out.distance.value() * p, n, 1e-9);
    }
    fn vc_p06_space_motion_bad_parallax() {
        let (ra, dec) = (real("ra", 0.0, 360.0), real("dec", -89.0, 89.0));
        let pos = spherical::Position::<Geocentric, EquatorialMeanJ2000, AstronomicalUnit>::new(Degrees::new(ra), Degrees::new(dec), 1.0);
        let s = StarSpaceMotion { pm_ra_cos_dec: Quantity::new(1.0), pm_dec: Quantity::new(1.0), parallax: MilliArcseconds::new(real("parallax", -1000.0, 0.0)), radial_velocity: Quantity::new(0.0) };
        ensure("a star without a positive parallax is refused", propagate_space_motion_since_j2000(pos, s, JulianDate::new(real("jd", 2415020.5, 2488070.5))).is_err());
    }
    fn vc_p06_space_motion_j2000() {
        let (ra, dec, jd) = (real("ra", 0.0, 360.0), real("dec", -89.0, 89.0), real("jd", 2415020.5, 2488070.5));
        let pos = || spherical::Position::<Geocentric, EquatorialMeanJ2000, AstronomicalUnit>::new(Degrees::new(ra), Degrees::new(dec), 1.0);
        let s = StarSpaceMotion { pm_ra_cos_dec: Quantity::new(real("mu ra*", -11000.0, 11000.0)), pm_dec: Quantity::new(real("mu dec", -11000.0, 11000.0)), parallax: MilliArcseconds::new(real("parallax", 0.01, 1000.0)), radial_velocity: Quantity::new(real("radial velocity", -1000.0, 1000.0)) };
        let a = propagate_space_motion_since_j2000(pos(), s, JulianDate::new(jd)).unwrap();
        let b = propagate_space_motion(pos(), s, JulianDate::new(jd), JulianDate::new(2451545.0)).unwrap();
        ensure_eq("motion since J2000 is motion from the epoch J2000 (right ascension)", a.azimuth.value(), b.azimuth.value(), 0.0);
        ensure_eq("motion since J2000 is motion from the epoch J2000 (declination)", a.polar.value(), b.polar.value(), 0.0);
        ensure_eq("motion since J2000 is motion from the epoch J2000 (distance)", a.distance.value(), b.distance.value(), 0.0);
    }
}
