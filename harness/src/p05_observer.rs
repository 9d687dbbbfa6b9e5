//! P05: what an observer on the Earth sees: parallax, local horizon, ecliptic of date.
use crate::models::*;
use crate::rt::*;
use siderust::astro::nutation::{Iau2006A, NutationModel};
use siderust::astro::era::earth_rotation_angle;
use siderust::astro::{cio, earth_rotation, polar_motion, precession, sidereal};
use siderust::coordinates::cartesian::{Direction, Position};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::transform::ecliptic_of_date::*;
use siderust::coordinates::transform::horizontal::*;
use siderust::coordinates::transform::{to_topocentric_with_ctx, Transform, TransformCenter, TransformFrame};
use siderust::qtty::*;
use siderust::time::JulianDate;

fn arr<C: ReferenceCenter, F: ReferenceFrame, U: LengthUnit>(p: &Position<C, F, U>) -> [f64; 3] {
    [p.x().value(), p.y().value(), p.z().value()]
}
fn dir<F: ReferenceFrame>(d: &Direction<F>) -> [f64; 3] {
    [d.x(), d.y(), d.z()]
}
fn dot(a: [f64; 3], b: [f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn site() -> Geodetic<ECEF> {
    Geodetic::<ECEF>::new_raw(Degrees::new(real("site lon", -180.0, 180.0)), Degrees::new(real("site lat", -90.0, 90.0)), Meters::new(real("site height", -500.0, 9000.0)))
}
fn unit(lon: f64, lat: f64) -> [f64; 3] {
    [lat.cos() * lon.cos(), lat.cos() * lon.sin(), lat.sin()]
}
/// a direction given by its longitude and latitude (radians)
fn any_dir() -> [f64; 3] {
    unit(real("lon", -3.2, 6.4), real("lat", -1.57, 1.57))
}
/// local North, East, Up of a site whose local sidereal time is theta, in equatorial axes
fn neu(s: &Geodetic<ECEF>, theta: f64) -> [[f64; 3]; 3] {
    let (sp, cp) = Radians::from(s.lat).value().sin_cos();
    let (st, ct) = theta.sin_cos();
    [[-sp * ct, -sp * st, cp], [-st, ct, 0.0], [cp * ct, cp * st, sp]]
}
fn gast(ut1: JulianDate, tt: JulianDate) -> f64 {
    let n = Iau2006A::nutation(tt);
    sidereal::gast_iau2006(ut1, tt, n.dpsi, n.mean_obliquity).value()
}
fn ut1() -> JulianDate {
    JulianDate::new(real("jd(UT1)", 2441500.0, 2461000.0))
}
fn same_site(a: &Geodetic<ECEF>, s: &Geodetic<ECEF>) {
    ensure_eq("the observing site is kept (longitude)", a.lon.value(), s.lon.value(), 0.0);
    ensure_eq("the observing site is kept (latitude)", a.lat.value(), s.lat.value(), 0.0);
    ensure_eq("the observing site is kept (height)", a.height.value(), s.height.value(), 0.0);
}
/// WGS84 Cartesian coordinates in metres
fn wgs84(s: &Geodetic<ECEF>) -> [f64; 3] {
    let f = 1.0 / 298.257223563;
    let e2 = f * (2.0 - f);
    let (sp, cp) = Radians::from(s.lat).value().sin_cos();
    let (sl, cl) = Radians::from(s.lon).value().sin_cos();
    let n = 6378137.0 / (1.0 - e2 * sp * sp).sqrt();
    let h = s.height.value();
    [(n + h) * cp * cl, (n + h) * cp * sl, (n * (1.0 - e2) + h) * sp]
}
macro_rules! parallax {
    ($jd:expr, $s:expr, $v:expr, $u:ident; $($f:ident),+) => {$(
        {
            let ctx = any_ctx();
            let g = Position::<Geocentric, $f, $u>::new($v[0], $v[1], $v[2]);
            let o = Position::<Geocentric, $f, $u>::new(0.0, 0.0, 0.0);
            let t: Position<Topocentric, $f, $u> = g.to_center_as::<AnyEph, AnyEop, Iau2006A>($s, $jd, &ctx);
            let t0: Position<Topocentric, $f, $u> = o.to_center_as::<AnyEph, AnyEop, Iau2006A>($s, $jd, &ctx);
            let w: Position<Topocentric, $f, $u> = to_topocentric_with_ctx::<$f, $u, _, _, Iau2006A>(&g, $s, $jd, &ctx);
            same_site(t.center_params(), &$s);
            let (x, x0, w) = (arr(&t), arr(&t0), arr(&w));
            for k in 0..3 {
                ensure_eq(concat!("geocentric->topocentric (", stringify!($f), ") subtracts one site vector from every position"), x[k], $v[k] + x0[k], 1e-9);
                ensure_eq(concat!("to_topocentric_with_ctx (", stringify!($f), ") is the same change"), w[k], x[k], 1e-9);
            }
            let b: Position<Geocentric, $f, $u> = t.to_center_as::<AnyEph, AnyEop, Iau2006A>((), $jd, &ctx);
            let b = arr(&b);
            for k in 0..3 {
                ensure_eq(concat!("geocentric->topocentric->geocentric (", stringify!($f), ")"), b[k], $v[k], 1e-9);
            }
        }
    )+};
}
fn any_vec(m: f64) -> [f64; 3] {
    [real("x", -m, m), real("y", -m, m), real("z", -m, m)]
}

fn mul(m: &[[f64; 3]; 3], v: [f64; 3]) -> [f64; 3] {
    [dot(m[0], v), dot(m[1], v), dot(m[2], v)]
}
fn mul_t(m: &[[f64; 3]; 3], v: [f64; 3]) -> [f64; 3] {
    std::array::from_fn(|k| m[0][k] * v[0] + m[1][k] * v[1] + m[2][k] * v[2])
}
fn place(lon: f64, lat: f64) -> Geodetic<ECEF> {
    Geodetic::<ECEF>::new_raw(Degrees::new(lon), Degrees::new(lat), Meters::new(0.0))
}
fn site_vec(s: Geodetic<ECEF>, jd: JulianDate, ctx: &siderust::coordinates::transform::AstroContext<AnyEph, AnyEop>) -> [f64; 3] {
    let o = Position::<Geocentric, EquatorialMeanJ2000, Meter>::new(0.0, 0.0, 0.0);
    let t: Position<Topocentric, EquatorialMeanJ2000, Meter> = o.to_center_as::<AnyEph, AnyEop, Iau2006A>(s, jd, ctx);
    arr(&t).map(|x| -x)
}

contracts! {
    fn vc_p05_wgs84() {
        let s = site();
        let p: Position<Geocentric, ECEF, Meter> = s.to_cartesian();
        let k: Position<Geocentric, ECEF, Kilometer> = s.to_cartesian();
        let (e, p, k) = (wgs84(&s), arr(&p), arr(&k));
        for i in 0..3 {
            ensure_eq("geodetic site to Cartesian is the WGS84 ellipsoid (m)", p[i], e[i], 1e-5);
            ensure_eq("geodetic site to Cartesian is the WGS84 ellipsoid (km)", k[i] * 1e3, e[i], 1e-5);
        }
    }
    fn vc_p05_parallax() {
        let (jd, s) = (epoch(), site());
        let v = any_vec(1e6);
        parallax!(jd, s, v, Kilometer; EquatorialMeanJ2000, ICRS, EclipticMeanJ2000);
        parallax!(jd, s, v, Meter; EquatorialMeanJ2000);
    }
    /// the site vector is a fixed (for the instant) linear image of the WGS84 components of the site
    fn vc_p05_site_linear() {
        let (jd, s) = (epoch(), site());
        let ctx = any_ctx();
        let (a, b) = (6378137.0, wgs84(&place(0.0, 90.0))[2]);
        let c = [site_vec(place(0.0, 0.0), jd, &ctx).map(|x| x / a), site_vec(place(90.0, 0.0), jd, &ctx).map(|x| x / a), site_vec(place(0.0, 90.0), jd, &ctx).map(|x| x / b)];
        let w = wgs84(&s);
        let v = site_vec(s, jd, &ctx);
        for k in 0..3 {
            ensure_eq("site vector is built from the WGS84 components of the site", v[k], w[0] * c[0][k] + w[1] * c[1][k] + w[2] * c[2][k], 1e-3);
        }
    }
    /// ... through the frame bias, the CIO matrix with the pole offsets of the provider, the Earth rotation angle at its UT1
    /// and its polar motion (each a rotation, decided by P02/P04)
    fn vc_p05_site_chain() {
        let (jd, s) = (epoch(), site());
        let ctx = any_ctx();
        let v = site_vec(s, jd, &ctx);
        let i: Position<Geocentric, ECEF, Meter> = s.to_cartesian();
        let e = match earth_rotation::try_jd_utc_from_tt(jd) {
            Ok(u) => ctx.eop_at(u),
            Err(_) => Default::default(),
        };
        let n = Iau2006A::nutation(jd);
        let (dx, dy) = (Radians::from(e.dx).value(), Radians::from(e.dy).value());
        let none = dx == 0.0 && dy == 0.0;
        let (dpsi, deps) = if none { (n.dpsi.value(), n.deps.value()) } else { (n.dpsi.value() + dx / n.mean_obliquity.value().sin(), n.deps.value() + dy) };
        let c = cio::cip_cio(jd, Radians::new(dpsi), Radians::new(deps));
        let q = *cio::gcrs_to_cirs_matrix(c.x, c.y, c.s).as_matrix();
        let w = *polar_motion::polar_motion_matrix_from_eop(e.xp, e.yp, jd).as_matrix();
        let b = *siderust::coordinates::transform::providers::frame_rotation_as::<ICRS, EquatorialMeanJ2000, Iau2006A, _, _>(jd, &ctx).as_matrix();
        let era = earth_rotation_angle(earth_rotation::jd_ut1_from_tt_eop(jd, &e)).value();
        let (se, ce) = era.sin_cos();
        let t = mul_t(&w, arr(&i));
        // direction of the turn: see vc_p05_site_turns
        let t = [ce * t[0] + se * t[1], ce * t[1] - se * t[0], t[2]];
        let t = mul(&b, mul(&q, t));
        for k in 0..3 {
            ensure_eq("site vector: polar motion, Earth rotation, CIO and frame bias of the instant and provider", v[k] / 6.4e6, t[k] / 6.4e6, 1e-9);
        }
    }
    /// all centers' site vectors are one physical vector expressed in the frames
    fn vc_p05_site_frames() {
        let (jd, s) = (epoch(), site());
        let ctx = any_ctx();
        let v = |t: [f64; 3]| t;
        let o = Position::<Geocentric, EquatorialMeanJ2000, Kilometer>::new(0.0, 0.0, 0.0);
        let a: Position<Topocentric, EquatorialMeanJ2000, Kilometer> = o.to_center_as::<AnyEph, AnyEop, Iau2006A>(s, jd, &ctx);
        let q = Position::<Geocentric, EquatorialMeanJ2000, Kilometer>::from_array_origin(arr(&a).map(Kilometers::new));
        let i: Position<Geocentric, ICRS, Kilometer> = TransformFrame::to_frame(&q);
        let e: Position<Geocentric, EclipticMeanJ2000, Kilometer> = TransformFrame::to_frame(&q);
        let oi = Position::<Geocentric, ICRS, Kilometer>::new(0.0, 0.0, 0.0);
        let oe = Position::<Geocentric, EclipticMeanJ2000, Kilometer>::new(0.0, 0.0, 0.0);
        let ti: Position<Topocentric, ICRS, Kilometer> = oi.to_center_as::<AnyEph, AnyEop, Iau2006A>(s, jd, &ctx);
        let te: Position<Topocentric, EclipticMeanJ2000, Kilometer> = oe.to_center_as::<AnyEph, AnyEop, Iau2006A>(s, jd, &ctx);
        for k in 0..3 {
            ensure_eq("site vector is the same in ICRS", v(arr(&ti))[k], arr(&i)[k], 1e-6);
            ensure_eq("site vector is the same in the ecliptic frame", arr(&te)[k], arr(&e)[k], 1e-6);
        }
    }
    fn vc_p05_horizontal() {
        let (u, tt, s) = (ut1(), epoch(), site());
        let d = any_dir();
        let h = Direction::<EquatorialTrueOfDate>::new(d[0], d[1], d[2]).to_horizontal(&u, &tt, &s);
        let b = neu(&s, gast(u, tt) + Radians::from(s.lon).value());
        let h = dir(&h);
        ensure_eq("horizontal x is the component along local North", h[0], dot(d, b[0]), 1e-9);
        ensure_eq("horizontal y is the component along local East", h[1], dot(d, b[1]), 1e-9);
        ensure_eq("horizontal z is the component along local Up", h[2], dot(d, b[2]), 1e-9);
    }
    fn vc_p05_from_horizontal() {
        let (u, tt, s) = (ut1(), epoch(), site());
        let d = any_dir();
        let q = dir(&Direction::<Horizontal>::new(d[0], d[1], d[2]).to_equatorial(&u, &tt, &s));
        let b = neu(&s, gast(u, tt) + Radians::from(s.lon).value());
        for k in 0..3 {
            ensure_eq("equatorial direction = North, East and Up components put back together", q[k], d[0] * b[0][k] + d[1] * b[1][k] + d[2] * b[2][k], 1e-9);
        }
    }
    fn vc_p05_positions() {
        let (u, tt, s) = (ut1(), epoch(), site());
        let (d, r) = (any_dir(), real("r", 1.0, 1e9));
        let b = neu(&s, gast(u, tt) + Radians::from(s.lon).value());
        let p = Position::<Topocentric, EquatorialTrueOfDate, Kilometer>::from_array(s, d.map(|x| Kilometers::new(r * x)));
        let h = p.to_horizontal_position(&u, &tt);
        same_site(h.center_params(), &s);
        let q = Position::<Topocentric, Horizontal, Kilometer>::from_array(s, d.map(|x| Kilometers::new(r * x))).to_equatorial_position(&u, &tt);
        same_site(q.center_params(), &s);
        let (h, q) = (arr(&h), arr(&q));
        for k in 0..3 {
            ensure_eq("horizontal position: local North, East, Up components at the same distance", h[k] / r, dot(d, b[k]), 1e-9);
            ensure_eq("equatorial position from a horizontal one, same distance", q[k] / r, d[0] * b[0][k] + d[1] * b[1][k] + d[2] * b[2][k], 1e-9);
        }
    }
    fn vc_p05_mean_horizontal() {
        let (tt, s) = (epoch(), site());
        let (d, r) = (any_dir(), real("r", 1.0, 1e9));
        let b = neu(&s, siderust::astro::earth_rotation::gmst_from_tt(tt).value() + Radians::from(s.lon).value());
        let p = Position::<Topocentric, EquatorialMeanOfDate, Kilometer>::from_array(s, d.map(|x| Kilometers::new(r * x)));
        let h: Position<Topocentric, Horizontal, Kilometer> = p.transform(tt);
        same_site(h.center_params(), &s);
        let h = arr(&h);
        for k in 0..3 {
            ensure_eq("mean-of-date to horizontal: local North, East, Up components at the same distance", h[k] / r, dot(d, b[k]), 1e-9);
        }
    }
    fn vc_p05_mean_from_horizontal() {
        let (tt, s) = (epoch(), site());
        let (d, r) = (any_dir(), real("r", 1.0, 1e9));
        let b = neu(&s, siderust::astro::earth_rotation::gmst_from_tt(tt).value() + Radians::from(s.lon).value());
        let q = Position::<Topocentric, Horizontal, Kilometer>::from_array(s, d.map(|x| Kilometers::new(r * x)));
        let q: Position<Topocentric, EquatorialMeanOfDate, Kilometer> = q.transform(tt);
        same_site(q.center_params(), &s);
        let q = arr(&q);
        for k in 0..3 {
            ensure_eq("horizontal to mean-of-date: components put back together, same distance", q[k] / r, d[0] * b[0][k] + d[1] * b[1][k] + d[2] * b[2][k], 1e-9);
        }
    }
    fn vc_p05_gmst() {
        let tt = epoch();
        let g = siderust::astro::earth_rotation::gmst_from_tt(tt).value();
        let u = siderust::astro::earth_rotation::jd_ut1_from_tt(tt);
        ensure_eq("mean local sidereal time uses GMST at the UT1 of the instant", g, sidereal::gmst_iau2006(u, tt).value(), 0.0);
    }
    fn vc_p05_ecliptic_of_date_mean() {
        let tt = epoch();
        let d = any_dir();
        let m = *precession::mean_equatorial_to_ecliptic_of_date_matrix(tt).as_matrix();
        let a = dir(&Direction::<EquatorialMeanOfDate>::new(d[0], d[1], d[2]).to_ecliptic_of_date(&tt));
        for k in 0..3 {
            ensure_eq("mean equator -> ecliptic of date is the rotation by the mean obliquity", a[k], dot(m[k], d), 1e-9);
        }
    }
    fn vc_p05_ecliptic_of_date_icrs() {
        let tt = epoch();
        let d = any_dir();
        let g = *precession::gcrs_to_ecliptic_of_date_matrix(tt).as_matrix();
        let b = dir(&Direction::<ICRS>::new(d[0], d[1], d[2]).to_ecliptic_of_date(&tt));
        for k in 0..3 {
            ensure_eq("ICRS -> ecliptic of date is the precession rotation", b[k], dot(g[k], d), 1e-9);
        }
    }
    fn vc_p05_ecliptic_of_date_gcrs() {
        let tt = epoch();
        let d = any_dir();
        let g = *precession::gcrs_to_ecliptic_of_date_matrix(tt).as_matrix();
        let c = dir(&Direction::<GCRS>::new(d[0], d[1], d[2]).to_ecliptic_of_date(&tt));
        for k in 0..3 {
            ensure_eq("GCRS -> ecliptic of date is the precession rotation", c[k], dot(g[k], d), 1e-9);
        }
    }
    fn vc_p05_mean_of_ecliptic_of_date() {
        let tt = epoch();
        let d = any_dir();
        let m = *precession::mean_equatorial_to_ecliptic_of_date_matrix(tt).as_matrix();
        let f = dir(&Direction::<EclipticTrueOfDate>::new(d[0], d[1], d[2]).to_equatorial_mean_of_date(&tt));
        for k in 0..3 {
            ensure_eq("ecliptic of date -> mean equator is the inverse rotation", f[k], m[0][k] * d[0] + m[1][k] * d[1] + m[2][k] * d[2], 1e-9);
        }
    }
    fn vc_p05_icrs_of_ecliptic_of_date() {
        let tt = epoch();
        let d = any_dir();
        let g = *precession::gcrs_to_ecliptic_of_date_matrix(tt).as_matrix();
        let h = dir(&Direction::<EclipticTrueOfDate>::new(d[0], d[1], d[2]).to_icrs(&tt));
        for k in 0..3 {
            ensure_eq("ecliptic of date -> ICRS is the inverse rotation", h[k], g[0][k] * d[0] + g[1][k] * d[1] + g[2][k] * d[2], 1e-9);
        }
    }
    /// known finding: the site vector is not the ITRF site turned by the crate's own frame rotation
    fn vc_p05_site_turns() {
        let jd = JulianDate::new(2451545.25);
        let s = place(real("site lon", -180.0, 180.0), 0.0);
        let ctx = any_ctx();
        let i: Position<Geocentric, ECEF, Meter> = s.to_cartesian();
        let i = arr(&i);
        let v = site_vec(s, jd, &ctx);
        let m = *siderust::coordinates::transform::providers::frame_rotation_as::<ITRF, EquatorialMeanJ2000, Iau2006A, _, _>(jd, &ctx).as_matrix();
        ensure_eq("site vector is the ITRF site turned by the frame rotation", v[1] / 6.4e6, dot(m[1], i) / 6.4e6, 1e-6);
    }
}
