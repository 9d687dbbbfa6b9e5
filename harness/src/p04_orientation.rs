//! P04: the rotations equal the published definitions (IAU 2006 precession, CIO-based Earth rotation, WGCCRE body frames),
//! rebuilt here from the passive elementary rotations R1, R2, R3 and the published coefficients.
use crate::models::*;
use crate::rt::*;
use siderust::astro::nutation::Iau2006A;
use siderust::astro::{cio, era, polar_motion, precession, sidereal};
use siderust::coordinates::frames::planetary::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::transform::providers::*;
use siderust::qtty::*;
use siderust::time::JulianDate;

type M = [[f64; 3]; 3];
const AS: f64 = std::f64::consts::PI / 648000.0;
const PI: f64 = std::f64::consts::PI;

fn rot<A, B>(jd: JulianDate) -> M
where
    (): FrameRotationProvider<A, B>,
{
    *frame_rotation_as::<A, B, Iau2006A, _, _>(jd, &any_ctx()).as_matrix()
}
fn cent(jd: JulianDate) -> f64 {
    (jd.raw().value() - 2451545.0) / 36525.0
}
/// passive rotations (the axes turn by +a)
fn r1(a: f64) -> M {
    let (s, c) = a.sin_cos();
    [[1.0, 0.0, 0.0], [0.0, c, s], [0.0, -s, c]]
}
fn r2(a: f64) -> M {
    let (s, c) = a.sin_cos();
    [[c, 0.0, -s], [0.0, 1.0, 0.0], [s, 0.0, c]]
}
fn r3(a: f64) -> M {
    let (s, c) = a.sin_cos();
    [[c, s, 0.0], [-s, c, 0.0], [0.0, 0.0, 1.0]]
}
fn mul(a: M, b: M) -> M {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j];
        }
    }
    r
}
fn tr(m: M) -> M {
    [[m[0][0], m[1][0], m[2][0]], [m[0][1], m[1][1], m[2][1]], [m[0][2], m[1][2], m[2][2]]]
}
fn same(l: &'static str, a: M, b: M, tol: f64) {
    for i in 0..3 {
        for j in 0..3 {
            ensure_eq(l, a[i][j], b[i][j], tol);
        }
    }
}
/// Fukushima-Williams precession with extra nutation
fn npb(jd: JulianDate, dpsi: f64, deps: f64) -> M {
    let (g, f, p, e) = precession::precession_fw_angles(jd);
    mul(mul(r1(-(e.value() + deps)), r3(-(p.value() + dpsi))), mul(r1(f.value()), r3(g.value())))
}
fn bias() -> M {
    mul(mul(r1(-84381.406 * AS), r3(0.041775 * AS)), mul(r1(84381.412819 * AS), r3(-0.052928 * AS)))
}
/// nutation with celestial pole offsets of the date
fn nut(jd: JulianDate) -> (f64, f64, f64) {
    use siderust::astro::nutation::NutationModel;
    let n = Iau2006A::nutation(jd);
    (n.dpsi.value(), n.deps.value(), n.mean_obliquity.value())
}
fn nut_eop(jd: JulianDate) -> (f64, f64) {
    let (dpsi, deps, eps) = nut(jd);
    let eop = any_ctx().eop_at_tt(jd);
    let (x, y) = (Radians::from(eop.dx).value(), Radians::from(eop.dy).value());
    if x == 0.0 && y == 0.0 {
        return (dpsi, deps);
    }
    (dpsi + x / eps.sin(), deps + y)
}

contracts! {
    fn vc_p04_precession_angles() {
        let jd = epoch();
        let t = cent(jd);
        let (g, f, p, e) = precession::precession_fw_angles(jd);
        let poly = |c: [f64; 6]| c[0] + t * (c[1] + t * (c[2] + t * (c[3] + t * (c[4] + t * c[5]))));
        ensure_eq("FW angle gamma_bar (IAU 2006, arcsec)", g.value() / AS, poly([-0.052928, 10.556378, 0.4932044, -0.00031238, -0.000002788, 0.0000000260]), 1e-9);
        ensure_eq("FW angle phi_bar (IAU 2006, arcsec)", f.value() / AS, poly([84381.412819, -46.811016, 0.0511268, 0.00053289, -0.000000440, -0.0000000176]), 1e-9);
        ensure_eq("FW angle psi_bar (IAU 2006, arcsec)", p.value() / AS, poly([-0.041775, 5038.481484, 1.5584175, -0.00018522, -0.000026452, -0.0000000148]), 1e-9);
        ensure_eq("mean obliquity eps_A (IAU 2006, arcsec)", e.value() / AS, poly([84381.406, -46.836769, -0.0001831, 0.00200340, -0.000000576, -0.0000000434]), 1e-9);
        ensure_eq("mean_obliquity_iau2006 is eps_A", precession::mean_obliquity_iau2006(jd).value(), e.value(), 1e-14);
    }
    fn vc_p04_precession_matrices() {
        let jd = epoch();
        let (_, _, _, e) = precession::precession_fw_angles(jd);
        let p = npb(jd, 0.0, 0.0);
        same("ICRS->EquatorialMeanOfDate = R1(-eps)R3(-psi)R1(phi)R3(gamma)", rot::<ICRS, EquatorialMeanOfDate>(jd), p, 1e-13);
        let eps = e.value();
        same("ICRS->ecliptic of date = R1(eps_A) * precession", *precession::gcrs_to_ecliptic_of_date_matrix(jd).as_matrix(), mul(r1(eps), p), 1e-13);
        same("mean equator->ecliptic of date = R1(eps_A)", *precession::mean_equatorial_to_ecliptic_of_date_matrix(jd).as_matrix(), r1(eps), 1e-13);
        same("ecliptic of date->ICRS undoes", *precession::ecliptic_of_date_to_gcrs_matrix(jd).as_matrix(), tr(mul(r1(eps), p)), 1e-13);
        same("ecliptic of date->mean equator undoes", *precession::ecliptic_of_date_to_mean_equatorial_matrix(jd).as_matrix(), r1(-eps), 1e-13);
    }
    fn vc_p04_frame_bias() {
        let jd = epoch();
        let b = bias();
        same("ICRS->EquatorialMeanJ2000 is the IAU 2006 frame bias", rot::<ICRS, EquatorialMeanJ2000>(jd), b, 1e-13);
        same("EquatorialMeanJ2000->ICRS removes it", rot::<EquatorialMeanJ2000, ICRS>(jd), tr(b), 1e-13);
        // first order: xi0, eta0, dalpha0 of the IERS conventions
        ensure_eq("bias: dalpha0 = -0.0146 arcsec", b[0][1] / AS, -0.0146, 1e-4);
        ensure_eq("bias: xi0 = -0.0166170 arcsec", b[0][2] / AS, 0.0166170, 1e-5);
        ensure_eq("bias: eta0 = -0.0068192 arcsec", b[1][2] / AS, 0.0068192, 1e-5);
        same("EquatorialMeanJ2000->EclipticMeanJ2000 = R1(84381.406 arcsec)", rot::<EquatorialMeanJ2000, EclipticMeanJ2000>(jd), r1(84381.406 * AS), 1e-13);
        same("ICRS->EclipticMeanJ2000 = R1(84381.406 arcsec) * bias", rot::<ICRS, EclipticMeanJ2000>(jd), mul(r1(84381.406 * AS), b), 1e-13);
    }
    fn vc_p04_galactic() {
        let jd = epoch();
        let g = rot::<Galactic, ICRS>(jd);
        let dir = |ra: f64, de: f64| { let (a, d) = (ra.to_radians(), de.to_radians()); [d.cos() * a.cos(), d.cos() * a.sin(), d.sin()] };
        let (pole, center) = (dir(192.85948, 27.12825), dir(266.40500, -28.93617));
        for k in 0..3 {
            ensure_eq("galactic pole at RA 192.85948 Dec +27.12825", g[k][2], pole[k], 1e-6);
            ensure_eq("galactic center at RA 266.40500 Dec -28.93617", g[k][0], center[k], 2e-6);
        }
    }
    fn vc_p04_fk4() {
        let jd = epoch();
        // B1950 -> J2000 direction matrix (Standish 1982, Aoki et al. 1983)
        let x = [[0.9999256794956877, -0.0111814832204662, -0.0048590038153592],
            [0.0111814832391717, 0.9999374848933135, -0.0000271625947142],
            [0.0048590037723143, -0.0000271702937440, 0.9999881946023742]];
        same("FK4B1950->EquatorialMeanJ2000 is the published B1950 to J2000 matrix", rot::<FK4B1950, EquatorialMeanJ2000>(jd), x, 1e-9);
        same("FK4B1950->ICRS removes the frame bias", rot::<FK4B1950, ICRS>(jd), mul(tr(bias()), x), 1e-9);
    }
    fn vc_p04_precession_j2000() {
        let jd = epoch();
        same("EquatorialMeanJ2000->EquatorialMeanOfDate = precession without bias", rot::<EquatorialMeanJ2000, EquatorialMeanOfDate>(jd), mul(npb(jd, 0.0, 0.0), rot::<EquatorialMeanJ2000, ICRS>(jd)), 1e-13);
    }
    fn vc_p04_nutation() {
        let jd = epoch();
        let (dpsi, deps, eps) = nut(jd);
        same("EquatorialMeanOfDate->EquatorialTrueOfDate = R1(-eps-deps)R3(-dpsi)R1(eps)", rot::<EquatorialMeanOfDate, EquatorialTrueOfDate>(jd),
            mul(mul(r1(-(eps + deps)), r3(-dpsi)), r1(eps)), 1e-13);
        same("TEME->EquatorialTrueOfDate = R3(-dpsi cos eps)", rot::<TEME, EquatorialTrueOfDate>(jd), r3(-dpsi * eps.cos()), 1e-11);
        same("EquatorialMeanJ2000->EquatorialTrueOfDate = precession and nutation without bias", rot::<EquatorialMeanJ2000, EquatorialTrueOfDate>(jd), mul(npb(jd, dpsi, deps), rot::<EquatorialMeanJ2000, ICRS>(jd)), 1e-13);
    }
    fn vc_p04_angle_units() {
        let a = real("a", -1e9, 1e9);
        ensure_eq("milliarcseconds to radians", Radians::from(MilliArcseconds::new(a)).value(), a * 1e-3 * AS, 1e-12);
        ensure_eq("arcseconds to radians", Radians::from(Arcseconds::new(a)).value(), a * AS, 1e-9);
    }
    fn vc_p04_precession_nutation() {
        let jd = epoch();
        let (dpsi, deps) = nut_eop(jd);
        same("ICRS->EquatorialTrueOfDate = R1(-eps-deps)R3(-psi-dpsi)R1(phi)R3(gamma) with celestial pole offsets", rot::<ICRS, EquatorialTrueOfDate>(jd), npb(jd, dpsi, deps), 1e-12);
    }
    fn vc_p04_cip() {
        let jd = epoch();
        let (dpsi, deps) = (real("dpsi", -3e-4, 3e-4), real("deps", -3e-4, 3e-4));
        let (x, y) = cio::cip_xy(jd, Radians::new(dpsi), Radians::new(deps));
        let m = npb(jd, dpsi, deps);
        ensure_eq("CIP X is the ICRS x of the true pole of date", x.value(), m[2][0], 1e-13);
        ensure_eq("CIP Y is the ICRS y of the true pole of date", y.value(), m[2][1], 1e-13);
    }
    fn vc_p04_cio_locator() {
        let jd = epoch();
        let t = cent(jd);
        let (x, y) = (real("X", -0.03, 0.03), real("Y", -0.03, 0.03));
        let s = cio::cio_locator_s(jd, CipCoordinates::new(x), CipCoordinates::new(y));
        ensure_eq("CIO locator s + XY/2 (IERS polynomial part, arcsec)", (s.value() + 0.5 * x * y) / AS, 1e-6 * (94.0 + t * (3808.65 + t * (-122.68 - t * 72574.11))), 1e-8);
    }
    /// exact CIO-based matrix: M = R3(-s) [1-aX^2, -aXY, -X; -aXY, 1-aY^2, -Y; X, Y, 1-a(X^2+Y^2)], a = 1/(1+cos d)
    fn vc_p04_cirs_matrix() {
        let (x, y, s) = (real("X", -0.03, 0.03), real("Y", -0.03, 0.03), real("s", -1e-4, 1e-4));
        let r2 = x * x + y * y;
        assume(r2 > 1e-16);
        let m = *cio::gcrs_to_cirs_matrix(CipCoordinates::new(x), CipCoordinates::new(y), Radians::new(s)).as_matrix();
        let cd = (1.0 - r2).sqrt();
        let a = 1.0 / (1.0 + cd);
        let (ss, cs) = s.sin_cos();
        let q = [[1.0 - a * x * x, -a * x * y], [-a * x * y, 1.0 - a * y * y]];
        // block of the rotation that turns the CIRS x and y axes
        ensure_eq("CIRS x axis, x component", m[0][0], cs * q[0][0] - ss * q[1][0], 1e-12);
        ensure_eq("CIRS x axis, y component", m[0][1], cs * q[0][1] - ss * q[1][1], 1e-12);
        ensure_eq("CIRS y axis, x component", m[1][0], ss * q[0][0] + cs * q[1][0], 1e-12);
        ensure_eq("CIRS y axis, y component", m[1][1], ss * q[0][1] + cs * q[1][1], 1e-12);
        ensure_eq("CIRS pole tilt", m[2][2], cd, 1e-12);
        ensure_eq("CIRS z axis x component squared is X^2", m[2][0] * m[2][0], x * x, 1e-12);
        ensure_eq("CIRS z axis y component squared is Y^2", m[2][1] * m[2][1], y * y, 1e-12);
        ensure_eq("CIRS z axis xy product is XY", m[2][0] * m[2][1], x * y, 1e-12);
    }
    fn vc_p04_cirs_pole() {
        let (x, y, s) = (real("X", -0.03, 0.03), real("Y", -0.03, 0.03), real("s", -1e-4, 1e-4));
        assume(x * x + y * y > 1e-16);
        let m = *cio::gcrs_to_cirs_matrix(CipCoordinates::new(x), CipCoordinates::new(y), Radians::new(s)).as_matrix();
        ensure_eq("CIP maps to the CIRS z axis (x)", m[2][0], x, 1e-12);
        ensure_eq("CIP maps to the CIRS z axis (y)", m[2][1], y, 1e-12);
    }
    fn vc_p04_cirs_rotation() {
        let jd = epoch();
        let (dpsi, deps) = nut_eop(jd);
        let c = cio::cip_cio(jd, Radians::new(dpsi), Radians::new(deps));
        let (x, y) = cio::cip_xy(jd, Radians::new(dpsi), Radians::new(deps));
        let s = cio::cio_locator_s(jd, x, y);
        ensure_eq("cip_cio X", c.x.value(), x.value(), 0.0);
        ensure_eq("cip_cio Y", c.y.value(), y.value(), 0.0);
        ensure_eq("cip_cio s", c.s.value(), s.value(), 0.0);
        same("GCRS->CIRS is the CIO matrix of the nutated pole with celestial pole offsets", rot::<GCRS, CIRS>(jd), *cio::gcrs_to_cirs_matrix(x, y, s).as_matrix(), 1e-12);
    }
    fn vc_p04_earth_rotation_angle() {
        let d = real("ut1", 2415020.0, 2488070.0);
        let e = era::earth_rotation_angle(JulianDate::new(d)).value() / (2.0 * PI);
        let tu = d - 2451545.0;
        let full = 0.7790572732640 + 1.00273781191135448 * tu;
        let k = (e - full).round();
        ensure_eq("ERA = 0.7790572732640 + 1.00273781191135448 Tu turns, modulo whole turns", e, full + k, 1e-9);
        ensure("ERA in [0, 2 pi)", e >= -1e-12 && e < 1.0 + 1e-12);
    }
    fn vc_p04_era_parts() {
        let (d1, d2) = (real("d1", 0.0, 2488070.0), real("d2", 0.0, 2488070.0));
        assume(d1 + d2 >= 2415020.0);
        assume(d1 + d2 <= 2488070.0);
        let e = era::earth_rotation_angle_parts(d1, d2).value() / (2.0 * PI);
        let full = 0.7790572732640 + 1.00273781191135448 * (d1 + d2 - 2451545.0);
        let k = (e - full).round();
        ensure_eq("two-part ERA depends only on the sum of the parts", e, full + k, 1e-9);
    }
    fn vc_p04_sidereal_time() {
        let (u, jd) = (JulianDate::new(real("ut1", 2415020.0, 2488070.0)), epoch());
        let t = cent(jd);
        let p = 0.014506 + t * (4612.156534 + t * (1.3915817 + t * (-0.00000044 + t * (-0.000029956 + t * -0.0000000368))));
        let e = era::earth_rotation_angle(u).value();
        let g = sidereal::gmst_iau2006(u, jd).value();
        let k = ((g - e - p * AS) / (2.0 * PI)).round();
        ensure_eq("GMST = ERA + IAU 2006 polynomial, modulo whole turns", g, e + p * AS + 2.0 * PI * k, 1e-9);
        ensure("GMST in [0, 2 pi)", g >= -1e-12 && g < 2.0 * PI + 1e-12);
        let (dpsi, eps) = (real("dpsi", -2e-4, 2e-4), real("eps", 0.39, 0.42));
        let a = sidereal::gast_iau2006(u, jd, Radians::new(dpsi), Radians::new(eps)).value();
        let ee = era::equation_of_the_equinoxes_iau2000(jd, Radians::new(dpsi), Radians::new(eps)).value();
        let k = ((a - g - ee) / (2.0 * PI)).round();
        ensure_eq("GAST = GMST + equation of the equinoxes, modulo whole turns", a, g + ee + 2.0 * PI * k, 1e-9);
        ensure_eq("equation of the equinoxes = dpsi cos eps + complementary terms", ee, dpsi * eps.cos() + era::complementary_terms_iau2000(jd).value(), 1e-13);
        ensure_eq("simple equation of the equinoxes = dpsi cos eps", era::equation_of_the_equinoxes(Radians::new(dpsi), Radians::new(eps)).value(), dpsi * eps.cos(), 1e-15);
    }
    fn vc_p04_cirs_tirs() {
        let jd = epoch();
        let eop = any_ctx().eop_at_tt(jd);
        let ut1 = siderust::astro::earth_rotation::jd_ut1_from_tt_eop(jd, &eop);
        let e = era::earth_rotation_angle(ut1).value();
        same("CIRS->TIRS = R3(ERA(UT1))", rot::<CIRS, TIRS>(jd), r3(e), 1e-13);
    }
    fn vc_p04_polar_motion() {
        let jd = epoch();
        let t = cent(jd);
        let eop = any_ctx().eop_at_tt(jd);
        let (xp, yp) = (Radians::from(eop.xp).value(), Radians::from(eop.yp).value());
        assume(eop.xp.value() >= -1.0);
        assume(eop.xp.value() <= 1.0);
        assume(eop.yp.value() >= -1.0);
        assume(eop.yp.value() <= 1.0);
        let sp = polar_motion::tio_locator_sp(jd).value();
        ensure_eq("TIO locator s' = -47 microarcsec per century", polar_motion::tio_locator_sp(jd).value() / AS, -47e-6 * t, 1e-12);
        same("TIRS->ITRF = R1(-yp)R2(-xp)R3(s')", rot::<TIRS, ITRF>(jd), mul(mul(r1(-yp), r2(-xp)), r3(sp)), 5e-11);
    }
    fn vc_p04_body_frames() {
        let jd = epoch();
        let (t, d) = (cent(jd), jd.raw().value() - 2451545.0);
        // WGCCRE elements: alpha0, its rate per century, delta0, its rate, W0, its rate per day
        body::<MercuryFixed>("Mercury", jd, [281.0103, -0.0328, 61.4155, -0.0049, 329.5988, 6.1385108], t, d);
        body::<VenusFixed>("Venus", jd, [272.76, 0.0, 67.16, 0.0, 160.20, -1.4813688], t, d);
        body::<MarsFixed>("Mars", jd, [317.269, -0.10927, 54.432, -0.05827, 176.049, 350.891982443], t, d);
        body::<MoonPrincipalAxes>("Moon", jd, [269.9949, 0.0031, 66.5392, 0.0130, 38.3213, 13.17635815], t, d);
        body::<JupiterSystemIII>("Jupiter", jd, [268.057, -0.006, 64.495, 0.002, 284.95, 870.5360000], t, d);
        body::<SaturnFixed>("Saturn", jd, [40.589, -0.036, 83.537, -0.004, 38.90, 810.7939024], t, d);
        body::<UranusFixed>("Uranus", jd, [257.311, 0.0, -15.175, 0.0, 203.81, -501.1600928], t, d);
        body::<NeptuneFixed>("Neptune", jd, [299.36, 0.0, 43.46, 0.0, 249.978, 541.1397757], t, d);
        body::<PlutoFixed>("Pluto", jd, [132.993, 0.0, -6.163, 0.0, 302.695, 56.3625225], t, d);
    }
}

fn body<F>(_name: &'static str, jd: JulianDate, c: [f64; 6], t: f64, d: f64)
where
    (): FrameRotationProvider<F, ICRS>,
{
    let m = rot::<F, ICRS>(jd);
    let rad = PI / 180.0;
    let (sa, ca) = ((c[0] + c[1] * t) * rad).sin_cos();
    let (sd, cd) = ((c[2] + c[3] * t) * rad).sin_cos();
    let (sw, cw) = ((c[4] + c[5] * d) * rad).sin_cos();
    let (pole, node, third) = ([cd * ca, cd * sa, sd], [-sa, ca, 0.0], [-sd * ca, -sd * sa, cd]);
    for k in 0..3 {
        ensure_eq("body spin axis points to (alpha0, delta0)", m[k][2], pole[k], 1e-9);
        // the prime meridian is W east of the node of the body equator on the ICRS equator
        ensure_eq("body prime meridian is W past the node", m[k][0], cw * node[k] + sw * third[k], 1e-9);
        ensure_eq("body y axis is 90 deg past the prime meridian", m[k][1], -sw * node[k] + cw * third[k], 1e-9);
    }
}
