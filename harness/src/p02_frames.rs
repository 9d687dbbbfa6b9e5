//! P02: rotations between reference frames.
use crate::models::*;
use crate::rt::*;
use affn::Rotation3;
use siderust::astro::nutation::Iau2006A;
use siderust::coordinates::frames::planetary::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::transform::providers::*;
use siderust::time::JulianDate;

fn rot<A, B>(jd: JulianDate) -> [[f64; 3]; 3]
where
    (): FrameRotationProvider<A, B>,
{
    *frame_rotation_as::<A, B, Iau2006A, _, _>(jd, &any_ctx()).as_matrix()
}
/// rows are orthonormal and right-handed
fn proper(l1: &'static str, l2: &'static str, m: &[[f64; 3]; 3], tol: f64) {
    for i in 0..3 {
        for j in i..3 {
            let d = m[i][0] * m[j][0] + m[i][1] * m[j][1] + m[i][2] * m[j][2];
            ensure_eq(l1, d, if i == j { 1.0 } else { 0.0 }, tol);
        }
    }
    for k in 0..3 {
        let c = m[0][(k + 1) % 3] * m[1][(k + 2) % 3] - m[0][(k + 2) % 3] * m[1][(k + 1) % 3];
        ensure_eq(l2, c, m[2][k], tol);
    }
}
fn same(l: &'static str, a: &[[f64; 3]; 3], b: &[[f64; 3]; 3], tol: f64) {
    for i in 0..3 {
        for j in 0..3 {
            ensure_eq(l, a[i][j], b[i][j], tol);
        }
    }
}
fn tr(m: &[[f64; 3]; 3]) -> [[f64; 3]; 3] {
    [[m[0][0], m[1][0], m[2][0]], [m[0][1], m[1][1], m[2][1]], [m[0][2], m[1][2], m[2][2]]]
}
fn mul(a: &[[f64; 3]; 3], b: &[[f64; 3]; 3]) -> [[f64; 3]; 3] {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j];
        }
    }
    r
}

macro_rules! prim {
    ($jd:expr, $tol:expr; $($a:ty => $b:ty),+ $(,)?) => {$(
        let f = rot::<$a, $b>($jd);
        proper(concat!(stringify!($a), "->", stringify!($b), " rows orthonormal"), concat!(stringify!($a), "->", stringify!($b), " right-handed"), &f, $tol);
        let g = rot::<$b, $a>($jd);
        same(concat!(stringify!($b), "->", stringify!($a), " undoes ", stringify!($a), "->", stringify!($b)), &g, &tr(&f), 1e-12);
    )+};
}
macro_rules! inv {
    ($jd:expr; $($a:ty => $b:ty),+ $(,)?) => {$(
        same(concat!(stringify!($b), "->", stringify!($a), " undoes ", stringify!($a), "->", stringify!($b)),
            &rot::<$b, $a>($jd), &tr(&rot::<$a, $b>($jd)), 1e-12);
    )+};
}
macro_rules! via {
    ($jd:expr, $tol:expr; $($a:ty => $h:ty => $b:ty),+ $(,)?) => {$(
        let f = rot::<$a, $b>($jd);
        let g = mul(&rot::<$h, $b>($jd), &rot::<$a, $h>($jd));
        same(concat!(stringify!($a), "->", stringify!($b), " = through ", stringify!($h)), &f, &g, $tol);
        same(concat!(stringify!($b), "->", stringify!($a), " undoes ", stringify!($a), "->", stringify!($b)), &rot::<$b, $a>($jd), &tr(&f), 1e-12);
    )+};
}

contracts! {
    fn vc_p02_constant_frames() {
        let jd = epoch();
        prim!(jd, 1e-9; ICRS => EclipticMeanJ2000, ICRS => EquatorialMeanJ2000, EME2000 => EquatorialMeanJ2000,
            EquatorialMeanJ2000 => EclipticMeanJ2000, ICRF => ICRS, GCRS => ICRS, Galactic => ICRS, FK4B1950 => ICRS,
            FK4B1950 => EquatorialMeanJ2000, ITRF => ECEF);
        via!(jd, 1e-9; EME2000 => EquatorialMeanJ2000 => ICRS, EME2000 => EquatorialMeanJ2000 => EclipticMeanJ2000,
            EME2000 => EquatorialMeanJ2000 => ICRF, EME2000 => EquatorialMeanJ2000 => GCRS,
            ICRF => ICRS => EquatorialMeanJ2000, ICRF => ICRS => EclipticMeanJ2000,
            GCRS => ICRS => EquatorialMeanJ2000, GCRS => ICRS => EclipticMeanJ2000,
            Galactic => ICRS => EquatorialMeanJ2000, Galactic => ICRS => EclipticMeanJ2000,
            FK4B1950 => EquatorialMeanJ2000 => ICRS);
        via!(jd, 1e-6; ICRS => EquatorialMeanJ2000 => EclipticMeanJ2000);
    }
    fn vc_p02_precession() {
        let jd = epoch();
        prim!(jd, 1e-9; ICRS => EquatorialMeanOfDate);
    }
    fn vc_p02_precession_nutation() {
        let jd = epoch();
        prim!(jd, 1e-9; ICRS => EquatorialTrueOfDate);
    }
    fn vc_p02_nutation() {
        let jd = epoch();
        prim!(jd, 1e-9; EquatorialMeanOfDate => EquatorialTrueOfDate, TEME => EquatorialTrueOfDate);
    }
    fn vc_p02_of_date_chain() {
        let jd = epoch();
        via!(jd, 1e-9; EquatorialMeanJ2000 => ICRS => EquatorialMeanOfDate, EME2000 => EquatorialMeanJ2000 => EquatorialMeanOfDate,
            EME2000 => EquatorialMeanJ2000 => EquatorialTrueOfDate,
            ICRF => ICRS => EquatorialMeanOfDate, ICRF => ICRS => EquatorialTrueOfDate,
            GCRS => ICRS => EquatorialTrueOfDate, TEME => EquatorialTrueOfDate => ICRS);
        inv!(jd; EquatorialMeanJ2000 => EquatorialTrueOfDate);
    }
    /// the mean and true frames of date close on ICRS and on the mean frame of J2000 (no celestial-pole offsets)
    fn vc_p02_true_of_date_loop() {
        let jd = epoch();
        let ctx = siderust::coordinates::transform::AstroContext::<AnyEph, NoPoleEop>::with_types();
        let r = |a: Rotation3| *a.as_matrix();
        let icrs_true = r(frame_rotation_as::<ICRS, EquatorialTrueOfDate, Iau2006A, _, _>(jd, &ctx));
        let icrs_mean = r(frame_rotation_as::<ICRS, EquatorialMeanOfDate, Iau2006A, _, _>(jd, &ctx));
        let mean_true = r(frame_rotation_as::<EquatorialMeanOfDate, EquatorialTrueOfDate, Iau2006A, _, _>(jd, &ctx));
        let j_true = r(frame_rotation_as::<EquatorialMeanJ2000, EquatorialTrueOfDate, Iau2006A, _, _>(jd, &ctx));
        let j_mean = r(frame_rotation_as::<EquatorialMeanJ2000, EquatorialMeanOfDate, Iau2006A, _, _>(jd, &ctx));
        let j_icrs = r(frame_rotation_as::<EquatorialMeanJ2000, ICRS, Iau2006A, _, _>(jd, &ctx));
        same("ICRS->EquatorialTrueOfDate = through EquatorialMeanOfDate", &icrs_true, &mul(&mean_true, &icrs_mean), 1e-9);
        same("EquatorialMeanJ2000->EquatorialTrueOfDate = through EquatorialMeanOfDate", &j_true, &mul(&mean_true, &j_mean), 1e-9);
        same("EquatorialMeanJ2000->EquatorialTrueOfDate = through ICRS", &j_true, &mul(&icrs_true, &j_icrs), 1e-9);
    }
    fn vc_p02_earth_primitives() {
        let jd = epoch();
        prim!(jd, 1e-9; GCRS => CIRS, CIRS => TIRS, TIRS => ITRF);
    }
    fn vc_p02_earth_chain() {
        let jd = epoch();
        via!(jd, 1e-9; ICRS => GCRS => CIRS, ICRS => CIRS => TIRS, ICRS => TIRS => ITRF, ICRS => ITRF => ECEF);
    }
    fn vc_p02_cirs_spokes() {
        let jd = epoch();
        via!(jd, 1e-9; EclipticMeanJ2000 => ICRS => CIRS, EquatorialMeanJ2000 => ICRS => CIRS, EME2000 => ICRS => CIRS,
            EquatorialMeanOfDate => ICRS => CIRS, EquatorialTrueOfDate => ICRS => CIRS, ICRF => ICRS => CIRS, TEME => ICRS => CIRS,
            Galactic => ICRS => CIRS, FK4B1950 => ICRS => CIRS);
    }
    fn vc_p02_tirs_spokes() {
        let jd = epoch();
        via!(jd, 1e-9; GCRS => ICRS => TIRS, EclipticMeanJ2000 => ICRS => TIRS, EquatorialMeanJ2000 => ICRS => TIRS, EME2000 => ICRS => TIRS,
            EquatorialMeanOfDate => ICRS => TIRS, EquatorialTrueOfDate => ICRS => TIRS, ICRF => ICRS => TIRS, TEME => ICRS => TIRS,
            Galactic => ICRS => TIRS, FK4B1950 => ICRS => TIRS);
    }
    fn vc_p02_itrf_spokes() {
        let jd = epoch();
        via!(jd, 1e-9; GCRS => ICRS => ITRF, EclipticMeanJ2000 => ICRS => ITRF, EquatorialMeanJ2000 => ICRS => ITRF, EME2000 => ICRS => ITRF,
            EquatorialMeanOfDate => ICRS => ITRF, EquatorialTrueOfDate => ICRS => ITRF, ICRF => ICRS => ITRF, TEME => ICRS => ITRF,
            Galactic => ICRS => ITRF, FK4B1950 => ICRS => ITRF);
    }
    fn vc_p02_ecef_spokes() {
        let jd = epoch();
        via!(jd, 1e-9; GCRS => ICRS => ECEF, EclipticMeanJ2000 => ICRS => ECEF, EquatorialMeanJ2000 => ICRS => ECEF, EME2000 => ICRS => ECEF,
            EquatorialMeanOfDate => ICRS => ECEF, EquatorialTrueOfDate => ICRS => ECEF, ICRF => ICRS => ECEF, TEME => ICRS => ECEF,
            Galactic => ICRS => ECEF, FK4B1950 => ICRS => ECEF);
    }
    /// the bound used for the CIP where its series is abstracted
    fn vc_p02_cip_bound() {
        use siderust::qtty::Radians;
        let jd = epoch();
        let (x, y) = siderust::astro::cio::cip_xy(jd, Radians::new(real("dpsi", -3e-4, 3e-4)), Radians::new(real("deps", -3e-4, 3e-4)));
        ensure("CIP coordinates stay within 0.03 from 1900 to 2100", x.value().abs() <= 0.03 && y.value().abs() <= 0.03);
    }
    fn vc_p02_planets() {
        let jd = epoch();
        prim!(jd, 1e-9; MercuryFixed => ICRS, VenusFixed => ICRS, MarsFixed => ICRS, MoonPrincipalAxes => ICRS, JupiterSystemIII => ICRS,
            SaturnFixed => ICRS, UranusFixed => ICRS, NeptuneFixed => ICRS, PlutoFixed => ICRS);
    }
    fn vc_p02_planet_spokes() {
        let jd = epoch();
        via!(jd, 1e-9; EclipticMeanJ2000 => ICRS => MercuryFixed, EclipticMeanJ2000 => ICRS => VenusFixed, EclipticMeanJ2000 => ICRS => MarsFixed,
            EclipticMeanJ2000 => ICRS => MoonPrincipalAxes, EclipticMeanJ2000 => ICRS => JupiterSystemIII, EclipticMeanJ2000 => ICRS => SaturnFixed,
            EclipticMeanJ2000 => ICRS => UranusFixed, EclipticMeanJ2000 => ICRS => NeptuneFixed, EclipticMeanJ2000 => ICRS => PlutoFixed,
            EME2000 => ICRS => MercuryFixed, EME2000 => ICRS => VenusFixed, EME2000 => ICRS => MarsFixed,
            EME2000 => ICRS => MoonPrincipalAxes, EME2000 => ICRS => JupiterSystemIII, EME2000 => ICRS => SaturnFixed,
            EME2000 => ICRS => UranusFixed, EME2000 => ICRS => NeptuneFixed, EME2000 => ICRS => PlutoFixed);
    }
    /// the rotation algebra itself, for arbitrary rotations
    fn vc_p02_rotation_algebra() {
        use siderust::qtty::Radians;
        let (a, b, c) = (real("a", -10.0, 10.0), real("b", -10.0, 10.0), real("c", -10.0, 10.0));
        let r = Rotation3::rz(Radians::new(a)) * Rotation3::rx(Radians::new(b)) * Rotation3::ry(Radians::new(c));
        let v = [real("x", -1e9, 1e9), real("y", -1e9, 1e9), real("z", -1e9, 1e9)];
        let w = r.apply_array(v);
        ensure_eq("rotation keeps the squared length (per unit)", (w[0] * w[0] + w[1] * w[1] + w[2] * w[2]) * 1e-18, (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) * 1e-18, 1e-9);
        let u = r.inverse().apply_array(w);
        for k in 0..3 {
            ensure_eq("inverse rotation undoes", u[k] * 1e-9, v[k] * 1e-9, 1e-9);
        }
        proper("rx ry rz product orthonormal", "rx ry rz product right-handed", r.as_matrix(), 1e-9);
    }
}
