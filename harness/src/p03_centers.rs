//! P03: translations between reference centers.
use crate::models::*;
use crate::rt::*;
use siderust::astro::nutation::Iau2006A;
use siderust::astro::orbit::KeplerianOrbit;
use siderust::bodies::solar_system::PLUTO;
use siderust::coordinates::cartesian::Position;
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::transform::centers::TransformCenter;
use siderust::coordinates::transform::providers::*;
use siderust::coordinates::transform::{PositionAstroExt, TransformFrame};
use siderust::ephemeris::Ephemeris;
use siderust::qtty::*;
use siderust::time::JulianDate;

type Ecl<C> = Position<C, EclipticMeanJ2000, AstronomicalUnit>;
fn arr<C: ReferenceCenter, F: ReferenceFrame, U: LengthUnit>(p: &Position<C, F, U>) -> [f64; 3] {
    [p.x().value(), p.y().value(), p.z().value()]
}
fn sub(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn add(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
const AU_KM: f64 = 149_597_870.7;

/// barycentric ecliptic position of a center, in au
trait Where {
    fn at(jd: JulianDate) -> [f64; 3];
}
impl Where for Barycentric {
    fn at(_: JulianDate) -> [f64; 3] {
        [0.0; 3]
    }
}
impl Where for Heliocentric {
    fn at(jd: JulianDate) -> [f64; 3] {
        arr(&AnyEph::sun_barycentric(jd))
    }
}
impl Where for Geocentric {
    fn at(jd: JulianDate) -> [f64; 3] {
        arr(&AnyEph::earth_barycentric(jd))
    }
}
impl Where for Selenocentric {
    fn at(jd: JulianDate) -> [f64; 3] {
        let m = arr(&AnyEph::moon_geocentric(jd));
        add(Geocentric::at(jd), [m[0] / AU_KM, m[1] / AU_KM, m[2] / AU_KM])
    }
}
impl Where for Plutocentric {
    fn at(jd: JulianDate) -> [f64; 3] {
        add(Heliocentric::at(jd), arr(&PLUTO.orbit.kepler_position(jd)))
    }
}
macro_rules! vsop {
    ($($c:ident),+) => { $( impl Where for $c { fn at(jd: JulianDate) -> [f64; 3] { arr(&<$c>::vsop87e(jd)) } } )+ };
}
vsop!(Mercurycentric, Venuscentric, Marscentric, Jovicentric, Saturnocentric, Uranocentric, Neptunocentric);

fn shift<A, B, F>(jd: JulianDate) -> [f64; 3]
where
    (): CenterShiftProvider<A, B, F>,
{
    let s = center_shift_as::<A, B, F, Iau2006A, AnyEph, AnyEop>(jd, &any_ctx());
    [s[0].value(), s[1].value(), s[2].value()]
}
fn turn<F>(jd: JulianDate, v: [f64; 3]) -> [f64; 3]
where
    (): FrameRotationProvider<EclipticMeanJ2000, F>,
{
    let m = *frame_rotation_as::<EclipticMeanJ2000, F, Iau2006A, _, _>(jd, &any_ctx()).as_matrix();
    let mut r = [0.0; 3];
    for i in 0..3 {
        r[i] = m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2];
    }
    r
}
/// expected: the vector from the new center to the old one, in the requested frame
macro_rules! shifts {
    ($jd:expr, $f:ty; $($a:ident => $b:ident),+ $(,)?) => {$(
        {
            let e = turn::<$f>($jd, sub(<$a>::at($jd), <$b>::at($jd)));
            let s = shift::<$a, $b, $f>($jd);
            let r = shift::<$b, $a, $f>($jd);
            for k in 0..3 {
                ensure_eq(concat!("shift ", stringify!($a), "->", stringify!($b)), s[k], e[k], 1e-9);
                ensure_eq(concat!("shift ", stringify!($b), "->", stringify!($a), " is the opposite"), r[k], -e[k], 1e-9);
            }
        }
    )+};
}
macro_rules! all_shifts {
    ($jd:expr, $f:ty) => {
        shifts!($jd, $f; Heliocentric => Barycentric, Geocentric => Barycentric, Heliocentric => Geocentric,
            Barycentric => Barycentric, Geocentric => Geocentric, Marscentric => Marscentric,
            Mercurycentric => Barycentric, Mercurycentric => Heliocentric, Mercurycentric => Geocentric,
            Venuscentric => Barycentric, Venuscentric => Heliocentric, Venuscentric => Geocentric,
            Marscentric => Barycentric, Marscentric => Heliocentric, Marscentric => Geocentric,
            Jovicentric => Barycentric, Jovicentric => Heliocentric, Jovicentric => Geocentric,
            Saturnocentric => Barycentric, Saturnocentric => Heliocentric, Saturnocentric => Geocentric,
            Uranocentric => Barycentric, Uranocentric => Heliocentric, Uranocentric => Geocentric,
            Neptunocentric => Barycentric, Neptunocentric => Heliocentric, Neptunocentric => Geocentric,
            Plutocentric => Barycentric, Plutocentric => Heliocentric, Plutocentric => Geocentric,
            Selenocentric => Barycentric, Selenocentric => Heliocentric, Selenocentric => Geocentric)
    };
}
fn vec3(n: [&'static str; 3], m: f64) -> [f64; 3] {
    [real(n[0], -m, m), real(n[1], -m, m), real(n[2], -m, m)]
}
macro_rules! moved {
    ($jd:expr, $u:ty, $per_au:expr; $($a:ident => $b:ident),+ $(,)?) => {$(
        {
            let v = vec3(["x", "y", "z"], 1e9);
            let p = Position::<$a, EclipticMeanJ2000, $u>::new(v[0], v[1], v[2]);
            let q: Position<$b, EclipticMeanJ2000, $u> = p.to_center_as::<AnyEph, AnyEop, Iau2006A>((), $jd, &any_ctx());
            let d = sub(<$a>::at($jd), <$b>::at($jd));
            let w = arr(&q);
            for k in 0..3 {
                ensure_eq(concat!("position ", stringify!($a), "->", stringify!($b), " adds the shift in its own unit"), w[k] / $per_au, v[k] / $per_au + d[k], 1e-9);
            }
            let b: Position<$a, EclipticMeanJ2000, $u> = q.to_center_as::<AnyEph, AnyEop, Iau2006A>((), $jd, &any_ctx());
            let w = arr(&b);
            for k in 0..3 {
                ensure_eq(concat!("position ", stringify!($a), "->", stringify!($b), " and back"), w[k] / $per_au, v[k] / $per_au, 1e-9);
            }
        }
    )+};
}
fn body(center: OrbitReferenceCenter) -> BodycentricParams {
    let o: KeplerianOrbit = PLUTO.orbit;
    BodycentricParams { orbit: o, orbit_center: center, mu: GM_SUN }
}
/// the body's own position relative to a center (ecliptic, au)
fn body_at<C: Where>(p: &BodycentricParams, jd: JulianDate) -> [f64; 3] {
    let b = arr(&p.orbit.position_with_mu(jd, p.mu));
    let o = match p.orbit_center {
        OrbitReferenceCenter::Barycentric => Barycentric::at(jd),
        OrbitReferenceCenter::Heliocentric => Heliocentric::at(jd),
        OrbitReferenceCenter::Geocentric => Geocentric::at(jd),
    };
    sub(add(b, o), C::at(jd))
}
macro_rules! bodyc {
    ($jd:expr, $par:expr, $f:ident; $($a:ident),+) => {$(
        {
            let v = vec3(["x", "y", "z"], 1e3);
            let p = Position::<$a, $f, AstronomicalUnit>::new(v[0], v[1], v[2]);
            let q: Position<Bodycentric, $f, AstronomicalUnit> = p.to_center_as::<AnyEph, AnyEop, Iau2006A>($par, $jd, &any_ctx());
            let e = Ecl::<$a>::from_array_origin(body_at::<$a>(&$par, $jd).map(AstronomicalUnits::new));
            let e: Position<$a, $f, AstronomicalUnit> = TransformFrame::to_frame(&e);
            let (w, e) = (arr(&q), arr(&e));
            for k in 0..3 {
                ensure_eq(concat!(stringify!($a), "->Bodycentric (", stringify!($f), ") subtracts the body's position"), w[k], v[k] - e[k], 1e-9);
            }
        }
    )+};
}

macro_rules! body_back {
    ($jd:expr, $par:expr; $($f:ident),+) => {$(
        {
            let v = vec3(["x", "y", "z"], 1e3);
            let q = Position::<Bodycentric, $f, AstronomicalUnit>::from_array($par, v.map(AstronomicalUnits::new));
            let p: Position<Geocentric, $f, AstronomicalUnit> = q.to_center_as::<AnyEph, AnyEop, Iau2006A>((), $jd, &any_ctx());
            let w = arr(&p);
            let r: Position<Bodycentric, $f, AstronomicalUnit> = p.to_center_as::<AnyEph, AnyEop, Iau2006A>($par, $jd, &any_ctx());
            let e = Ecl::<Geocentric>::from_array_origin(body_at::<Geocentric>(&$par, $jd).map(AstronomicalUnits::new));
            let e: Position<Geocentric, $f, AstronomicalUnit> = TransformFrame::to_frame(&e);
            let (e, r) = (arr(&e), arr(&r));
            for k in 0..3 {
                ensure_eq(concat!("Bodycentric->Geocentric (", stringify!($f), ") adds the body's position"), w[k], v[k] + e[k], 1e-9);
                ensure_eq(concat!("Bodycentric->Geocentric->Bodycentric (", stringify!($f), ")"), r[k], v[k], 1e-9);
            }
        }
    )+};
}

contracts! {
    fn vc_p03_shifts_ecliptic() {
        let jd = epoch();
        all_shifts!(jd, EclipticMeanJ2000);
    }
    fn vc_p03_shifts_icrs() {
        let jd = epoch();
        all_shifts!(jd, ICRS);
    }
    fn vc_p03_shifts_frames() {
        let jd = epoch();
        shifts!(jd, EME2000; Heliocentric => Geocentric, Marscentric => Geocentric, Selenocentric => Geocentric, Selenocentric => Heliocentric,
            Barycentric => Heliocentric, Plutocentric => Geocentric);
        shifts!(jd, GCRS; Heliocentric => Geocentric, Jovicentric => Heliocentric);
        shifts!(jd, siderust::coordinates::frames::planetary::MarsFixed; Heliocentric => Geocentric, Marscentric => Heliocentric);
        shifts!(jd, EquatorialMeanJ2000; Heliocentric => Geocentric, Neptunocentric => Heliocentric);
    }
    fn vc_p03_positions() {
        let jd = epoch();
        moved!(jd, AstronomicalUnit, 1.0; Heliocentric => Barycentric, Barycentric => Geocentric, Heliocentric => Geocentric, Marscentric => Geocentric, Selenocentric => Geocentric);
        moved!(jd, Kilometer, AU_KM; Heliocentric => Barycentric, Barycentric => Geocentric, Heliocentric => Geocentric, Selenocentric => Geocentric, Saturnocentric => Heliocentric);
        moved!(jd, Meter, AU_KM * 1e3; Heliocentric => Geocentric, Selenocentric => Geocentric);
    }
    /// center first and frame second is the same as frame first and center second
    fn vc_p03_order() {
        let jd = epoch();
        let ctx = any_ctx();
        let v = vec3(["x", "y", "z"], 1e3);
        let p = Position::<Heliocentric, EclipticMeanJ2000, AstronomicalUnit>::new(v[0], v[1], v[2]);
        let a: Position<Geocentric, ICRS, AstronomicalUnit> = p.to_with::<Geocentric, ICRS, _>(&jd, &ctx);
        let f: Position<Heliocentric, ICRS, AstronomicalUnit> = p.to_frame_with::<ICRS, _>(&jd, &ctx);
        let b: Position<Geocentric, ICRS, AstronomicalUnit> = f.to_center_as::<AnyEph, AnyEop, Iau2006A>((), jd, &ctx);
        let (a, b) = (arr(&a), arr(&b));
        let e = turn::<ICRS>(jd, add(v, sub(Heliocentric::at(jd), Geocentric::at(jd))));
        for k in 0..3 {
            ensure_eq("center+frame change: order does not matter", a[k], b[k], 1e-9);
            ensure_eq("center+frame change is the rotated shifted vector", a[k], e[k], 1e-9);
        }
        let p = Position::<Barycentric, ICRS, Kilometer>::new(v[0], v[1], v[2]);
        let a: Position<Marscentric, EME2000, Kilometer> = p.to_with::<Marscentric, EME2000, _>(&jd, &ctx);
        let f: Position<Barycentric, EME2000, Kilometer> = p.to_frame_with::<EME2000, _>(&jd, &ctx);
        let b: Position<Marscentric, EME2000, Kilometer> = f.to_center_as::<AnyEph, AnyEop, Iau2006A>((), jd, &ctx);
        let (a, b) = (arr(&a), arr(&b));
        for k in 0..3 {
            ensure_eq("center+frame change: order does not matter (EME2000)", a[k] / AU_KM, b[k] / AU_KM, 1e-9);
        }
    }
    fn vc_p03_bodycentric() {
        let jd = epoch();
        let par = body(match each("orbit.center", 0, 2) { 0 => OrbitReferenceCenter::Barycentric, 1 => OrbitReferenceCenter::Heliocentric, _ => OrbitReferenceCenter::Geocentric });
        bodyc!(jd, par, EclipticMeanJ2000; Geocentric, Heliocentric, Barycentric);
        bodyc!(jd, par, ICRS; Geocentric, Heliocentric, Barycentric);
        bodyc!(jd, par, EquatorialMeanJ2000; Geocentric, Heliocentric, Barycentric);
        body_back!(jd, par; EclipticMeanJ2000, ICRS, EquatorialMeanJ2000);
    }
}
