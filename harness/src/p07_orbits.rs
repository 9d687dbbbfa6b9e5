//! P07: Kepler and conic orbits.
use crate::rt::*;
use siderust::astro::conic::*;
use siderust::astro::conic_equations::*;
use siderust::astro::orbit::*;
use siderust::coordinates::cartesian::position::EclipticMeanJ2000 as Ecl;
use siderust::qtty::angular_rate::AngularRate;
use siderust::qtty::*;
use siderust::time::JulianDate;

const K: f64 = 0.01720209895;
const TAU: f64 = std::f64::consts::TAU;

/// what the assumed solver was asked (mean anomaly, eccentricity), what it answered, and the tolerance and iterations it was given
pub static mut ASKED: [f64; 5] = [0.0; 5];

struct Shape {
    size: f64,
    e: f64,
    i: f64,
    node: f64,
    peri: f64,
    m0: f64,
    t0: JulianDate,
    t: JulianDate,
}
fn any_shape(elo: f64, ehi: f64) -> Shape {
    Shape {
        size: real("size", 0.05, 100.0),
        e: real("e", elo, ehi),
        i: real("i", 0.0, 180.0),
        node: real("node", 0.0, 359.0),
        peri: real("peri", 0.0, 359.0),
        m0: real("m0", -360.0, 360.0),
        t0: JulianDate::new(real("epoch", 2415000.0, 2488000.0)),
        t: JulianDate::new(real("date", 2415000.0, 2488000.0)),
    }
}
impl Shape {
    fn dt(&self) -> f64 {
        (self.t.raw() - self.t0.raw()).value()
    }
    fn kepler(&self) -> KeplerianOrbit {
        KeplerianOrbit::new(AstronomicalUnits::new(self.size), self.e, Degrees::new(self.i), Degrees::new(self.node), Degrees::new(self.peri), Degrees::new(self.m0), self.t0)
    }
    fn conic(&self) -> ConicOrbit {
        ConicOrbit::new_unchecked(AstronomicalUnits::new(self.size), self.e, Degrees::new(self.i), Degrees::new(self.node), Degrees::new(self.peri), Degrees::new(self.m0), self.t0)
    }
    /// from perifocal to ecliptic coordinates: R3(node) R1(i) R3(peri)
    fn place(&self, x: f64, y: f64) -> [f64; 3] {
        let (so, co) = self.peri.to_radians().sin_cos();
        let (si, ci) = self.i.to_radians().sin_cos();
        let (sn, cn) = self.node.to_radians().sin_cos();
        let (u, v) = (co * x - so * y, so * x + co * y);
        [cn * u - sn * ci * v, sn * u + cn * ci * v, si * v]
    }
}
/// the eccentric (or hyperbolic) anomaly of the mean anomaly m: as the code asked the solver, or solved here
fn anomaly(m: f64, e: f64) -> f64 {
    if symbolic() {
        let [gm, ge, ea, tol, it] = unsafe { ASKED };
        ensure("the solver is asked for full precision", tol <= 1e-12 && it >= 50.0);
        ensure_eq("the solver gets the eccentricity", ge, e, 1e-15);
        if e < 1.0 {
            ensure_eq("mean anomaly = M0 + n (t - t0), modulo a turn (cos)", gm.cos(), m.cos(), 1e-8);
            ensure_eq("mean anomaly = M0 + n (t - t0), modulo a turn (sin)", gm.sin(), m.sin(), 1e-8);
        } else {
            ensure_eq("mean anomaly = M0 + n (t - t0)", gm, m, 1e-8);
        }
        ea
    } else {
        let (mut lo, mut hi) = if e < 1.0 { (m - 1.1, m + 1.1) } else { (-40.0, 40.0) };
        for _ in 0..200 {
            let x = 0.5 * (lo + hi);
            let f = if e < 1.0 { x - e * x.sin() } else { e * f64::sinh(x) - x };
            if f < m { lo = x } else { hi = x }
        }
        0.5 * (lo + hi)
    }
}
fn ellipse(s: &Shape, p: Ecl<AstronomicalUnit>, n: f64, a: f64) {
    let m = s.m0.to_radians() + n * s.dt();
    let (se, ce) = anomaly(m, s.e).sin_cos();
    let q = s.place(a * (ce - s.e), a * ((1.0 - s.e).sqrt() * (1.0 + s.e).sqrt()) * se);
    // natively both sides solve Kepler's equation in floating point
    let tol = if symbolic() { 1e-9 } else { 1e-7 * a / (1.0 - s.e) };
    ensure_eq("x of the ellipse", p.x().value(), q[0], tol);
    ensure_eq("y of the ellipse", p.y().value(), q[1], tol);
    ensure_eq("z of the ellipse", p.z().value(), q[2], tol);
}
fn gauss(a: f64) -> f64 {
    TAU / (365.256_898_326 * a * a.sqrt())
}

const BAD: [f64; 3] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
/// any elements, one of them possibly not finite; ok[k] = field k may be used
fn any_elements() -> ([f64; 7], usize) {
    let mut x = [any("size"), any("e"), real("i", 0.0, 180.0), real("node", 0.0, 359.0), real("peri", 0.0, 359.0), any("m0"), real("epoch", 2415000.0, 2488000.0)];
    let f = each("special field (7: none)", 0, 7) as usize;
    if f < 7 {
        x[f] = if f == 6 { BAD[1] } else { BAD[each("special value", 0, 2) as usize] };
    }
    (x, f)
}
fn try_all<T>(x: &[f64; 7], f: usize, r: Result<T, ConicError>, size: ConicError, anomaly: ConicError, parabola: ConicError, hyperbola: Option<ConicError>) {
    let [a, e, ..] = *x;
    let (a_ok, e_ok) = (f != 0 && a > 0.0, f != 1 && e >= 0.0);
    let rest = f < 2 || f == 7;
    if !a_ok && e_ok && e < 1.0 && rest {
        ensure("a bad size is named", r.err() == Some(size));
    } else if a_ok && !e_ok && rest {
        ensure("a bad eccentricity is named", r.err() == Some(ConicError::InvalidEccentricity));
    } else if a_ok && e_ok && e == 1.0 && rest {
        ensure("a parabola is named", r.err() == Some(parabola));
    } else if a_ok && e_ok && e > 1.0 && rest {
        ensure("a hyperbola is accepted or named", r.err() == hyperbola);
    } else if a_ok && e_ok && e < 1.0 && f > 1 && f < 5 {
        ensure("a bad orientation is named", r.err() == Some(ConicError::InvalidOrientation));
    } else if a_ok && e_ok && e < 1.0 && f == 5 {
        ensure("a bad anomaly or motion is named", r.err() == Some(anomaly));
    } else if a_ok && e_ok && e < 1.0 && f == 6 {
        ensure("a bad epoch is named", r.err() == Some(ConicError::InvalidEpoch));
    } else if a_ok && e_ok && e < 1.0 {
        ensure("a valid ellipse is accepted", r.is_ok());
    } else {
        ensure("two bad elements are refused", r.is_err());
    }
}
contracts! {
    fn vc_p07_kepler_position() {
        let s = any_shape(0.0, 0.99);
        let p = s.kepler().kepler_position(s.t);
        ellipse(&s, p, gauss(s.size), s.size);
    }
    fn vc_p07_prepared_position() {
        let s = any_shape(0.0, 0.99);
        let o = PreparedOrbit::try_from(s.kepler()).unwrap();
        let p = o.position_at(s.t);
        ellipse(&s, p, gauss(s.size), s.size);
        ensure_eq("mean motion is Kepler's third law", o.mean_motion().value() * s.size * s.size.sqrt(), K, 1e-12);
        ensure("the elements are kept", *o.elements() == s.kepler());
    }
    fn vc_p07_orbit_position() {
        let s = any_shape(0.0, 0.99);
        ellipse(&s, calculate_orbit_position(&s.kepler(), s.t), gauss(s.size), s.size);
    }
    fn vc_p07_position_with_mu() {
        let s = any_shape(0.0, 0.99);
        let mu = real("mu", 1.0, 2e11);
        let p = s.kepler().position_with_mu(s.t, GravitationalParameter::new(mu));
        // au^3/day^2
        let g = mu * (86400.0 * 86400.0) / (149_597_870.7 * 149_597_870.7 * 149_597_870.7);
        ellipse(&s, p, (g / (s.size * s.size * s.size)).sqrt(), s.size);
    }
    fn vc_p07_mean_motion_position() {
        let mut s = any_shape(0.0, 0.99);
        s.m0 = 0.0;
        let n = real("degrees per day", 1e-4, 40.0);
        let o = MeanMotionOrbit::new_unchecked(AstronomicalUnits::new(s.size), s.e, Degrees::new(s.i), Degrees::new(s.node), Degrees::new(s.peri), AngularRate::<Degree, Day>::new(n), s.t0);
        let p = o.position_at(s.t);
        ensure("an elliptic orbit has a position", p.is_ok());
        if let Ok(p) = p {
            ellipse(&s, p, n.to_radians(), s.size);
        }
    }
    fn vc_p07_conic_elliptic() {
        let s = any_shape(0.0, 0.99);
        let a = s.size / (1.0 - s.e);
        let p = s.conic().position_at(s.t);
        ensure("an elliptic conic has a position", p.is_ok());
        if let Ok(p) = p {
            ellipse(&s, p, K / (a * a.sqrt()), a);
        }
    }
    fn vc_p07_conic_hyperbolic() {
        let s = any_shape(1.0001, 10.0);
        let a = s.size / (s.e - 1.0);
        let p = s.conic().position_at(s.t);
        if let Ok(p) = p {
            let m = s.m0.to_radians() + K / (a * a.sqrt()) * s.dt();
            let h = anomaly(m, s.e);
            let q = s.place(a * (s.e - h.cosh()), a * ((s.e - 1.0).sqrt() * (s.e + 1.0).sqrt()) * h.sinh());
            let tol = if symbolic() { 1e-9 } else { 1e-6 * (1.0 + a * h.cosh()) };
            ensure_eq("x of the hyperbola", p.x().value(), q[0], tol);
            ensure_eq("y of the hyperbola", p.y().value(), q[1], tol);
            ensure_eq("z of the hyperbola", p.z().value(), q[2], tol);
        } else {
            ensure("the only refusal is the solver's", p == Err(ConicError::HyperbolicSolverFailed));
            ensure("a refusal comes from the solver", !symbolic() || unsafe { ASKED[2] } == 1e9);
        }
    }
    fn vc_p07_conic_parabolic() {
        let mut s = any_shape(0.0, 10.0);
        s.e = 1.0;
        ensure("a parabola is refused", s.conic().position_at(s.t) == Err(ConicError::ParabolicUnsupported));
        ensure("the kind is parabolic", s.conic().kind() == ConicKind::Parabolic);
    }
    fn vc_p07_kepler_try_new() {
        let (x, f) = any_elements();
        let d = |k: usize| Degrees::new(x[k]);
        let r = KeplerianOrbit::try_new(AstronomicalUnits::new(x[0]), x[1], d(2), d(3), d(4), d(5), JulianDate::new(x[6]));
        if let Ok(o) = &r {
            ensure("elements kept", o.shape().semi_major_axis().value() == x[0] && o.shape().eccentricity() == x[1] && o.mean_anomaly_at_epoch == d(5)
                && o.orientation().inclination() == d(2) && o.orientation().longitude_of_ascending_node() == d(3) && o.orientation().argument_of_periapsis() == d(4));
        }
        try_all(&x, f, r, ConicError::InvalidSemiMajorAxis, ConicError::InvalidMeanAnomaly, ConicError::ParabolicSemiMajorAxis, Some(ConicError::HyperbolicNotSupported));
    }
    fn vc_p07_prepared_try_new() {
        let (x, f) = any_elements();
        let d = |k: usize| Degrees::new(x[k]);
        let r = PreparedOrbit::try_from_elements(AstronomicalUnits::new(x[0]), x[1], d(2), d(3), d(4), d(5), JulianDate::new(x[6]));
        try_all(&x, f, r, ConicError::InvalidSemiMajorAxis, ConicError::InvalidMeanAnomaly, ConicError::ParabolicSemiMajorAxis, Some(ConicError::HyperbolicNotSupported));
    }
    fn vc_p07_conic_try_new() {
        let (x, f) = any_elements();
        let d = |k: usize| Degrees::new(x[k]);
        let r = ConicOrbit::try_new(AstronomicalUnits::new(x[0]), x[1], d(2), d(3), d(4), d(5), JulianDate::new(x[6]));
        if let Ok(o) = &r {
            ensure("elements kept", o.geometry().shape().periapsis_distance().value() == x[0] && o.geometry().shape().eccentricity() == x[1] && o.mean_anomaly_at_epoch == d(5));
            ensure("kind from the eccentricity", o.kind() == if x[1] < 1.0 { ConicKind::Elliptic } else { ConicKind::Hyperbolic });
        }
        try_all(&x, f, r, ConicError::InvalidPeriapsisDistance, ConicError::InvalidMeanAnomaly, ConicError::ParabolicUnsupported, None);
    }
    fn vc_p07_mean_motion_try_new() {
        let (x, f) = any_elements();
        let d = |k: usize| Degrees::new(x[k]);
        let make = |n: f64| MeanMotionOrbit::try_new(AstronomicalUnits::new(x[0]), x[1], d(2), d(3), d(4), AngularRate::<Degree, Day>::new(n), JulianDate::new(x[6]));
        if f != 5 && x[5] <= 0.0 {
            ensure("a non-positive mean motion is refused", make(x[5]).is_err());
        } else {
            try_all(&x, f, make(x[5]), ConicError::InvalidSemiMajorAxis, ConicError::InvalidMeanMotion, ConicError::ParabolicSemiMajorAxis, Some(ConicError::HyperbolicNotSupported));
        }
    }
}
