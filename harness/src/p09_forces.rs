//! P09: force models.
use crate::models::*;
use crate::rt::*;
use siderust::astro::dynamics::context::DynamicsContext;
use siderust::astro::dynamics::density::{geodetic_altitude, ConstantDensity, DensityProvider, ExponentialAtmosphere, Nrlmsise00LiteApprox};
use siderust::astro::dynamics::errors::DynamicsError;
use siderust::astro::dynamics::forces::*;
use siderust::astro::dynamics::gravity::LowDegreeEarth;
use siderust::astro::dynamics::state::{Position, SpacecraftProperties, Velocity};
use siderust::astro::dynamics::OrbitState;
use siderust::coordinates::cartesian::Displacement;
use siderust::coordinates::frames::GCRS;
use siderust::ephemeris::{DynEphemeris, Ephemeris};
use siderust::pod::force::empirical_periodic::{EmpiricalPeriodicAcceleration, PeriodicHarmonic};
use siderust::pod::force::low_thrust::LowThrustLog;
use siderust::pod::force::thrust::{mass_flow_rate, thrust_acceleration, ThrustArc};
use siderust::qtty::*;
use siderust::time::JulianDate;
use std::sync::Arc;

type A3 = [f64; 3];
const WGS_A: f64 = 6378.137;
const WGS_F: f64 = 1.0 / 298.257223563;
const OMEGA: f64 = 7.292115146706979e-5;

/// what assumed callees were asked: altitude (x, y, z, a, f) and its answer; geopotential kernel (x, y, z, n, m, rmin); shadow (sat, sun)
pub static mut ALT: [f64; 6] = [0.0; 6];
pub static mut KERNEL: [f64; 6] = [0.0; 6];
pub static mut SHADE: [f64; 6] = [0.0; 6];
pub static mut PLACES: [A3; 2] = [[0.0; 3]; 2];
pub static mut DATE: [f64; 2] = [0.0; 2];

fn any3(n: [&'static str; 3], b: f64) -> A3 {
    [real(n[0], -b, b), real(n[1], -b, b), real(n[2], -b, b)]
}
fn dot(a: A3, b: A3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: A3, b: A3) -> A3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn norm(a: A3) -> f64 {
    dot(a, a).sqrt()
}
struct Here {
    r: A3,
    v: A3,
    t: JulianDate,
    s: OrbitState,
}
fn at(r: A3, v: A3, t: JulianDate) -> Here {
    Here { r, v, t, s: OrbitState::new(t.to_j2000s(), Position::<GCRS>::new(r[0], r[1], r[2]), Velocity::<GCRS>::new(v[0], v[1], v[2])) }
}
fn anywhere() -> Here {
    at(any3(["rx", "ry", "rz"], 5e4), any3(["vx", "vy", "vz"], 12.0), JulianDate::new(real("epoch", 2440000.0, 2488000.0)))
}
type Acc = siderust::astro::dynamics::state::Acceleration;
fn v3(a: &Acc) -> A3 {
    [a.x().value(), a.y().value(), a.z().value()]
}
fn same(l: &'static str, a: A3, b: A3) {
    ensure_eq(l, a[0], b[0], 1e-12 * (b[0].abs() + b[1].abs() + b[2].abs()));
    ensure_eq(l, a[1], b[1], 1e-12 * (b[0].abs() + b[1].abs() + b[2].abs()));
    ensure_eq(l, a[2], b[2], 1e-12 * (b[0].abs() + b[1].abs() + b[2].abs()));
}

struct AnyDensity;
impl DensityProvider for AnyDensity {
    fn name(&self) -> &'static str {
        "any"
    }
    fn density(&self, h: Kilometers) -> Result<KilogramsPerCubicMeter, DynamicsError> {
        Ok(KilogramsPerCubicMeter::new(func("rho", h.value())))
    }
}
fn eph_ctx() -> DynamicsContext {
    DynamicsContext::builder().with_ephemeris(Arc::new(AnyEph)).build()
}
/// Sun and Moon as seen from the Earth, turned to equatorial axes by the J2000 obliquity
fn sun_moon(t: JulianDate) -> (A3, A3) {
    let (s, e, m) = (<AnyEph as Ephemeris>::sun_barycentric(t), <AnyEph as Ephemeris>::earth_barycentric(t), <AnyEph as Ephemeris>::moon_geocentric(t));
    let (so, co) = (84381.406f64 / 3600.0).to_radians().sin_cos();
    let turn = |x: f64, y: f64, z: f64| [x, co * y - so * z, so * y + co * z];
    const AU: f64 = 149597870.7;
    (turn(AU * (s.x() - e.x()).value(), AU * (s.y() - e.y()).value(), AU * (s.z() - e.z()).value()), turn(m.x().value(), m.y().value(), m.z().value()))
}
/// the same Sun by the crate's own rotation (compared with the above by vc_p09_sun_moon)
fn sun_exact(t: JulianDate) -> A3 {
    let (s, e) = (<AnyEph as Ephemeris>::sun_barycentric(t), <AnyEph as Ephemeris>::earth_barycentric(t));
    let r = siderust::astro::precession::ecliptic_of_date_to_mean_equatorial_matrix(JulianDate::new(2451545.0));
    let d: Displacement<GCRS, AstronomicalUnit> = r.apply_vec(s - e);
    [d.x().to::<Kilometer>().value(), d.y().to::<Kilometer>().value(), d.z().to::<Kilometer>().value()]
}
/// a state at the distance d of a body at the distance S
fn near(n: [&'static str; 6], v: A3, t: JulianDate) -> (Here, A3) {
    let (u, _) = axes(real(n[1], -3.1, 3.1), real(n[2], -1.5, 1.5), 0.0);
    let (e, _) = axes(real(n[4], -3.1, 3.1), real(n[5], -1.5, 1.5), 0.0);
    let (sd, d) = (real(n[0], 1e4, 2e8), real(n[3], 10.0, 2e8));
    let s = [sd * u[0], sd * u[1], sd * u[2]];
    (at([s[0] + d * e[0], s[1] + d * e[1], s[2] + d * e[2]], v, t), s)
}
fn at_epoch(h: &Here) -> JulianDate {
    h.s.epoch.to::<siderust::time::JD>()
}

/// a body at a given place with a given mass
struct Body(A3, f64);
impl ThirdBodyProvider for Body {
    fn name(&self) -> &'static str {
        "body"
    }
    fn gm(&self) -> GravitationalParameter {
        GravitationalParameter::new(self.1)
    }
    fn position_relative_to_origin(&self, _e: &Arc<dyn DynEphemeris + Send + Sync>, _t: JulianDate) -> Result<Displacement<GCRS, Kilometer>, DynamicsError> {
        Ok(Displacement::<GCRS, Kilometer>::new(self.0[0], self.0[1], self.0[2]))
    }
}
/// tidal acceleration of a point mass: direct minus the pull on the Earth
fn tide(mu: f64, r: A3, s: A3) -> A3 {
    let d = [r[0] - s[0], r[1] - s[1], r[2] - s[2]];
    let q = (dot(r, r) - 2.0 * dot(r, s)) / dot(s, s);
    let d3 = (1.0 + q) * (1.0 + q).sqrt() * dot(s, s) * norm(s); // |r - s|^3
    let s3 = dot(s, s) * norm(s);
    [-mu * (d[0] / d3 + s[0] / s3), -mu * (d[1] / d3 + s[1] / s3), -mu * (d[2] / d3 + s[2] / s3)]
}

contracts! {
    fn vc_p09_drag() {
        let h = anywhere();
        let (cd, am) = (real("cd", 0.0, 5.0), real("A/m", 0.0, 10.0));
        let own = each("given rate", 0, 1) == 1;
        let w = if own { real("rate", -1e-3, 1e-3) } else { OMEGA };
        let m = if own { DragForce::with_omega(DragCoefficient::new(cd), AreaToMass::new(am), InverseSeconds::new(w)) }
                else { DragForce::new(DragCoefficient::new(cd), AreaToMass::new(am)) };
        ensure("drag without an atmosphere is refused", m.acceleration(&h.s, &DynamicsContext::empty()).is_err());
        let ctx = DynamicsContext::builder().with_atmosphere(Arc::new(AnyDensity)).build();
        let got = m.acceleration(&h.s, &ctx);
        let alt = if symbolic() { unsafe { ALT[5] } } else {
            geodetic_altitude(&Position::<GCRS>::new(h.r[0], h.r[1], h.r[2]), Kilometers::new(WGS_A), Ratios::new(WGS_F)).value()
        };
        if symbolic() {
            let a = unsafe { ALT };
            for i in 0..3 {
                ensure_eq("altitude is asked at the satellite", a[i], h.r[i], 0.0);
            }
            ensure_eq("altitude above the WGS84 ellipsoid (equator)", a[3], WGS_A, 1e-9);
            ensure_eq("altitude above the WGS84 ellipsoid (flattening)", a[4], WGS_F, 1e-15);
        }
        if alt < 0.0 {
            reach("below ground");
            ensure("below the surface is refused", got.is_err());
            return;
        }
        match got {
            Ok(a) => {
                reach("drag");
                let u = [h.v[0] + w * h.r[1], h.v[1] - w * h.r[0], h.v[2]];
                let k = -0.5 * cd * am * func("rho", alt) * 1000.0 * norm(u);
                same("drag opposes the motion through the co-rotating air", v3(&a), [k * u[0], k * u[1], k * u[2]]);
            }
            Err(_) => ensure("drag above ground has an answer", false),
        }
    }
    fn vc_p09_altitude() {
        let place = each("place", 0, 2);
        let (ae, fl) = (WGS_A, WGS_F);
        let be = ae * (1.0 - fl);
        let (a, f) = (Kilometers::new(ae), Ratios::new(fl));
        match place {
            0 => {
                let (l, h) = (real("lon", -3.1, 3.1), real("h", -20.0, 40000.0));
                let p = Position::<GCRS>::new((ae + h) * l.cos(), (ae + h) * l.sin(), 0.0);
                reach("equator");
                ensure_eq("height above the equator", geodetic_altitude(&p, a, f).value(), h, 1e-6);
            }
            1 => {
                let (south, h) = (flag("south"), real("h", -20.0, 40000.0));
                let p = Position::<GCRS>::new(0.0, 0.0, if south { -(be + h) } else { be + h });
                reach("pole");
                ensure_eq("height above the pole", geodetic_altitude(&p, a, f).value(), h, 1e-6);
            }
            _ => {
                // a grid of latitudes and heights (bounded)
                let (k, m) = (each("latitude/10", -8, 8), each("height", 0, 2));
                let (s, c) = (k as f64 * 10.0).to_radians().sin_cos();
                let h = [0.0, 400.0, 36000.0][m as usize];
                let e2 = WGS_F * (2.0 - WGS_F);
                let n = WGS_A / (1.0 - e2 * s * s).sqrt();
                let p = if k % 2 == 0 { Position::<GCRS>::new((n + h) * c, 0.0, (n * (1.0 - e2) + h) * s) } else { Position::<GCRS>::new(0.0, -(n + h) * c, (n * (1.0 - e2) + h) * s) };
                reach("grid");
                ensure_eq("height above the ellipsoid", geodetic_altitude(&p, a, f).value(), h, 1e-5);
            }
        }
    }
    fn vc_p09_empirical() {
        let h = anywhere();
        let k = any3(["R", "T", "N"], 1e-3);
        let q = |x: f64| KmPerSecondsSquared::new(x);
        let n = cross(h.r, h.v);
        let got = EmpiricalAcceleration::rtn(q(k[0]), q(k[1]), q(k[2])).acceleration(&h.s, &DynamicsContext::empty());
        match got {
            Err(_) => {
                reach("degenerate");
                ensure("refused only without an orbit plane", dot(n, n) == 0.0);
            }
            Ok(a) => {
                assume(dot(n, n) > 1e-6);
                reach("plane");
                let a = v3(&a);
                ensure_eq("radial part", dot(a, h.r), k[0] * norm(h.r), 1e-12 * norm(h.r));
                ensure_eq("normal part", dot(a, n), k[2] * norm(n), 1e-12 * norm(n));
                let t = cross(n, h.r);
                ensure_eq("transverse part", dot(a, t), k[1] * norm(n) * norm(h.r), 1e-12 * norm(n) * norm(h.r));
            }
        }
    }
    fn vc_p09_periodic() {
        let h = anywhere();
        let n = cross(h.r, h.v);
        assume(dot(n, n) > 1e-3);
        assume(dot(h.r, h.r) > 1.0);
        assume(dot(h.v, h.v) > 1e-3);
        let twice = each("twice", 0, 1) == 1;
        let t0 = JulianDate::new(real("reference", 2440000.0, 2488000.0));
        let period = real("period", 1000.0, 1e6);
        let c = any3(["Rc", "Tc", "Nc"], 1e-3);
        let s = any3(["Rs", "Ts", "Ns"], 1e-3);
        let q = |x: f64| KmPerSecondsSquared::new(x);
        let m = EmpiricalPeriodicAcceleration::new(if twice { PeriodicHarmonic::TwicePerRev } else { PeriodicHarmonic::OncePerRev }, t0, Second::new(period),
            q(c[0]), q(s[0]), q(c[1]), q(s[1]), q(c[2]), q(s[2]));
        match m.acceleration(&h.s, &DynamicsContext::empty()) {
            Ok(a) => {
                reach("periodic");
                let th = (if twice { 2.0 } else { 1.0 }) * std::f64::consts::TAU * (at_epoch(&h).value() - t0.value()) * 86400.0 / period;
                let k = [c[0] * th.cos() + s[0] * th.sin(), c[1] * th.cos() + s[1] * th.sin(), c[2] * th.cos() + s[2] * th.sin()];
                let a = v3(&a);
                ensure_eq("radial part", dot(a, h.r), k[0] * norm(h.r), 1e-9 * norm(h.r));
                ensure_eq("normal part", dot(a, n), k[2] * norm(n), 1e-9 * norm(n));
                let t = cross(n, h.r);
                ensure_eq("transverse part", dot(a, t), k[1] * norm(n) * norm(h.r), 1e-9 * norm(n) * norm(h.r));
            }
            Err(_) => ensure("periodic acceleration has an answer", false),
        }
    }
    fn vc_p09_relativity() {
        let h = anywhere();
        let gm = real("gm", 1.0, 1e9);
        let m = CentralBodyRelativity1Pn { gm: GravitationalParameter::new(gm), c: KmPerSeconds::new(real("c", 1e5, 4e5)) };
        let c = m.c.value();
        match m.acceleration(&h.s, &DynamicsContext::empty()) {
            Ok(a) => {
                reach("relativity");
                let r = norm(h.r);
                let k = gm / (c * c * r * r * r);
                let (p, q) = (4.0 * gm / r - dot(h.v, h.v), 4.0 * dot(h.r, h.v));
                same("Schwarzschild term", v3(&a), [k * (p * h.r[0] + q * h.v[0]), k * (p * h.r[1] + q * h.v[1]), k * (p * h.r[2] + q * h.v[2])]);
            }
            Err(_) => ensure("refused only close to the center", norm(h.r) < 100.0),
        }
        let e = CentralBodyRelativity1Pn::earth();
        ensure_eq("Earth's parameter", e.gm.value(), 398600.4418, 1e-9);
        ensure_eq("speed of light", e.c.value(), 299792.458, 1e-9);
    }
    fn vc_p09_geopotential() {
        let h = anywhere();
        let (n, m) = (each("degree", 0, 4) as usize, each("order", 0, 4) as usize);
        assume(m <= n);
        let ctx = DynamicsContext::builder().with_gravity(Arc::new(LowDegreeEarth)).build();
        let g = if m == n { Geopotential::full(n) } else { Geopotential::new(n, m) };
        ensure("a geopotential without a field is refused", g.acceleration(&h.s, &DynamicsContext::empty()).is_err());
        let got = g.acceleration(&h.s, &ctx);
        if !symbolic() {
            return;
        }
        match got {
            Ok(a) => {
                reach("geopotential");
                let k = unsafe { KERNEL };
                let e = if m > 0 { siderust::astro::era::earth_rotation_angle(at_epoch(&h)).value() } else { 0.0 };
                let (s, c) = e.sin_cos();
                ensure_eq("body-fixed x asked of the field", k[0], c * h.r[0] + s * h.r[1], 1e-9);
                ensure_eq("body-fixed y asked of the field", k[1], -s * h.r[0] + c * h.r[1], 1e-9);
                ensure_eq("body-fixed z asked of the field", k[2], h.r[2], 1e-9);
                ensure_eq("degree asked of the field", k[3], n as f64, 0.0);
                ensure_eq("order asked of the field", k[4], m as f64, 0.0);
                ensure_eq("no answer inside the Earth", k[5], WGS_A, 1e-9);
                let (x, y, z) = (func("kernel.x", 0.0), func("kernel.y", 0.0), func("kernel.z", 0.0));
                same("pull turned back to space axes", v3(&a), [c * x - s * y, s * x + c * y, z]);
            }
            Err(_) => ensure("a geopotential has an answer", false),
        }
    }
    fn vc_p09_central() {
        let h = anywhere();
        let r = norm(h.r);
        assume(r > WGS_A + 1.0);
        assume(h.r[0] * h.r[0] + h.r[1] * h.r[1] > 1.0);
        let n = 0;
        let ctx = DynamicsContext::builder().with_gravity(Arc::new(LowDegreeEarth)).build();
        match Geopotential::new(n, 0).acceleration(&h.s, &ctx) {
            Ok(a) => {
                reach("zonal");
                let k = -398600.4418 / (r * r * r);
                                same("central pull", v3(&a), [k * h.r[0], k * h.r[1], k * h.r[2]]);
            }
            Err(_) => ensure("the zonal field has an answer", false),
        }
    }
    fn vc_p09_third_body() {
        let h = anywhere();
        let mu = real("mu", 0.0, 2e11);
        let (h, s) = near(["S", "S lon", "S lat", "d", "d lon", "d lat"], h.v, h.t);
        match ThirdBody::new().with(Box::new(Body(s, mu))).acceleration(&h.s, &eph_ctx()) {
            Ok(a) => {
                reach("third body");
                same("direct pull minus the pull on the Earth", v3(&a), tide(mu, h.r, s));
            }
            Err(_) => ensure("a third body has an answer", false),
        }
    }
    fn vc_p09_sun_moon() {
        let t = JulianDate::new(real("epoch", 2440000.0, 2488000.0));
        let eph: Arc<dyn DynEphemeris + Send + Sync> = Arc::new(AnyEph);
        let (sun, moon) = sun_moon(t);
        match (SunPerturbation.position_relative_to_origin(&eph, t), MoonPerturbation.position_relative_to_origin(&eph, t)) {
            (Ok(s), Ok(m)) => {
                reach("bodies");
                let (s, m) = ([s.x().value(), s.y().value(), s.z().value()], [m.x().value(), m.y().value(), m.z().value()]);
                for i in 0..3 {
                    ensure_eq("geocentric Sun", s[i], sun[i], 1.0);
                    ensure_eq("geocentric Moon", m[i], moon[i], 1e-3);
                }
            }
            _ => ensure("Sun and Moon have places", false),
        }
        ensure_eq("pull of the Sun", SunPerturbation.gm().value(), 1.32712440018e11, 1.0);
        ensure_eq("pull of the Moon", MoonPerturbation.gm().value(), 4902.800066, 1e-3);
    }
    fn vc_p09_third_body_sum() {
        let h = anywhere();
        let (h, s) = near(["S", "S lon", "S lat", "d", "d lon", "d lat"], h.v, h.t);
        let which = each("bodies", 0, 4);
        let m = match which { 0 => ThirdBody::new(), 1 => ThirdBody::new().with_sun(), 2 => ThirdBody::default().with_moon(), 3 => ThirdBody::sun_and_moon(),
                              _ => ThirdBody::new().with(Box::new(Body(s, 100.0))).with(Box::new(Body(s, 1e8))) };
        let bare = m.acceleration(&h.s, &DynamicsContext::empty());
        ensure("an ephemeris is needed exactly if there is a body", bare.is_ok() == (which == 0));
        unsafe { PLACES = [s, s] };
        let (sun, moon) = if symbolic() { (s, s) } else { sun_moon(at_epoch(&h)) };
        match m.acceleration(&h.s, &eph_ctx()) {
            Ok(a) => {
                reach("bodies");
                let z = [0.0; 3];
                let (gs, gm) = (GM_SUN.value(), GM_MOON.value());
                let (x, y) = match which {
                    0 => (z, z),
                    1 => (tide(gs, h.r, sun), z),
                    2 => (tide(gm, h.r, moon), z),
                    3 => (tide(gs, h.r, sun), tide(gm, h.r, moon)),
                    _ => (tide(100.0, h.r, s), tide(1e8, h.r, s)),
                };
                let a = v3(&a);
                if symbolic() && (which == 1 || which == 3) { ensure_eq("Sun at the state's epoch", unsafe { DATE[0] }, at_epoch(&h).value(), 0.0); }
                if symbolic() && (which == 2 || which == 3) { ensure_eq("Moon at the state's epoch", unsafe { DATE[1] }, at_epoch(&h).value(), 0.0); }
                let sz = 1e-9 * (norm(x) + norm(y)) + 1e-20;
                for i in 0..3 {
                    ensure_eq("pulls of all bodies add up", a[i], x[i] + y[i], sz);
                }
            }
            Err(_) => ensure("third bodies have an answer", false),
        }
    }
    fn vc_p09_srp() {
        let h = anywhere();
        let (cr, am) = (real("cr", 0.0, 3.0), real("A/m", 0.0, 10.0));
        let model = each("shadow", 0, 2);
        let (c, m) = (SrpCoefficient::new(cr), AreaToMass::new(am));
        let go = |ctx: &DynamicsContext| match model {
            0 => CannonballSrp::<NoEclipse>::new(c, m).acceleration(&h.s, ctx),
            1 => CannonballSrp::<Cylindrical>::new(c, m).acceleration(&h.s, ctx),
            _ => CannonballSrp::<Conical>::new(c, m).acceleration(&h.s, ctx),
        };
        ensure("radiation pressure without an ephemeris is refused", go(&DynamicsContext::empty()).is_err());
        let sun = sun_exact(at_epoch(&h));
        let d = [h.r[0] - sun[0], h.r[1] - sun[1], h.r[2] - sun[2]];
        assume(dot(d, d) > 1e12);
        match go(&eph_ctx()) {
            Ok(a) => {
                reach("pressure");
                let (ds, dn) = (Displacement::<GCRS, Kilometer>::new(h.r[0], h.r[1], h.r[2]), Displacement::<GCRS, Kilometer>::new(sun[0], sun[1], sun[2]));
                let nu = match model { 0 => 1.0,
                    1 => if symbolic() { func("lit.cylinder", 0.0) } else { Cylindrical::eclipse_factor(ds, dn).value() },
                    _ => if symbolic() { func("lit.cone", 0.0) } else { Conical::eclipse_factor(ds, dn).value() } };
                if symbolic() && model > 0 {
                    let q = unsafe { SHADE };
                    for i in 0..3 {
                        ensure_eq("shadow is asked at the satellite", q[i], h.r[i], 1e-9);
                        ensure_eq("shadow is asked for the Sun's place", q[3 + i], sun[i], 1e-3);
                    }
                }
                const AU: f64 = 149597870.7;
                let k = nu * cr * 4.56e-6 * am / 1000.0 * AU * AU / (dot(d, d) * norm(d));
                same("light pushes away from the Sun by the inverse square", v3(&a), [k * d[0], k * d[1], k * d[2]]);
            }
            Err(_) => ensure("radiation pressure has an answer", false),
        }
    }
    fn vc_p09_cylinder() {
        // axes: the Sun along u, the satellite in the plane of u and w
        let (lon, lat, roll) = (real("lon", -3.1, 3.1), real("lat", -1.5, 1.5), real("roll", -3.1, 3.1));
        let (u, w) = axes(lon, lat, roll);
        let (x, y, d) = (real("along", -1e5, 1e5), real("across", 0.0, 1e5), real("Sun", 1e6, 2e8));
        let sat = Displacement::<GCRS, Kilometer>::new(x * u[0] + y * w[0], x * u[1] + y * w[1], x * u[2] + y * w[2]);
        let sun = Displacement::<GCRS, Kilometer>::new(d * u[0], d * u[1], d * u[2]);
        let nu = Cylindrical::eclipse_factor(sat, sun).value();
        let dark = x < 0.0 && y < WGS_A;
        if !symbolic() {
            assume((x.abs() > 1e-3) && (y - WGS_A).abs() > 1e-3);
        }
        ensure_eq("dark exactly in the cylinder behind the Earth", nu, if dark { 0.0 } else { 1.0 }, 0.0);
        ensure_eq("no eclipse, always lit", NoEclipse::eclipse_factor(sat, sun).value(), 1.0, 0.0);
        reach("cylinder");
    }
    fn vc_p09_cone() {
        // seen from the satellite: the Earth along e with angular radius a, the Sun an angle th away with angular radius b
        let (u, w) = axes(real("lon", -3.1, 3.1), real("lat", -1.5, 1.5), real("roll", -3.1, 3.1));
        let th = real("separation", 0.01, 3.1);
        let (de, ds) = (real("Earth distance", WGS_A, 2e6), real("Sun distance", 7e5, 2e8));
        let sat = Displacement::<GCRS, Kilometer>::new(-de * u[0], -de * u[1], -de * u[2]);
        let p = [ds * (th.cos() * u[0] + th.sin() * w[0]), ds * (th.cos() * u[1] + th.sin() * w[1]), ds * (th.cos() * u[2] + th.sin() * w[2])];
        let sun = Displacement::<GCRS, Kilometer>::new(p[0] - de * u[0], p[1] - de * u[1], p[2] - de * u[2]);
        let nu = Conical::eclipse_factor(sat, sun).value();
        let (a, b) = ((WGS_A / de).asin(), (695700.0 / ds).asin());
        if !symbolic() {
            assume((th - a - b).abs() > 1e-9 && (th - (a - b).abs()).abs() > 1e-9);
        }
        if th >= a + b {
            reach("clear");
            ensure_eq("a clear Sun is fully lit", nu, 1.0, 0.0);
        } else if a >= b && th <= a - b {
            reach("total");
            ensure_eq("a covered Sun is dark", nu, 0.0, 0.0);
        } else if b > a && th <= b - a {
            reach("annular");
            ensure_eq("an annular eclipse leaves the ring", nu, 1.0 - a * a / (b * b), 1e-9);
        } else {
            reach("partial");
            ensure("a partial eclipse leaves a part", nu >= 0.0 && nu <= 1.0);
            let x = ((th * th + b * b - a * a) / (2.0 * th * b)).clamp(-1.0, 1.0).acos();
            let y = ((th * th + a * a - b * b) / (2.0 * th * a)).clamp(-1.0, 1.0).acos();
            let k = ((a + b + th) * (a + b - th) * (th + b - a) * (th - b + a)).max(0.0).sqrt();
            let lens = b * b * x + a * a * y - 0.5 * k;
            ensure_eq("the lens of the two discs is missing", nu, (1.0 - lens / (std::f64::consts::PI * b * b)).clamp(0.0, 1.0), 1e-9);
        }
    }
    fn vc_p09_density() {
        let h = real("h", -100.0, 2000.0);
        let k = Kilometers::new(h);
        let (r0, h0, sc) = (real("rho0", 0.0, 10.0), real("h0", 0.0, 1000.0), real("scale", 1.0, 500.0));
        match (ExponentialAtmosphere { rho0: KilogramsPerCubicMeter::new(r0), h0: Kilometers::new(h0), scale_height: Kilometers::new(sc) }).density(k) {
            Ok(d) => {
                ensure("air exists above ground only", h >= 0.0);
                ensure_eq("exponential profile", d.value(), r0 * ((h0 - h) / sc).exp(), 1e-12 * d.value());
            }
            Err(_) => ensure("air above ground has a density", h < 0.0),
        }
        match (ConstantDensity { rho: KilogramsPerCubicMeter::new(r0) }).density(k) {
            Ok(d) => ensure_eq("constant profile", d.value(), r0, 0.0),
            Err(_) => ensure("constant profile has a density", false),
        }
        reach("density");
    }
    fn vc_p09_table_density() {
        use siderust_archive::atmosphere::tables::NRLMSISE_TABLE as T;
        let n = T.len();
        let i = each("row", 0, 40);
        assume((i as usize) <= n);
        let h = real("h", -10.0, 2000.0);
        let got = Nrlmsise00LiteApprox.density(Kilometers::new(h));
        if i == 0 {
            assume(h <= T[0].0.value());
            match got {
                Ok(d) => { ensure("air exists above ground only", h >= 0.0); ensure_eq("lowest table density", d.value(), T[0].1.value(), 0.0); }
                Err(_) => ensure("air above ground has a density", h < 0.0),
            }
            return;
        }
        let j = if i as usize == n { n - 2 } else { i as usize - 1 };
        let (a, b) = (T[j], T[j + 1]);
        if i as usize == n { assume(h >= b.0.value()); } else { assume(h >= a.0.value() && h <= b.0.value()); }
        reach("row");
        match got {
            Ok(d) => {
                let f = (h - a.0.value()) / (b.0 - a.0).value();
                let e = ((1.0 - f) * a.1.value().ln() + f * b.1.value().ln()).exp();
                ensure_eq("log-linear between the table rows", d.value(), e, 1e-9 * e);
            }
            Err(_) => ensure("air above ground has a density", false),
        }
    }
    fn vc_p09_spacecraft() {
        let (m, da, cd, sa, cr) = (any("mass"), any("drag area"), any("cd"), any("srp area"), any("cr"));
        let ok = |x: f64| x.is_finite() && x >= 0.0;
        let good = ok(m) && m > 0.0 && ok(da) && ok(sa) && ok(cd) && ok(cr);
        match SpacecraftProperties::try_new(Kilograms::new(m), SquareMeters::new(da), DragCoefficient::new(cd), SquareMeters::new(sa), SrpCoefficient::new(cr)) {
            Ok(p) => {
                reach("spacecraft");
                ensure("physical parameters only", good);
                ensure_eq("drag area per mass", p.drag_area_to_mass().value(), da / m, 0.0);
                ensure_eq("radiation area per mass", p.srp_area_to_mass().value(), sa / m, 0.0);
                ensure("parameters are kept", p.mass.value() == m && p.drag_area.value() == da && p.cd.value() == cd && p.srp_area.value() == sa && p.cr.value() == cr);
            }
            Err(_) => ensure("only unphysical parameters are refused", !good),
        }
    }
    fn vc_p09_thrust() {
        let (t0, t1, t) = (real("start", 0.0, 1e6), real("stop", 0.0, 1e6), real("t", -1e6, 2e6));
        let at = |x: f64| tempoch::Time::<tempoch::UTC>::from_raw_j2000_seconds(Second::new(x)).unwrap();
        let (f, isp, m) = (real("thrust", 0.0, 1e5), real("isp", -10.0, 1e4), real("mass", -10.0, 1e6));
        let d = any3(["dx", "dy", "dz"], 100.0);
        match ThrustArc::with_normalised_direction(at(t0), at(t1), siderust::qtty::force::Newtons::new(f), Second::new(isp), d) {
            Ok(arc) => {
                ensure("a burn needs an impulse, a length and a direction", isp > 0.0 && t1 > t0 && dot(d, d) > 0.0);
                match thrust_acceleration(&arc, Kilograms::new(m), at(t)) {
                    Ok(a) => {
                        reach("thrust");
                        ensure("a craft has mass", m > 0.0);
                        let k = if t >= t0 && t < t1 { f / (m * norm(d)) } else { 0.0 };
                        same("thrust over mass along the direction while burning", a, [k * d[0], k * d[1], k * d[2]]);
                    }
                    Err(_) => ensure("a craft without mass is refused", m <= 0.0),
                }
                match mass_flow_rate(arc.thrust, arc.isp) {
                    Ok(r) => ensure_eq("mass flow", r * isp * 9.80665, f, 1e-9 * f),
                    Err(_) => ensure("mass flow has an answer", false),
                }
            }
            Err(_) => ensure("only ill-defined burns are refused", isp <= 0.0 || t1 <= t0 || dot(d, d) == 0.0),
        }
    }
    fn vc_p09_low_thrust() {
        let at = |x: f64| tempoch::Time::<tempoch::UTC>::from_raw_j2000_seconds(Second::new(x)).unwrap();
        let m0 = real("mass", 1.0, 1e5);
        let mut log = LowThrustLog::new(Kilograms::new(m0));
        let (mut m, mut dv) = (m0, 0.0);
        for n in 0..2 {
            let (f, isp, dt) = (real(["f0", "f1"][n], 0.0, 10.0), real(["isp0", "isp1"][n], 10.0, 1e4), real(["dt0", "dt1"][n], 1.0, 1e7));
            let arc = ThrustArc { start: at(0.0), stop: at(dt), thrust: siderust::qtty::force::Newtons::new(f), isp: Second::new(isp), direction: [1.0, 0.0, 0.0] };
            let used = f / (isp * 9.80665) * dt;
            match log.append(&arc) {
                Ok(r) => {
                    ensure("propellant does not exceed the mass", m - used > 0.0);
                    ensure_eq("mass before the burn", r.wet_mass_before.value(), m, 0.0);
                    ensure_eq("propellant used", r.propellant_used.value(), used, 1e-9 * used);
                    ensure_eq("rocket equation", r.delta_v.value(), isp * 9.80665 * (m / (m - used)).ln(), 1e-9);
                    dv += r.delta_v.value();
                    m -= used;
                }
                Err(_) => {
                    reach("empty tank");
                    ensure("a burn within the mass is kept", m - used <= 0.0);
                    ensure_eq("a refused burn changes nothing", log.current_mass().value(), m, 1e-9);
                    ensure_eq("a refused burn is not recorded", log.records().len() as f64, n as f64, 0.0);
                    return;
                }
            }
            ensure_eq("current mass", log.current_mass().value(), m, 1e-9);
            ensure_eq("total speed change", log.total_delta_v().value(), dv, 1e-9);
            ensure_eq("total propellant", log.total_propellant().value(), m0 - m, 1e-9);
        }
        reach("two burns");
    }
    fn vc_p09_composite() {
        let h = anywhere();
        let k = any3(["R", "T", "N"], 1e-3);
        let n = cross(h.r, h.v);
        assume(dot(n, n) > 1.0);
        assume(dot(h.r, h.r) > 1e6);
        let q = |x: f64| KmPerSecondsSquared::new(x);
        let e = EmpiricalAcceleration::rtn(q(k[0]), q(k[1]), q(k[2]));
        let ctx = DynamicsContext::empty();
        let rel = CentralBodyRelativity1Pn::earth();
        let sum = CompositeModel::empty().push(Box::new(e)).push(Box::new(rel)).acceleration(&h.s, &ctx);
        let (a, b) = (e.acceleration(&h.s, &ctx), rel.acceleration(&h.s, &ctx));
        match (sum, a, b) {
            (Ok(s), Ok(a), Ok(b)) => {
                reach("sum");
                let (s, a, b) = (v3(&s), v3(&a), v3(&b));
                for i in 0..3 {
                    ensure_eq("a composite model is the sum of its parts", s[i], a[i] + b[i], 1e-12);
                }
            }
            _ => ensure("a composite model has an answer", false),
        }
    }
}
fn axes(lon: f64, lat: f64, roll: f64) -> (A3, A3) {
    let u = [lat.cos() * lon.cos(), lat.cos() * lon.sin(), lat.sin()];
    let (e, n) = ([-lon.sin(), lon.cos(), 0.0], [-lat.sin() * lon.cos(), -lat.sin() * lon.sin(), lat.cos()]);
    let w = [0, 1, 2].map(|i| roll.cos() * e[i] + roll.sin() * n[i]);
    (u, w)
}
