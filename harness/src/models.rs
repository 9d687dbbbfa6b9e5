//! Arbitrary models handed to the code under contract: every value is an unconstrained function of
//! its argument, so a contract proved with them holds for every ephemeris / EOP table.
use crate::rt::*;
use siderust::astro::eop::{EopProvider, EopValues};
use siderust::coordinates::cartesian::{Position, Velocity};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::EclipticMeanJ2000;
use siderust::ephemeris::Ephemeris;
use siderust::qtty::*;
use siderust::time::JulianDate;
use siderust::coordinates::transform::AstroContext;

#[derive(Debug, Clone, Copy, Default)]
pub struct AnyEop;
impl EopProvider for AnyEop {
    fn eop_at(&self, t: JulianDate) -> EopValues {
        let x = t.raw().value();
        EopValues {
            dut1: Seconds::new(bounded(func("dut1", x), 1e3)),
            xp: Arcseconds::new(bounded(func("xp", x), 2.0)),
            yp: Arcseconds::new(bounded(func("yp", x), 2.0)),
            dx: MilliArcseconds::new(bounded(func("dX", x), 1e4)),
            dy: MilliArcseconds::new(bounded(func("dY", x), 1e4)),
            lod: Seconds::new(func("lod", x)),
        }
    }
}

/// Earth orientation with zero celestial-pole offsets
#[derive(Debug, Clone, Copy, Default)]
pub struct NoPoleEop;
impl EopProvider for NoPoleEop {
    fn eop_at(&self, t: JulianDate) -> EopValues {
        let v = AnyEop.eop_at(t);
        EopValues { dx: MilliArcseconds::new(0.0), dy: MilliArcseconds::new(0.0), ..v }
    }
}

#[derive(Debug, Clone, Copy, Default)]
pub struct AnyEph;
type V = siderust::ephemeris::AuPerDay;
impl Ephemeris for AnyEph {
    fn sun_barycentric(t: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit> {
        let x = t.raw().value();
        Position::new(AstronomicalUnits::new(bounded(func("sun.x", x), 100.0)), AstronomicalUnits::new(bounded(func("sun.y", x), 100.0)), AstronomicalUnits::new(bounded(func("sun.z", x), 100.0)))
    }
    fn earth_barycentric(t: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit> {
        let x = t.raw().value();
        Position::new(AstronomicalUnits::new(bounded(func("earth.x", x), 100.0)), AstronomicalUnits::new(bounded(func("earth.y", x), 100.0)), AstronomicalUnits::new(bounded(func("earth.z", x), 100.0)))
    }
    fn earth_heliocentric(t: JulianDate) -> Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit> {
        let (e, s) = (Self::earth_barycentric(t), Self::sun_barycentric(t));
        Position::new(e.x() - s.x(), e.y() - s.y(), e.z() - s.z())
    }
    fn earth_barycentric_velocity(t: JulianDate) -> Velocity<EclipticMeanJ2000, V> {
        let x = t.raw().value();
        Velocity::new(Quantity::<V>::new(bounded(func("earth.vx", x), 100.0)), Quantity::<V>::new(bounded(func("earth.vy", x), 100.0)), Quantity::<V>::new(bounded(func("earth.vz", x), 100.0)))
    }
    fn moon_geocentric(t: JulianDate) -> Position<Geocentric, EclipticMeanJ2000, Kilometer> {
        let x = t.raw().value();
        Position::new(Kilometers::new(1e5 * bounded(func("moon.x", x), 100.0)), Kilometers::new(1e5 * bounded(func("moon.y", x), 100.0)), Kilometers::new(1e5 * bounded(func("moon.z", x), 100.0)))
    }
}

pub fn bounded(v: f64, b: f64) -> f64 {
    if !symbolic() {
        return b * v.sin();
    }
    assume(v >= -b);
    assume(v <= b);
    v
}
pub fn any_ctx() -> AstroContext<AnyEph, AnyEop> {
    AstroContext::with_types()
}

/// any epoch of the civil record; native replays stay inside the UT1 horizon of the bundled tables, past which
/// the date conversion (assumed for the proof, see assumed.rs) is undefined
pub fn epoch() -> siderust::time::JulianDate {
    let j = real("jd(TT)", 2415020.0, 2488070.0);
    if !symbolic() {
        assume(j > 2441500.0 && j < 2461000.0);
    }
    siderust::time::JulianDate::new(j)
}
