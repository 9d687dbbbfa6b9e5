//! P01: azimuth conventions.
use crate::rt::*;
use siderust::coordinates::horizontal::*;
use siderust::coordinates::centers::{Geodetic, Topocentric};
use siderust::coordinates::frames::{Horizontal, ECEF};
use siderust::qtty::*;
use affn::spherical::Direction;

fn origin(k: i64) -> (AzimuthOrigin, f64) {
    match k {
        0 => (AzimuthOrigin::North, 0.0),
        1 => (AzimuthOrigin::East, 90.0),
        2 => (AzimuthOrigin::South, 180.0),
        _ => (AzimuthOrigin::West, 270.0),
    }
}
fn sense(b: bool) -> (AzimuthSense, f64) {
    if b { (AzimuthSense::Clockwise, 1.0) } else { (AzimuthSense::CounterClockwise, -1.0) }
}
/// compass bearing (clockwise from North, degrees) named by `az` under a convention
fn bearing(off: f64, s: f64, az: f64) -> f64 {
    (off + s * az) * std::f64::consts::PI / 180.0
}

contracts! {
    fn vc_p01_convert() {
        let (o1, f1) = origin(each("from.origin", 0, 3));
        let (s1, g1) = sense(flag("from.sense"));
        let (o2, f2) = origin(each("to.origin", 0, 3));
        let (s2, g2) = sense(flag("to.sense"));
        let az = real("az", -1e5, 1e5);
        let from = HorizontalConvention::new(o1, s1);
        let to = HorizontalConvention::new(o2, s2);
        let r = convert_azimuth(Degrees::new(az), &from, &to).value();
        ensure("convert_azimuth result in [0,360]", r >= 0.0 && r <= 360.0);
        let (b1, b2) = (bearing(f1, g1, az), bearing(f2, g2, r));
        ensure_eq("convert_azimuth keeps the bearing (north component)", b1.cos(), b2.cos(), 1e-8);
        ensure_eq("convert_azimuth keeps the bearing (east component)", b1.sin(), b2.sin(), 1e-8);
        let back = convert_azimuth(Degrees::new(r), &to, &from).value();
        let b3 = bearing(f1, g1, back);
        ensure_eq("there and back north", b3.cos(), b1.cos(), 1e-8);
        ensure_eq("there and back east", b3.sin(), b1.sin(), 1e-8);
    }
    fn vc_p01_direction() {
        let (o1, f1) = origin(each("from.origin", 0, 3));
        let (s1, g1) = sense(flag("from.sense"));
        let (o2, f2) = origin(each("to.origin", 0, 3));
        let (s2, g2) = sense(flag("to.sense"));
        let (az, alt) = (real("az", 0.0, 359.999999), real("alt", -90.0, 90.0));
        let (from, to) = (HorizontalConvention::new(o1, s1), HorizontalConvention::new(o2, s2));
        let d = Direction::<Horizontal>::new(Degrees::new(alt), Degrees::new(az));
        let which = each("entry point", 0, 2);
        let (r, a, b) = match which {
            0 => (convert_direction(&d, &from, &to), (f1, g1), (f2, g2)),
            1 => (direction_to_native(&d, &from), (f1, g1), (0.0, 1.0)),
            _ => (direction_from_native(&d, &to), (0.0, 1.0), (f2, g2)),
        };
        ensure_eq("direction keeps its altitude", r.alt().value(), alt, 1e-9);
        let (b1, b2) = (bearing(a.0, a.1, az), bearing(b.0, b.1, r.az().value()));
        ensure_eq("direction keeps its bearing (north component)", b1.cos(), b2.cos(), 1e-8);
        ensure_eq("direction keeps its bearing (east component)", b1.sin(), b2.sin(), 1e-8);
    }
    fn vc_p01_position() {
        let (o1, f1) = origin(each("from.origin", 0, 3));
        let (s1, g1) = sense(flag("from.sense"));
        let (o2, f2) = origin(each("to.origin", 0, 3));
        let (s2, g2) = sense(flag("to.sense"));
        let (az, alt, dist) = (real("az", 0.0, 359.999999), real("alt", -90.0, 90.0), real("distance", 0.0, 1e12));
        let (lon, lat, h) = (real("site lon", -179.0, 179.0), real("site lat", -89.0, 89.0), real("site height", -500.0, 9000.0));
        let site = Geodetic::<ECEF>::new(Degrees::new(lon), Degrees::new(lat), Meters::new(h));
        let p = Topocentric::horizontal::<Kilometer, _>(site, Degrees::new(alt), Degrees::new(az), Kilometers::new(dist));
        let (from, to) = (HorizontalConvention::new(o1, s1), HorizontalConvention::new(o2, s2));
        let which = each("entry point", 0, 2);
        let (r, a, b) = match which {
            0 => (convert_position(&p, &from, &to), (f1, g1), (f2, g2)),
            1 => (position_to_native(&p, &from), (f1, g1), (0.0, 1.0)),
            _ => (position_from_native(&p, &to), (0.0, 1.0), (f2, g2)),
        };
        ensure_eq("position keeps its altitude", r.alt().value(), alt, 1e-9);
        ensure_eq("position keeps its distance", r.distance.value(), dist, 0.0);
        ensure_eq("position keeps its site longitude", r.center_params().lon.value(), lon, 1e-9);
        ensure_eq("position keeps its site latitude", r.center_params().lat.value(), lat, 1e-9);
        ensure_eq("position keeps its site height", r.center_params().height.value(), h, 0.0);
        let (b1, b2) = (bearing(a.0, a.1, az), bearing(b.0, b.1, r.az().value()));
        ensure_eq("position keeps its bearing (north component)", b1.cos(), b2.cos(), 1e-8);
        ensure_eq("position keeps its bearing (east component)", b1.sin(), b2.sin(), 1e-8);
    }
    fn vc_p01_flips() {
        let az = real("az", -1e5, 1e5);
        let (o, f) = origin(each("origin", 0, 3));
        let r = flip_north_south(Degrees::new(az)).value();
        ensure("flip_north_south result in [0,360]", r >= 0.0 && r <= 360.0);
        let (b1, b2) = (bearing(f, 1.0, az), bearing(f + 180.0, 1.0, r));
        ensure_eq("flip_north_south names the same bearing from the opposite origin (north)", b1.cos(), b2.cos(), 1e-8);
        ensure_eq("flip_north_south names the same bearing from the opposite origin (east)", b1.sin(), b2.sin(), 1e-8);
        let r = flip_sense(Degrees::new(az)).value();
        ensure("flip_sense result in [0,360]", r >= 0.0 && r <= 360.0);
        let b3 = bearing(f, -1.0, r);
        ensure_eq("flip_sense names the same bearing in the opposite sense (north)", b1.cos(), b3.cos(), 1e-8);
        ensure_eq("flip_sense names the same bearing in the opposite sense (east)", b1.sin(), b3.sin(), 1e-8);
        let _ = o;
    }
}
