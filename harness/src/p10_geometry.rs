//! P10: mission geometry.
use crate::rt::*;
use siderust::coordinates::cartesian::{Direction, Position, Velocity};
use siderust::coordinates::centers::Geocentric;
use siderust::coordinates::frames::ECEF;
use siderust::mission::geometry::*;
use siderust::mission::site::Location;
use siderust::qtty::*;
use std::f64::consts::{PI, TAU};

type A3 = [f64; 3];
type P = Position<Geocentric, ECEF, unit::Meter>;
type V = Velocity<ECEF, Per<unit::Meter, unit::Second>>;
type D = Direction<ECEF>;

fn axes(lon: f64, lat: f64, roll: f64) -> (A3, A3, A3) {
    let u = [lat.cos() * lon.cos(), lat.cos() * lon.sin(), lat.sin()];
    let (e, n) = ([-lon.sin(), lon.cos(), 0.0], [-lat.sin() * lon.cos(), -lat.sin() * lon.sin(), lat.cos()]);
    let w = [0, 1, 2].map(|i| roll.cos() * e[i] + roll.sin() * n[i]);
    let v = [0, 1, 2].map(|i| -roll.sin() * e[i] + roll.cos() * n[i]);
    (u, w, v)
}
fn any_axes() -> (A3, A3, A3) {
    axes(real("lon", -3.1, 3.1), real("lat", -1.57, 1.57), real("roll", -3.1, 3.1))
}
fn mix(a: f64, u: A3, b: f64, w: A3, c: f64, v: A3) -> A3 {
    [0, 1, 2].map(|i| a * u[i] + b * w[i] + c * v[i])
}
fn add(a: A3, b: A3) -> A3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn pos(a: A3) -> P {
    P::new(a[0], a[1], a[2])
}
fn m(x: f64) -> Meters {
    Meters::new(x)
}

/// a random place and velocity of the observer, and the target d metres away towards (azimuth, elevation)
fn look() -> (f64, f64, f64, f64, AzElRange, A3, A3) {
    let (lon, lat) = (real("lon", -3.1, 3.1), real("lat", -1.57, 1.57));
    let (u, e, n) = axes(lon, lat, 0.0);
    let half = real("bearing", 0.0, 3.1415);
    let az = if flag("west") { assume(half > 0.0); TAU - half } else { half };
    let (el, d) = (real("elevation", -1.57, 1.57), real("distance", 1.0, 1e9));
    let l = mix(el.sin(), u, el.cos() * az.sin(), e, el.cos() * az.cos(), n);
    let o = [real("ox", -1e7, 1e7), real("oy", -1e7, 1e7), real("oz", -1e7, 1e7)];
    let (vo, vt) = ([real("vx", -1e4, 1e4), real("vy", -1e4, 1e4), real("vz", -1e4, 1e4)], [real("wx", -1e4, 1e4), real("wy", -1e4, 1e4), real("wz", -1e4, 1e4)]);
    let t = [0, 1, 2].map(|i| o[i] + d * l[i]);
    let f = LocalFrame::new(Radians::new(lat), Radians::new(lon));
    let r = azimuth_elevation_range(&pos(o), &V::new(vo[0], vo[1], vo[2]), &pos(t), &V::new(vt[0], vt[1], vt[2]), f);
    (az, el, d, 0.0, r, l, [0, 1, 2].map(|i| vt[i] - vo[i]))
}

contracts! {
    fn vc_p10_azel() {
        let (az, el, d, _, r, l, v) = look();
        reach("look");
        ensure_eq("range", r.range.value(), d, 1e-6);
        ensure_eq("range rate is the relative speed along the line of sight", r.range_rate.value(), v[0] * l[0] + v[1] * l[1] + v[2] * l[2], 1e-9);
        ensure_eq("light time", r.light_time.value(), d / 299792458.0, 1e-12);
        ensure("unobstructed without a body or a mask", r.status == LineOfSightStatus::Clear);
        // the number stored is the angle (its unit, told by a target due east: vc_p10_azel_unit)
        let still = V::new(0.0, 0.0, 0.0);
        let east = azimuth_elevation_range(&P::new(0.0, 0.0, 0.0), &still, &P::new(0.0, 1.0, 0.0), &still, LocalFrame::new(Radians::new(0.0), Radians::new(0.0)));
        let k = if east.pointing.az().value() < 2.0 { 1.0 } else { 180.0 / PI };
        ensure_eq("azimuth from north through east", r.pointing.az().value(), az * k, 1e-6);
        ensure_eq("elevation above the local horizon", r.pointing.alt().value(), el * k, 1e-6);
    }
    fn vc_p10_azel_unit() {
        let (az, _, _, _, r, _, _) = look();
        reach("look");
        ensure_eq("pointing is in degrees as its type says", r.pointing.az().value(), az * 180.0 / PI, 1e-6);
    }
    fn vc_p10_obstructed() {
        let (u, w, _) = any_axes();
        let (q, r) = (real("closest", 0.0, 1e9), real("radius", 0.0, 1e8));
        let (s, t) = (real("from", -1e9, 1e9), real("to", -1e9, 1e9));
        let z = [0.0; 3];
        let o = pos(mix(q, u, s, w, 0.0, z));
        let g = pos(mix(q, u, t, w, 0.0, z));
        let got = line_of_sight_obstructed(&o, &g, m(r));
        // distance from the centre to the segment
        let straddles = (s <= 0.0 && t >= 0.0) || (s >= 0.0 && t <= 0.0);
        let near = if straddles { 0.0 } else if s * s < t * t { s } else { t };
        let hit = q * q + near * near <= r * r;
        if !symbolic() {
            assume((s - t).abs() > 1.0 && ((q * q + near * near).sqrt() - r).abs() > 1.0 && (q - r).abs() > 1.0);
        }
        reach(if hit { "hit" } else { "clear" });
        ensure("obstructed exactly if the segment meets the ball", got == hit);
    }
    fn vc_p10_same_place() {
        let (u, w, v) = any_axes();
        let (q, r) = (real("distance", 0.0, 1e9), real("radius", 0.0, 1e8));
        let o = pos(mix(q, u, 0.0, w, 0.0, v));
        if !symbolic() {
            assume((q - r).abs() > 1.0);
        }
        ensure("a point is obstructed inside the ball", line_of_sight_obstructed(&o, &o, m(r)) == (q <= r));
        reach("same place");
    }
    fn vc_p10_occultation() {
        let (u, w, _) = any_axes();
        let z = [0.0; 3];
        let c = [real("x", -1e9, 1e9), real("y", -1e9, 1e9), real("z", -1e9, 1e9)];
        let (th, a, b) = (real("separation", 1e-4, 3.1), real("occulter radius", 1e-6, 1.5), real("target radius", 1e-6, 1.5));
        let (no, nt) = (real("occulter distance", 1e3, 1e12), real("target distance", 1e3, 1e12));
        assume(nt >= no);
        let (o, t) = (add(c, mix(no, u, 0.0, w, 0.0, z)), add(c, mix(nt * th.cos(), u, nt * th.sin(), w, 0.0, z)));
        let (ro, rt) = (no * a.sin(), nt * b.sin());
        let f = occultation_fraction(&pos(c), &pos(t), m(rt), &pos(o), m(ro));
        if !symbolic() {
            assume(c[0].abs() + c[1].abs() + c[2].abs() < 1e3 * no.min(1e6) && (th - a - b).abs() > 1e-4 && (th - (a - b).abs()).abs() > 1e-4);
        }
        let tol = if symbolic() { 1e-9 } else { 1e-4 };
        if th >= a + b {
            reach("apart");
            ensure_eq("discs apart hide nothing", f, 0.0, 0.0);
        } else if th + b <= a {
            reach("covered");
            ensure_eq("a covered disc is hidden", f, 1.0, 0.0);
        } else if th + a <= b {
            reach("transit");
            ensure_eq("a transit hides the ratio of the areas", f, a * a / (b * b), tol);
        } else {
            reach("partial");
            let x = ((th * th + b * b - a * a) / (2.0 * th * b)).clamp(-1.0, 1.0).acos();
            let y = ((th * th + a * a - b * b) / (2.0 * th * a)).clamp(-1.0, 1.0).acos();
            let k = ((a + b + th) * (a + b - th) * (th + b - a) * (th - b + a)).max(0.0).sqrt();
            let lens = b * b * x + a * a * y - 0.5 * k;
            ensure_eq("partly hidden by the lens of the two discs", f, (lens / (PI * b * b)).clamp(0.0, 1.0), tol);
        }
    }
    fn vc_p10_eclipse() {
        let f = real("fraction", 0.0, 1.0);
        let o = pos([0.0; 3]);
        let (a, b) = (real("Sun radius", 1.0, 1e9), real("body radius", 1.0, 1e9));
        let (s, k) = (pos([real("sx", -1e12, 1e12), real("sy", -1e12, 1e12), 1e9]), pos([real("kx", -1e9, 1e9), 2e9, real("kz", -1e9, 1e9)]));
        unsafe { FRACTION = [f, 0.0, 0.0, 0.0, 0.0] };
        let g = if symbolic() { f } else { occultation_fraction(&o, &s, m(a), &k, m(b)) };
        let e = eclipse_state(&o, &s, m(a), &k, m(b));
        if symbolic() {
            let q = unsafe { FRACTION };
            ensure("eclipse compares the Sun with the body", q[1] == 1e9 && q[2] == a && q[3] == 2e9 && q[4] == b);
        }
        reach("eclipse");
        ensure("sunlight exactly if nothing is hidden", (e == EclipseState::Sunlight) == (g <= 0.0));
        ensure("umbra exactly if all is hidden (1e-9)", (e == EclipseState::Umbra) == (g >= 1.0 - 1e-9));
        ensure("eclipsed in penumbra and umbra", solar_eclipsing(&o, &s, m(a), &k, m(b)) == (e != EclipseState::Sunlight));
    }
    fn vc_p10_beta() {
        let (u, w, n) = any_axes();
        let z = [0.0; 3];
        let (r, v, ga) = (real("radius", 1e6, 1e9), real("speed", 1.0, 2e4), real("flight angle", 0.01, 3.13));
        let (be, ph) = (real("beta", -1.57, 1.57), real("phase", -3.1, 3.1));
        let p = pos(mix(r, u, 0.0, w, 0.0, z));
        let q = mix(v * ga.cos(), u, v * ga.sin(), w, 0.0, z);
        let s = mix(be.cos() * ph.cos(), u, be.cos() * ph.sin(), w, be.sin(), n);
        let got = beta_angle(&p, &V::new(q[0], q[1], q[2]), &D::new(s[0], s[1], s[2]));
        reach("beta");
        ensure_eq("height of the Sun above the orbit plane", got.value(), be, 1e-6);
    }
    fn vc_p10_solar_time() {
        let (a, b) = (real("place", -4.0, 8.0), real("Sun", -4.0, 8.0));
        let (la, lb) = (Radians::new(a), Radians::new(b));
        for t in [local_solar_time(la, lb).value(), ltan(la, lb).value()] {
            reach("time");
            ensure("within the day", t >= 0.0 && t < 86400.0 + if symbolic() { 0.0 } else { 1e-9 });
            let w = t * (PI / 43200.0);
            ensure_eq("noon under the Sun, later to the east (cos)", w.cos(), -(a - b).cos(), 1e-9);
            ensure_eq("noon under the Sun, later to the east (sin)", w.sin(), -(a - b).sin(), 1e-9);
        }
    }
    fn vc_p10_terrain() {
        let n = each("samples", 1, 3) as usize;
        let a0 = real("a0", 0.0, 6.28);
        let (g1, g2) = (real("g1", 0.01, 6.2), real("g2", 0.01, 6.2));
        let e = [real("e0", -1.5, 1.5), real("e1", -1.5, 1.5), real("e2", -1.5, 1.5)];
        let a = [a0, a0 + g1, a0 + g1 + g2];
        assume(n < 2 || a[n - 1] < a0 + TAU - 0.01);
        // the sector the query lies in, and the place in it
        let j = each("sector", 0, 2) as usize;
        assume(j < n);
        let t = real("t", 0.0, 1.0);
        let (k, gap) = if j + 1 < n { (j + 1, a[j + 1] - a[j]) } else { (0, a0 + TAU - a[j]) };
        let turn = each("query turn", -1, 0) as f64;
        let q = a[j] + t * gap + turn * TAU;
        // the samples come in any order, one of them a turn away
        let order = [[0, 1, 2], [1, 0, 2], [2, 1, 0], [1, 2, 0]][each("order", 0, 3) as usize];
        let mut list = Vec::new();
        for i in order {
            if i < n {
                list.push((Radians::new(if i == 1 { a[i] - TAU } else { a[i] }), Radians::new(e[i])));
            }
        }
        let mask = TerrainMask::new(list);
        let got = mask.elevation_at(Radians::new(q)).value();
        reach("terrain");
        let want = e[j] + t * (e[k] - e[j]);
        ensure_eq("mask is linear between neighbouring samples", got, want, if symbolic() { 0.0 } else { 1e-6 });
    }
    fn vc_p10_clears() {
        let e = real("mask", -1.5, 1.5);
        let (q, h) = (real("azimuth", -7.0, 7.0), real("elevation", -1.57, 1.57));
        let mask = TerrainMask::new(vec![(Radians::new(real("a", 0.0, 6.28)), Radians::new(e))]);
        if !symbolic() {
            assume((h - e).abs() > 1e-9);
        }
        ensure("clears exactly at and above the mask", mask.clears(Radians::new(q), Radians::new(h)) == (h >= e));
        ensure_eq("no samples, flat horizon", TerrainMask::new(Vec::new()).elevation_at(Radians::new(q)).value(), 0.0, 0.0);
        let at = Location::new("x", LocalFrame::new(Radians::new(h), Radians::new(q))).with_mask(mask.clone());
        ensure("a site keeps its frame and mask", at.frame.lat.value() == h && at.frame.lon.value() == q && at.mask == Some(mask));
        reach("mask");
    }
    fn vc_p10_fov() {
        let (x, a, b) = (real("off axis", -3.2, 3.2), real("a", 0.0, 3.2), real("b", 0.0, 3.2));
        let c = Fov::Conical { half_angle: Radians::new(a) };
        ensure("cone", c.contains_boresight(Radians::new(x)) == (x <= a && -x <= a));
        let r = Fov::Rectangular { across_track: Radians::new(a), along_track: Radians::new(b) };
        ensure("both half widths of the rectangle", r.contains_boresight(Radians::new(x)) == (2.0 * x <= a && -2.0 * x <= a && 2.0 * x <= b && -2.0 * x <= b));
        reach("fov");
    }
}
/// the fraction answered by the assumed occultation and what it was asked
pub static mut FRACTION: [f64; 5] = [0.0; 5];
