//! P12: binary kernels and runtime ephemerides.
use crate::rt::*;
use siderust::coordinates::frames::{EclipticMeanJ2000, ICRF};
use siderust::coordinates::transform::VectorAstroExt;
use siderust::ephemeris::{DynEphemeris, MajorPlanet, PlanetPoint, RuntimeEphemeris};
use siderust::formats::spice::daf::{Daf, Summary};
use siderust::formats::spice::segment::DiscreteStatesSegment;
use siderust::formats::spice::sclk::SclkCoeff;
use siderust::formats::spice::spk::{IndexedSegmentData, SegmentData};
use siderust::formats::spice::*;
use siderust::qtty::*;
use siderust::time::JulianDate;

static CN: [&str; 48] = ["c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c21", "c22", "c23", "c24", "c25", "c26", "c27", "c28", "c29", "c30", "c31", "c32", "c33", "c34", "c35", "c36", "c37", "c38", "c39", "c40", "c41", "c42", "c43", "c44", "c45", "c46", "c47"];

/// Chebyshev polynomials of the first kind and their derivatives
fn tn(k: usize, t: f64) -> (f64, f64) {
    match k {
        0 => (1.0, 0.0),
        1 => (t, 1.0),
        2 => (2.0 * t * t - 1.0, 4.0 * t),
        _ => (4.0 * t * t * t - 3.0 * t, 12.0 * t * t - 3.0),
    }
}
fn series(c: &[f64], t: f64) -> (f64, f64) {
    let (mut p, mut d) = (0.0, 0.0);
    for (k, x) in c.iter().enumerate() {
        p += x * tn(k, t).0;
        d += x * tn(k, t).1;
    }
    (p, d)
}
fn cheb(components: usize, n: usize, init: f64, intlen: f64) -> ChebSegment {
    let mut records = vec![];
    let mut m = 0;
    for k in 0..2 {
        records.push(init + intlen * (k as f64 + 0.5));
        records.push(0.5 * intlen);
        for _ in 0..components * n {
            records.push(real(CN[m], -1e8, 1e8));
            m += 1;
        }
    }
    ChebSegment { init, intlen, rsize: 2 + components * n, ncoeff: n, n_records: 2, components: components as u8, records }
}
fn tol(x: f64) -> f64 {
    if symbolic() { 0.0 } else { x }
}
fn records(target: i32, center: i32, a: f64, b: f64, x: [f64; 3], v: [f64; 3]) -> IndexedSegmentData {
    let (m, r) = (0.5 * (a + b), 0.5 * (b - a));
    IndexedSegmentData {
        target_id: target, center_id: center, frame_id: 1, start_et: a, end_et: b,
        data: SegmentData { data_type: 2, init: a, intlen: b - a, rsize: 8, ncoeff: 2, n_records: 1, records: vec![m, r, x[0], v[0] * r, x[1], v[1] * r, x[2], v[2] * r] },
    }
}
fn vec3(n: [&'static str; 3]) -> [f64; 3] {
    n.map(|x| real(x, -1e9, 1e9))
}
/// a constant position over all of the tested time
fn fixed(target: i32, center: i32, x: [f64; 3]) -> IndexedSegmentData {
    records(target, center, -1e9, 1e9, x, [0.0; 3])
}
fn see(v: [f64; 3]) -> [f64; 3] {
    let p = affn::Displacement::<ICRF, unit::Kilometer>::new(v[0], v[1], v[2]).to_frame::<EclipticMeanJ2000>(&siderust::J2000);
    [p.x().value(), p.y().value(), p.z().value()]
}

contracts! {
    fn vc_p12_chebyshev() {
        let (n, k, both) = (each("coefficients", 1, 4) as usize, each("record", 0, 1) as usize, flag("type 3"));
        let (init, intlen, tau) = (real("init", -1e9, 1e9), real("intlen", 1.0, 1e7), real("tau", -1.0, 1.0));
        assume(k == 1 || tau < 1.0);
        let s = cheb(if both { 6 } else { 3 }, n, init, intlen);
        let et = init + intlen * (k as f64 + 0.5 + 0.5 * tau);
        if !symbolic() {
            assume(tau.abs() < 0.999);
        }
        let c = s.records[k * s.rsize + 2..(k + 1) * s.rsize].to_vec();
        let seg = if both { SpkSegment::Type3(s) } else { SpkSegment::Type2(s) };
        ensure("coverage", seg.start_tdb_seconds() == init && seg.end_tdb_seconds() == init + 2.0 * intlen);
        match seg.evaluate(et) {
            Ok(y) => {
                reach("value");
                for i in 0..3 {
                    let (p, d) = series(&c[i * n..(i + 1) * n], tau);
                    ensure_eq("position is the series of the record", y[i], p, tol(1e2));
                    if both {
                        ensure_eq("velocity is its own series", y[i + 3], series(&c[(3 + i) * n..(4 + i) * n], tau).0, tol(1e2));
                    } else {
                        ensure_eq("velocity is the derivative of the series", y[i + 3] * 0.5 * intlen, d, tol(1e3));
                    }
                }
            }
            Err(_) => ensure("covered times have a value", false),
        }
    }
    fn vc_p12_chebyshev_end() {
        let both = flag("type 3");
        let (init, intlen, out) = (real("init", -1e9, 1e9), real("intlen", 1.0, 1e7), real("out", 1e-3, 1e9));
        let s = cheb(if both { 6 } else { 3 }, 2, init, intlen);
        let last = s.records[s.rsize + 2..].to_vec();
        let seg = if both { SpkSegment::Type3(s) } else { SpkSegment::Type2(s) };
        match seg.evaluate(init + intlen * 2.0) {
            Ok(y) => ensure_eq("the end belongs to the last record", y[0], last[0] + last[1], tol(1e-6)),
            Err(_) => ensure("the end is covered", symbolic() == false),
        }
        reach("end");
        ensure("not before", matches!(seg.evaluate(init - out), Err(SpiceError::OutOfCoverage { .. })));
        ensure("not after", matches!(seg.evaluate(init + intlen * 2.0 + out), Err(SpiceError::OutOfCoverage { .. })));
        ensure("not at no time", seg.evaluate(f64::NAN).is_err() && seg.evaluate(f64::INFINITY).is_err());
    }
    fn vc_p12_lagrange() {
        // five records; degree 1..3; the time in one of the four gaps
        let (deg, j) = (each("degree", 1, 3) as usize, each("gap", 0, 3) as usize);
        let (count, h) = (deg + 1, real("h", 1.0, 1e4));
        let t0 = real("t0", -1e9, 1e9);
        let g = [0.0, 1.0, 1.5, 3.0, 4.0];
        let f = real("fraction", 0.01, 0.99);
        let et = t0 + h * (g[j] + f * (g[j + 1] - g[j]));
        // half of the window on each side, as far as there are records
        let mut first = if j + 1 > count / 2 { j + 1 - count / 2 } else { 0 };
        if first + count > 5 {
            first = 5 - count;
        }
        let c = [real("k0", -1e5, 1e5), real("k1", -1e5, 1e5), real("k2", -1e5, 1e5), real("k3", -1e5, 1e5)];
        let p = |u: f64| c[0] + c[1] * u + if deg > 1 { c[2] * u * u } else { 0.0 } + if deg > 2 { c[3] * u * u * u } else { 0.0 };
        let mut s = DiscreteStatesSegment { data_type: 9, interpolation_size: deg, n_records: 5, states: vec![], epochs: vec![], epoch_directory: vec![] };
        for i in 0..5 {
            s.epochs.push(t0 + h * g[i]);
            for m in 0..6 {
                s.states.push(if i >= first && i < first + count { p(g[i]) * (m as f64 + 1.0) + m as f64 } else { real(CN[6 * i + m], -1e5, 1e5) });
            }
        }
        match SpkSegment::Type9(s).evaluate(et) {
            Ok(y) => {
                reach("interpolated");
                for m in 0..6 {
                    ensure_eq("the polynomial through the nearest states", y[m], p(g[j] + f * (g[j + 1] - g[j])) * (m as f64 + 1.0) + m as f64, tol(1.0));
                }
            }
            Err(_) => ensure("covered times have a value", false),
        }
    }
    fn vc_p12_hermite() {
        // four records; two or three samples
        let (count, j) = (each("samples", 2, 3) as usize, each("gap", 0, 2) as usize);
        let (t0, h) = (real("t0", -1e9, 1e9), real("h", 1.0, 1e4));
        let g = [0.0, 1.0, 1.5, 3.0];
        let f = real("fraction", 0.01, 0.99);
        let u = g[j] + f * (g[j + 1] - g[j]);
        let mut first = if j + 1 > count / 2 { j + 1 - count / 2 } else { 0 };
        if first + count > 4 {
            first = 4 - count;
        }
        let c = [real("k0", -1e5, 1e5), real("k1", -1e5, 1e5), real("k2", -1e5, 1e5), real("k3", -1e5, 1e5), real("k4", -1e5, 1e5), real("k5", -1e5, 1e5)];
        let n = 2 * count;
        let p = |u: f64| {
            let (mut v, mut d, mut w) = (0.0, 0.0, 1.0);
            for k in 0..n {
                v += c[k] * w;
                if k + 1 < n {
                    d += (k as f64 + 1.0) * c[k + 1] * w;
                }
                w *= u;
            }
            (v, d / h)
        };
        let mut s = DiscreteStatesSegment { data_type: 13, interpolation_size: count, n_records: 4, states: vec![], epochs: vec![], epoch_directory: vec![] };
        for i in 0..4 {
            s.epochs.push(t0 + h * g[i]);
            for m in 0..6 {
                let (v, d) = p(g[i]);
                let k = (m % 3) as f64;
                s.states.push(if i >= first && i < first + count { if m < 3 { v * (k + 1.0) + k } else { d * (k + 1.0) } } else { real(CN[6 * i + m], -1e5, 1e5) });
            }
        }
        match SpkSegment::Type13(s).evaluate(t0 + h * u) {
            Ok(y) => {
                reach("interpolated");
                let (v, d) = p(u);
                for m in 0..3 {
                    let k = m as f64;
                    ensure_eq("the polynomial through the nearest states and velocities", y[m], v * (k + 1.0) + k, tol(1e3));
                    ensure_eq("and its derivative", y[m + 3] * h, d * h * (k + 1.0), tol(1e3));
                }
            }
            Err(_) => ensure("covered times have a value", false),
        }
    }
    fn vc_p12_stored_states() {
        let (i, hermite) = (each("record", 0, 2) as usize, flag("type 13"));
        let (t0, a, b) = (real("t0", -1e9, 1e9), real("a", 1.0, 1e4), real("b", 1.0, 1e4));
        let e = [t0, t0 + a, t0 + a + b];
        let states: Vec<f64> = (0..18).map(|m| real(CN[m], -1e5, 1e5)).collect();
        let seg = DiscreteStatesSegment { data_type: 9, interpolation_size: 2, n_records: 3, states: states.clone(), epochs: e.to_vec(), epoch_directory: vec![] };
        let seg = if hermite { SpkSegment::Type13(seg) } else { SpkSegment::Type9(seg) };
        ensure("coverage", seg.start_tdb_seconds() == e[0] && seg.end_tdb_seconds() == e[2]);
        match seg.evaluate(e[i]) {
            Ok(y) => {
                for m in 0..6 {
                    ensure_eq("a stored time has its stored state", y[m], states[6 * i + m], 0.0);
                }
            }
            Err(_) => ensure("stored times are covered", false),
        }
        reach("stored");
        let out = real("out", 1e-3, 1e9);
        ensure("nothing outside", seg.evaluate(e[0] - out).is_err() && seg.evaluate(e[2] + out).is_err() && seg.evaluate(f64::NAN).is_err());
    }
    fn vc_p12_read_chebyshev() {
        // words of a file: something before, two records, the trailer
        let both = flag("type 3");
        let rsize = if both { 8 } else { 5 };
        let mut w: Vec<f64> = vec![real("before", -1.0, 1.0)];
        for m in 0..2 * rsize {
            w.push(real(CN[m], -1e5, 1e5));
        }
        let (init, intlen) = (real("init", -1e9, 1e9), real("intlen", -1.0, 1e7));
        w.extend([init, intlen, rsize as f64, 2.0]);
        let n = w.len();
        let bytes = unsafe { std::slice::from_raw_parts(w.as_ptr() as *const u8, 8 * n) };
        let daf = Daf { nd: 2, ni: 6, summaries: vec![] };
        let sum = Summary { start_et: init, end_et: init + 2.0 * intlen, target_id: 1, center_id: 0, frame_id: 1, data_type: if both { 3 } else { 2 }, start_word: 2, end_word: n };
        match segment_for_summary(bytes, &daf, &sum) {
            Ok(s) => {
                reach("read");
                ensure("kind", matches!(s, SpkSegment::Type3(_)) == both && matches!(s, SpkSegment::Type2(_)) != both);
                let c = s.cheb();
                ensure("trailer", c.init == init && c.intlen == intlen && c.rsize == rsize && c.n_records == 2 && c.ncoeff == 1 && intlen > 0.0);
                for m in 0..2 * rsize {
                    ensure("records", c.records[m] == w[1 + m]);
                }
                ensure("all of them", c.records.len() == 2 * rsize);
            }
            Err(_) => ensure("only empty records are refused", !(intlen > 0.0)),
        }
        match siderust::formats::spice::spk::read_segment(bytes, &daf, &sum) {
            Ok(s) => {
                ensure("trailer (2)", s.init == init && s.intlen == intlen && s.rsize == rsize && s.n_records == 2 && s.ncoeff == 1 && s.data_type == sum.data_type && intlen > 0.0);
                for m in 0..2 * rsize {
                    ensure("records (2)", s.records[m] == w[1 + m]);
                }
            }
            Err(_) => ensure("only empty records are refused (2)", !(intlen > 0.0)),
        }
        let odd = each("type", 0, 12) as i32;
        let other = Summary { data_type: odd, start_word: 2, ..sum };
        if ![2, 3, 9].contains(&odd) {
            ensure("other types are refused", matches!(segment_for_summary(bytes, &daf, &other), Err(SpiceError::UnsupportedDataType { .. })));
        }
    }
    fn vc_p12_read_states() {
        let hermite = flag("type 13");
        let mut w: Vec<f64> = vec![real("before", -1.0, 1.0)];
        for m in 0..18 {
            w.push(real(CN[m], -1e5, 1e5));
        }
        let (t0, a, b) = (real("t0", -1e9, 1e9), real("a", -1.0, 1e4), real("b", -1.0, 1e4));
        let d = each("descriptor", 0, 3) as usize;
        w.extend([t0, t0 + a, t0 + a + b, d as f64, 3.0]);
        let n = w.len();
        let bytes = unsafe { std::slice::from_raw_parts(w.as_ptr() as *const u8, 8 * n) };
        let daf = Daf { nd: 2, ni: 6, summaries: vec![] };
        let sum = Summary { start_et: t0, end_et: t0 + a + b, target_id: 1, center_id: 0, frame_id: 1, data_type: if hermite { 13 } else { 9 }, start_word: 2, end_word: n };
        let good = a > 0.0 && b > 0.0 && (d == 1 || d == 2);
        match segment_for_summary(bytes, &daf, &sum) {
            Ok(SpkSegment::Type9(s)) | Ok(SpkSegment::Type13(s)) => {
                reach("read");
                ensure("only increasing times and a window within the records", good);
                ensure("trailer", s.n_records == 3 && s.interpolation_size == if hermite { d + 1 } else { d } && s.data_type == if hermite { 13 } else { 9 });
                for m in 0..18 {
                    ensure("states", s.states[m] == w[1 + m]);
                }
                ensure("times", s.epochs.len() == 3 && s.epochs[0] == t0 && s.epochs[1] == w[20] && s.epochs[2] == w[21] && s.states.len() == 18);
            }
            Ok(_) => ensure("kind", false),
            Err(_) => ensure("refused only for these", !good),
        }
    }
    fn vc_p12_chain() {
        // target 501 about 5 about the barycentre, observer 399 about 3
        let (j, s, e, m) = (vec3(["j0", "j1", "j2"]), vec3(["s0", "s1", "s2"]), vec3(["e0", "e1", "e2"]), vec3(["m0", "m1", "m2"]));
        let (old, with_earth) = (vec3(["o0", "o1", "o2"]), flag("earth segment"));
        let (off, from) = (real("offset", -1e3, 1e3), each("order", 0, 1));
        let _ = off;
        let mut list = vec![fixed(5, 0, j), fixed(501, 5, s), fixed(3, 0, e)];
        // an overruled older segment, or one that covers another time
        list.insert(0, if from == 0 { fixed(501, 5, old) } else { records(501, 0, 2e9, 3e9, old, [0.0; 3]) });
        list.push(fixed(if with_earth { 399 } else { 301 }, 3, m));
        let k = SpkKernelSet::from_indexed_segments(list);
        ensure("all segments are kept", k.segment_count() == 5);
        let jd = JulianDate::new(2451545.0 + real("day", -1e4, 1e4));
        let want = |i: usize| j[i] + s[i] - e[i] - if with_earth { m[i] } else { -m[i] / 81.30056907419062 };
        match k.try_geometric_state(501, 399, jd) {
            Ok(p) => {
                reach("state");
                let p = [p.x().value(), p.y().value(), p.z().value()];
                for i in 0..3 {
                    ensure_eq("target minus observer along the centres", p[i], want(i), 1e-4);
                }
            }
            Err(_) => ensure("the chain is complete", false),
        }
        ensure("unknown targets are refused", matches!(k.try_geometric_state(999, 399, jd), Err(SpkKernelError::MissingSegment { target_id: 999 })));
        match k.try_major_planet_geocentric(MajorPlanet::Jupiter, PlanetPoint::SystemBarycenter, jd) {
            Ok(p) => {
                let p = [p.x().value(), p.y().value(), p.z().value()];
                for i in 0..3 {
                    ensure_eq("planet barycentre", p[i], want(i) - s[i], 1e-4);
                }
            }
            Err(_) => ensure("planet barycentre is in the kernels", false),
        }
    }
    fn vc_p12_ephemeris_time() {
        // bounded: a grid of dates
        let day = each("day", 0, 2) as f64 * 15423.37 - 18000.0;
        let k = SpkKernelSet::from_indexed_segments(vec![records(10, 0, -2e9, 2e9, [0.0; 3], [1.0, 0.0, 0.0])]);
        let Ok(p) = k.try_geometric_state(10, 0, JulianDate::new(2451545.0 + day)) else {
            ensure("covered", false);
            return;
        };
        reach("date");
        let tt = day * 86400.0;
        let mut e = 0.0;
        for _ in 0..8 {
            let m = 6.239996 + 1.99096871e-7 * (tt + e);
            e = 1.657e-3 * (m + 1.671e-2 * m.sin()).sin();
        }
        ensure_eq("ephemeris time is TT plus the annual term", p.x().value() - tt, e, 1e-6);
    }
    fn vc_p12_cycle() {
        let k = SpkKernelSet::from_indexed_segments(vec![fixed(1, 2, [1.0; 3]), fixed(2, 1, [2.0; 3]), fixed(399, 0, [0.0; 3])]);
        reach("cycle");
        ensure("a circle of centres is refused", matches!(k.try_geometric_state(1, 399, JulianDate::new(2451545.0)), Err(SpkKernelError::CenterCycle { .. })));
        let past = SpkKernelSet::from_indexed_segments(vec![records(1, 0, 0.0, 1e6, [1.0; 3], [0.0; 3]), fixed(399, 0, [0.0; 3])]);
        let day = real("day", -1e4, 1e4);
        assume((day + 1.0).abs() > 1.0 || day < 0.0);
        let et = day * 86400.0;
        assume(et.abs() > 1.0 && (et - 1e6).abs() > 1.0);
        let r = past.try_geometric_state(1, 399, JulianDate::new(2451545.0 + day));
        ensure("covered times only", r.is_ok() == (et > 0.0 && et < 1e6));
    }
    fn vc_p12_runtime() {
        let (sun, emb, moon, earth) = (vec3(["s0", "s1", "s2"]), vec3(["b0", "b1", "b2"]), vec3(["m0", "m1", "m2"]), vec3(["e0", "e1", "e2"]));
        let with_earth = flag("earth segment");
        let mut list = vec![fixed(10, 0, sun), fixed(3, 0, emb), fixed(301, 3, moon), fixed(4, 0, [7.0; 3])];
        if with_earth {
            list.push(fixed(399, 3, earth));
        }
        let eph = RuntimeEphemeris::from_indexed_segments(list);
        let jd = JulianDate::new(2451545.0 + real("day", -1e4, 1e4));
        let r = 81.300_569_074_190_62;
        reach("runtime");
        let au = 149_597_870.7;
        let off = |i: usize| if with_earth { earth[i] } else { -moon[i] / r };
        let (a, b, c) = (eph.try_sun_barycentric(jd), eph.try_earth_barycentric(jd), eph.try_earth_heliocentric(jd));
        let m = eph.try_moon_geocentric(jd);
        let (Ok(a), Ok(b), Ok(c), Ok(m)) = (a, b, c, m) else {
            ensure("covered times have positions", false);
            return;
        };
        let wa = see(sun);
        let wb = see([emb[0] + off(0), emb[1] + off(1), emb[2] + off(2)]);
        let wc = see([emb[0] + off(0) - sun[0], emb[1] + off(1) - sun[1], emb[2] + off(2) - sun[2]]);
        let wm = see([moon[0] - off(0), moon[1] - off(1), moon[2] - off(2)]);
        let t = 1e-5;
        for (n, w, g) in [("Sun", wa, [a.x().value(), a.y().value(), a.z().value()]), ("Earth", wb, [b.x().value(), b.y().value(), b.z().value()]), ("Earth from the Sun", wc, [c.x().value(), c.y().value(), c.z().value()])] {
            for i in 0..3 {
                ensure_eq(n, g[i] * au, w[i], t);
            }
        }
        for (g, w) in [(m.x().value(), wm[0]), (m.y().value(), wm[1]), (m.z().value(), wm[2])] {
            ensure_eq("Moon from the Earth", g, w, t);
        }
    }
    fn vc_p12_runtime_velocity() {
        let (ve, vm) = ([real("u0", -50.0, 50.0), real("u1", -50.0, 50.0), real("u2", -50.0, 50.0)], [real("w0", -2.0, 2.0), real("w1", -2.0, 2.0), real("w2", -2.0, 2.0)]);
        let with_earth = flag("earth segment");
        let x = vec3(["b0", "b1", "b2"]);
        let mut list = vec![fixed(10, 0, x), records(3, 0, -1e9, 1e9, x, ve), records(301, 3, -1e9, 1e9, x, vm)];
        if with_earth {
            list.push(records(399, 3, -1e9, 1e9, x, vm));
        }
        let eph = RuntimeEphemeris::from_indexed_segments(list);
        let jd = JulianDate::new(2451545.0 + real("day", -1e4, 1e4));
        let k = if with_earth { 1.0 } else { -1.0 / 81.300_569_074_190_62 };
        let Ok(v) = eph.try_earth_barycentric_velocity(jd) else {
            ensure("covered times have a velocity", false);
            return;
        };
        reach("velocity");
        let w = affn::Displacement::<ICRF, unit::Kilometer>::new(ve[0] + k * vm[0], ve[1] + k * vm[1], ve[2] + k * vm[2]).to_frame::<EclipticMeanJ2000>(&siderust::J2000);
        let s = 149_597_870.7 / 86400.0;
        ensure_eq("velocity x", v.x().value() * s, w.x().value(), 1e-9);
        ensure_eq("velocity y", v.y().value() * s, w.y().value(), 1e-9);
        ensure_eq("velocity z", v.z().value() * s, w.z().value(), 1e-9);
    }
    fn vc_p12_newest_segment() {
        // two segments for the same pair: the later one where it covers the time, the earlier one elsewhere
        let (a, b) = (vec3(["a0", "a1", "a2"]), vec3(["b0", "b1", "b2"]));
        let (x, y) = (real("x", -1e8, 1e8), real("y", 1.0, 1e8));
        let day = real("day", -1e4, 1e4);
        let et = day * 86400.0;
        assume((et - x).abs() > 1.0 && (et - x - y).abs() > 1.0);
        let eph = RuntimeEphemeris::from_indexed_segments(vec![fixed(10, 0, a), records(10, 0, x, x + y, b, [0.0; 3])]);
        let k = SpkKernelSet::from_indexed_segments(vec![fixed(10, 0, a), records(10, 0, x, x + y, b, [0.0; 3])]);
        let jd = JulianDate::new(2451545.0 + day);
        let w = if et > x && et < x + y { b } else { a };
        let Ok(p) = eph.try_sun_barycentric(jd) else {
            ensure("covered", false);
            return;
        };
        reach("newest");
        ensure_eq("the later segment where it covers the time", p.x().value() * 149_597_870.7, see(w)[0], 1e-5);
        match k.try_geometric_state(10, 0, jd) {
            Ok(q) => ensure_eq("the later segment where it covers the time (2)", q.x().value(), w[0], tol(1e-5)),
            Err(_) => ensure("covered (2)", false),
        }
        ensure("no segment, no position", eph.try_moon_geocentric(jd).is_err() && eph.try_earth_barycentric(jd).is_err());
    }
    fn vc_p12_clock() {
        let (s0, e0) = (real("s0", 0.0, 1e9), real("e0", -1e9, 1e9));
        let (r0, r1, d) = (real("r0", 0.1, 1e5), real("r1", 0.1, 1e5), real("d", 1.0, 1e8));
        let (e1, s1) = (e0 + d, s0 + d * r0);
        let k = SclkKernel { sc_id: -1, coefficients: vec![SclkCoeff { sclkdp: s0, et: e0, rate: r0 }, SclkCoeff { sclkdp: s1, et: e1, rate: r1 }] };
        let x = real("x", -1e6, 1e9);
        let et = e0 + x;
        match k.et_to_sclkdp(et) {
            Ok(s) => {
                reach("ticks");
                ensure("only from the first partition on", x >= 0.0);
                ensure_eq("ticks of the partition", s, if x < d { s0 + x * r0 } else { s1 + (x - d) * r1 }, tol(1.0));
                if !symbolic() {
                    assume((x - d).abs() > 1.0 && x > 1.0);
                }
                match k.sclkdp_to_et(s) {
                    Ok(e) => ensure_eq("and back", e, et, tol(1e-3)),
                    Err(_) => ensure("the way back is there", false),
                }
            }
            Err(_) => ensure("refused only before the first partition", x < 0.0),
        }
        ensure("no partitions, no time", SclkKernel { sc_id: 1, coefficients: vec![] }.et_to_sclkdp(et).is_err());
    }
    fn vc_p12_leap_seconds() {
        let (a, b, c) = (real("a", -1e9, 1e9), real("b", 1.0, 1e9), real("c", 1.0, 1e9));
        let (da, t) = (real("delta t a", 0.0, 100.0), real("t", -2e9, 4e9));
        let k = LeapSecondKernel { delta_t_a: da, leap_table: vec![(a, 10.0), (a + b, 11.0), (a + b + c, 12.0)] };
        let want = if t < a { 0.0 } else if t < a + b { 10.0 } else if t < a + b + c { 11.0 } else { 12.0 };
        reach("leap seconds");
        ensure("the last step taken", k.tai_minus_utc_at(t) == want);
        ensure_eq("TDB minus UTC", k.tdb_minus_utc_at(t), want + da, 0.0);
    }
    fn vc_p12_attitude() {
        // unit quaternions: left = a, right = +-(cos th a + sin th b), rotated towards the right one along the shorter way
        let (al, be, ga) = (real("alpha", -3.1, 3.1), real("beta", -3.1, 3.1), real("gamma", -3.1, 3.1));
        let (th, t, near, minus) = (real("theta", 1e-3, 1.57), real("t", 0.001, 0.999), flag("near"), flag("minus"));
        assume(if near { th < 0.03 } else { th > 0.04 });
        let a = [al.cos() * be.cos(), al.cos() * be.sin(), al.sin() * ga.cos(), al.sin() * ga.sin()];
        let b = [-al.sin() * be.cos(), -al.sin() * be.sin(), al.cos() * ga.cos(), al.cos() * ga.sin()];
        let s = if minus { -1.0 } else { 1.0 };
        let r = [0, 1, 2, 3].map(|i| s * (th.cos() * a[i] + th.sin() * b[i]));
        let (x, d) = (real("x", 0.0, 1e9), real("d", 1.0, 1e6));
        let rec = |k: f64, q: [f64; 4]| CkRecord { sclkdp: k, quaternion: q };
        let seg = CkSegment1 { inst_id: -1, frame_id: 1, start_sclkdp: x, end_sclkdp: x + 2.0 * d, records: vec![rec(x, a), rec(x + d, r), rec(x + 2.0 * d, b)] };
        match seg.evaluate(x + t * d) {
            Ok(q) => {
                reach("attitude");
                let dot = |u: [f64; 4], v: [f64; 4]| u[0] * v[0] + u[1] * v[1] + u[2] * v[2] + u[3] * v[3];
                let e = if symbolic() { 0.0 } else { 1e-9 };
                if near {
                    // a straight line between close quaternions, put back on the sphere
                    let w = [0, 1, 2, 3].map(|i| a[i] * (1.0 - t + t * th.cos()) + b[i] * t * th.sin());
                    let n = dot(w, w).sqrt();
                    for i in 0..4 {
                        ensure_eq("between close attitudes", q[i] * n, w[i], e);
                    }
                } else {
                    for i in 0..4 {
                        ensure_eq("constant rate along the great circle", q[i], a[i] * (t * th).cos() + b[i] * (t * th).sin(), e);
                    }
                }
            }
            Err(_) => ensure("covered", false),
        }
        match seg.evaluate(x + d) {
            Ok(q) => ensure_eq("a stored attitude", q[0], r[0], if symbolic() { 0.0 } else { 1e-9 }),
            Err(_) => ensure("stored attitudes are covered", symbolic() == false),
        }
        ensure("nothing outside", seg.evaluate(x - 0.5).is_err() && seg.evaluate(x + 2.0 * d + 0.5).is_err());
    }
}
