//! P08: event searches over a signal known at every instant.
use crate::rt::*;
use siderust::bodies::solar_system::Sun;
use siderust::coordinates::centers::Geodetic;
use siderust::coordinates::frames::ECEF;
use siderust::event::altitude::{self, AltitudeProvider, CrossingDirection, SearchOpts};
use siderust::event::azimuth::{self, AzimuthProvider, AzimuthQuery};
use siderust::qtty::*;
use siderust::time::{Interval, ModifiedJulianDate};

/// a signal: `n` instants where it meets the value `at[k]`, and the value on each piece between them
#[derive(Clone, Copy)]
pub struct Sig {
    pub n: usize,
    pub r: [f64; 4],
    pub at: [f64; 4],
    pub lvl: [f64; 5],
    pub width: f64,
}
pub static mut SIG: Sig = Sig { n: 0, r: [0.0; 4], at: [0.0; 4], lvl: [0.0; 5], width: 1.0 };
/// zeros of the fitted polynomial, None: the fit fails
pub static mut FIT: Option<(usize, [f64; 4])> = None;

/// a signal that grows or falls with the distance from an instant
static mut VEE: Option<(f64, f64, f64)> = None;

impl Sig {
    /// the piece of an instant that is none of the r's
    fn piece(&self, t: f64) -> usize {
        for k in 0..self.n {
            if t < self.r[k] {
                return k;
            }
        }
        self.n
    }
    pub fn value(&self, t: f64) -> f64 {
        if symbolic() {
            for k in 0..self.n {
                if t < self.r[k] {
                    return self.lvl[k];
                }
                if t == self.r[k] {
                    return self.at[k];
                }
            }
            return self.lvl[self.n];
        }
        // natively the pieces are joined continuously
        let l = self.lvl[self.piece(t)];
        let mut v = l;
        for k in 0..self.n {
            let d = (t - self.r[k]).abs() / self.width;
            if d < 1.0 {
                v = self.at[k] + (l - self.at[k]) * d;
            }
        }
        v
    }
}
fn sig() -> Sig {
    unsafe { SIG }
}
fn mjd(t: f64) -> ModifiedJulianDate {
    ModifiedJulianDate::new(t)
}
fn site() -> Geodetic<ECEF> {
    Geodetic::<ECEF>::new(Degrees::new(2.0), Degrees::new(41.0), Meters::new(0.0))
}
struct Body(f64);
impl AltitudeProvider for Body {
    fn altitude_at(&self, _o: &Geodetic<ECEF>, t: ModifiedJulianDate) -> Radians {
        if let Some((m, k, tip)) = unsafe { VEE } {
            let d = t.raw().value() - m;
            return Radians::new(tip + if d < 0.0 { -k * d } else { k * d });
        }
        Radians::new(sig().value(t.raw().value()))
    }
    fn scan_step_hint(&self) -> Option<Days> {
        Some(Days::new(self.0))
    }
}

/// a window of four scan steps (the last one possibly shorter)
struct Win {
    s: f64,
    e: f64,
    h: f64,
    last: f64,
}
impl Win {
    fn any(h: f64) -> Win {
        Win::from(60000.375, h)
    }
    fn from(s: f64, h: f64) -> Win {
        let last = real("last step", 0.02, 1.0);
        Win { s, e: s + 3.0 * h + h * last, h, last }
    }
    fn interval(&self) -> Interval<ModifiedJulianDate> {
        Interval::new(mjd(self.s), mjd(self.e))
    }
    /// an instant inside bracket k, away from its ends
    fn inside(&self, k: usize) -> f64 {
        let u = if k == 3 { real("u3", 0.01, 0.99) } else { real(["u0", "u1", "u2"][k], 0.15, 0.85) };
        assume(k < 3 || u < self.last - 0.002);
        self.s + self.h * (k as f64) + self.h * u
    }
    fn sample(&self, k: usize) -> f64 {
        let mut t = mjd(self.s);
        for _ in 0..if k < 3 { k } else { 3 } {
            t = mjd((t.raw() + Days::new(self.h)).value());
        }
        if k == 4 { self.e } else { t.raw().value() }
    }
}
/// a signal crossing `thr` once in each bracket of the pattern, from above or below at the start
fn alternate(w: &Win, thr: f64, gap: f64, pattern: i64, above: bool) {
    let mut g = Sig { n: 0, r: [0.0; 4], at: [thr; 4], lvl: [0.0; 5], width: 0.02 * w.h };
    let mut up = above;
    for k in 0..4 {
        if pattern >> k & 1 == 1 {
            g.lvl[g.n] = if up { thr + gap } else { thr - gap };
            g.r[g.n] = w.inside(k);
            g.n += 1;
            up = !up;
        }
    }
    g.lvl[g.n] = if up { thr + gap } else { thr - gap };
    unsafe { SIG = g };
}
/// a signal that meets `thr` exactly on scan sample k (0: the start, 4: the end); up: from below; touch: without crossing
fn on_sample(w: &Win, thr: f64, gap: f64, k: usize, up: bool, touch: bool) {
    let before = if up { thr - gap } else { thr + gap };
    let after = if up != touch { thr + gap } else { thr - gap };
    unsafe { SIG = Sig { n: 1, r: [w.sample(k), 0.0, 0.0, 0.0], at: [thr; 4], lvl: [before, after, 0.0, 0.0, 0.0], width: 0.02 * w.h } };
}
/// an instant of the window away from every crossing
fn instant(w: &Win) -> f64 {
    let x = w.s + (w.e - w.s) * real("x", 0.0001, 0.9999);
    let g = sig();
    for k in 0..g.n {
        assume(x < g.r[k] - 1e-6 || x > g.r[k] + 1e-6);
    }
    x
}
fn member(p: &[Interval<ModifiedJulianDate>], x: f64) -> bool {
    for i in p {
        if i.start.raw().value() <= x && x <= i.end.raw().value() {
            return true;
        }
    }
    false
}
fn shape(w: &Win, p: &[Interval<ModifiedJulianDate>]) {
    let mut last = w.s - 1e-9;
    for i in p {
        ensure("periods are in order, disjoint and not reversed", last <= i.start.raw().value() && i.start.raw().value() <= i.end.raw().value());
        last = i.end.raw().value();
    }
    ensure("periods stay inside the window", last <= w.e + 1e-9);
}
fn ups_and_downs(w: &Win, thr: f64, c: &[(f64, bool)]) {
    let g = sig();
    let mut m = 0;
    let mut k = 0;
    while k < g.n {
        if g.at[k] == thr && (g.lvl[k] > thr) != (g.lvl[k + 1] > thr) {
            if m < c.len() {
                ensure_eq("the crossing is where the signal crosses", c[m].0, g.r[k], 1e-7);
                ensure("rising or setting as the signal does", c[m].1 == (g.lvl[k + 1] > thr));
            }
            m += 1;
        }
        k += 1;
    }
    ensure("one event per crossing", m == c.len());
    for e in c {
        ensure("inside the window", w.s <= e.0 && e.0 <= w.e);
    }
}
fn events(v: Vec<altitude::CrossingEvent>) -> Vec<(f64, bool)> {
    v.iter().map(|e| (e.mjd.raw().value(), e.direction == CrossingDirection::Rising)).collect()
}
const H: f64 = 0.02;
const GAP: f64 = 0.25;
/// a pattern of brackets that hold a crossing, and a threshold in degrees
fn pattern() -> (i64, f64) {
    let k = each("brackets", 0, 15);
    (k, [0.0, -14.5, 30.0][(k % 3) as usize])
}
contracts! {
    fn vc_p08_altitude_crossings() {
        let w = Win::any(H);
        let (brackets, d) = pattern();
        let thr = Degrees::new(d).to::<Radian>().value();
        alternate(&w, thr, GAP, brackets, each("above", 0, 1) == 1);
        ups_and_downs(&w, thr, &events(altitude::crossings(&Body(H), &site(), w.interval(), Degrees::new(d), SearchOpts::default())));
    }
    fn vc_p08_altitude_above() {
        let w = Win::any(H);
        let (brackets, d) = pattern();
        let thr = Degrees::new(d).to::<Radian>().value();
        alternate(&w, thr, GAP, brackets, each("above", 0, 1) == 1);
        let p = altitude::above_threshold(&Body(H), &site(), w.interval(), Degrees::new(d), SearchOpts::default());
        shape(&w, &p);
        let x = instant(&w);
        ensure("above periods hold exactly the instants above", member(&p, x) == (sig().lvl[sig().piece(x)] > thr));
    }
    fn vc_p08_altitude_window() {
        let w = Win::from(real("start", 50000.0, 60000.0), H);
        alternate(&w, 0.0, GAP, [1, 6, 8, 11][each("brackets", 0, 3) as usize], each("above", 0, 1) == 1);
        let p = altitude::above_threshold(&Body(H), &site(), w.interval(), Degrees::new(0.0), SearchOpts::default());
        shape(&w, &p);
        let x = instant(&w);
        ensure("above periods hold exactly the instants above, whenever the window starts", member(&p, x) == (sig().lvl[sig().piece(x)] > 0.0));
    }
    fn vc_p08_altitude_below() {
        let w = Win::any(H);
        alternate(&w, 0.0, GAP, each("brackets", 0, 7), each("above", 0, 1) == 1);
        let p = altitude::below_threshold(&Body(H), &site(), w.interval(), Degrees::new(0.0), SearchOpts::default());
        shape(&w, &p);
        let x = instant(&w);
        ensure("below periods hold exactly the instants below", member(&p, x) == (sig().lvl[sig().piece(x)] < 0.0));
    }
    fn vc_p08_altitude_on_sample() {
        let w = Win::any(H);
        let k = each("sample", 0, 4) as usize;
        let (up, touch) = (each("from below", 0, 1) == 1, each("touch", 0, 1) == 1);
        on_sample(&w, 0.0, GAP, k, up, touch);
        let p = altitude::above_threshold(&Body(H), &site(), w.interval(), Degrees::new(0.0), SearchOpts::default());
        shape(&w, &p);
        let x = instant(&w);
        ensure("a threshold met on a scan sample splits the window rightly", member(&p, x) == (sig().lvl[sig().piece(x)] > 0.0));
    }
    fn vc_p08_altitude_fitted() {
        // twelve hours are one fitted segment
        let w = Win::any(0.1);
        let (brackets, d) = pattern();
        let thr = Degrees::new(d).to::<Radian>().value();
        let off = real("fit error in minutes", -10.0, 10.0) / 1440.0;
        alternate(&w, thr, GAP, brackets, each("above", 0, 1) == 1);
        let mut z = (sig().n, [0.0; 4]);
        for k in 0..sig().n {
            z.1[k] = 2.0 * (sig().r[k] + off - w.s) / (w.e - w.s) - 1.0;
        }
        unsafe { FIT = Some(z) };
        let o = SearchOpts::default();
        ups_and_downs(&w, thr, &events(altitude::crossings(&Body(0.1), &site(), w.interval(), Degrees::new(d), o)));
    }
    fn vc_p08_altitude_ranges() {
        let w = Win::any(H);
        let (lo, hi) = (Degrees::new(-10.0), Degrees::new(20.0));
        let (a, b) = (lo.to::<Radian>().value(), hi.to::<Radian>().value());
        // unused turns are not enumerated
        let mut used = 0;
        // levels: 0 below both, 1 between, 2 above both; each crossing passes one threshold
        let mut l = each("level", 0, 2);
        let (pat, turn) = (each("brackets", 0, 7), each("turns", 0, 7));
        let v = [a - 0.1, 0.5 * (a + b), b + 0.1];
        let mut g = Sig { n: 0, r: [0.0; 4], at: [0.0; 4], lvl: [0.0; 5], width: 0.02 * w.h };
        for k in 0..3 {
            if pat >> k & 1 == 1 {
                let to = if l == 1 { if turn >> k & 1 == 1 { 2 } else { 0 } } else { 1 };
                used |= ((l == 1) as i64) << k;
                g.lvl[g.n] = v[l as usize];
                g.r[g.n] = w.inside(k);
                g.at[g.n] = if l == 0 || to == 0 { a } else { b };
                g.n += 1;
                l = to;
            }
        }
        assume(turn & !used == 0);
        g.lvl[g.n] = v[l as usize];
        unsafe { SIG = g };
        let p = altitude::altitude_ranges(&Body(H), &site(), w.interval(), lo, hi, SearchOpts::default());
        shape(&w, &p);
        let x = instant(&w);
        let y = sig().lvl[sig().piece(x)];
        ensure("range periods hold exactly the instants in range", member(&p, x) == (a < y && y < b));
    }
    fn vc_p08_empty_window() {
        let s = real("start", 50000.0, 60000.0);
        let e = s - real("back", 0.0, 5.0);
        let w = Interval::new(mjd(s), mjd(e));
        unsafe { SIG.lvl[0] = 0.3 };
        let (b, o) = (Body(H), SearchOpts::default());
        ensure("no crossing", altitude::crossings(&b, &site(), w, Degrees::new(0.0), o).is_empty());
        ensure("no culmination", altitude::culminations(&b, &site(), w, o).is_empty());
        ensure("no azimuth crossing", azimuth::azimuth_crossings(&Sun, &site(), w, Degrees::new(10.0), o).is_empty());
    }
    fn vc_p08_azimuth_crossings() {
        let w = Win::any(2.0 / 24.0);
        let deg = [0.0, 90.0, 180.0, 300.0][each("bearing", 0, 3) as usize];
        let b = Degrees::new(deg).to::<Radian>().value();
        let opposite = each("opposite bearing", 0, 1) == 1;
        alternate(&w, if opposite { b + std::f64::consts::PI } else { b }, GAP, each("brackets", 0, 15), each("above", 0, 1) == 1);
        let v: Vec<(f64, bool)> = azimuth::azimuth_crossings(&Sun, &site(), w.interval(), Degrees::new(deg), SearchOpts::default())
            .iter()
            .map(|e| (e.mjd.raw().value(), e.direction == CrossingDirection::Rising))
            .collect();
        if opposite {
            ensure("passing the opposite bearing is no crossing", v.is_empty());
        } else {
            ups_and_downs(&w, b, &v);
        }
    }
    fn vc_p08_azimuth_on_sample() {
        let w = Win::any(2.0 / 24.0);
        let k = each("sample", 1, 3) as usize;
        let (up, touch) = (each("from below", 0, 1) == 1, each("touch", 0, 1) == 1);
        on_sample(&w, 0.0, GAP, k, up, touch);
        let v: Vec<(f64, bool)> = azimuth::azimuth_crossings(&Sun, &site(), w.interval(), Degrees::new(0.0), SearchOpts::default())
            .iter()
            .map(|e| (e.mjd.raw().value(), e.direction == CrossingDirection::Rising))
            .collect();
        ups_and_downs(&w, 0.0, &v);
    }
    fn vc_p08_azimuth_range() {
        let w = Win::any(2.0 / 24.0);
        let (lo, hi) = [(100.0, 160.0), (350.0, 20.0), (10.0, 350.0)][each("band", 0, 2) as usize];
        let wide: f64 = if lo < hi { hi - lo } else { hi + 360.0 - lo };
        // the azimuth leaves and enters the band through its lower or its upper end
        let top = each("through the upper end", 0, 1) == 1;
        let edge = Degrees::new(if top { lo + wide } else { lo }).to::<Radian>().value();
        let inside = if top { -0.1 } else { 0.1 };
        alternate(&w, edge, inside, each("brackets", 0, 7), each("in the band at first", 0, 1) == 1);
        let q = AzimuthQuery {
            observer: site(),
            window: w.interval(),
            min_azimuth: Degrees::new(lo),
            max_azimuth: Degrees::new(hi),
            opts: SearchOpts::default(),
            correction_policy: siderust::astro::apparent::CorrectionPolicy::APPARENT,
        };
        let out = each("outside", 0, 1) == 1;
        let p = if out {
            Sun.outside_azimuth_range(site(), w.interval(), Degrees::new(lo), Degrees::new(hi), SearchOpts::default())
        } else {
            Sun.azimuth_periods(&q)
        };
        shape(&w, &p);
        let x = instant(&w);
        let y = sig().lvl[sig().piece(x)];
        ensure("azimuth periods hold exactly the instants in the band", member(&p, x) == (((y > edge) == (inside > 0.0)) != out));
    }
    fn vc_p08_culminations() {
        let w = Win::any(H);
        // a vee or a roof with its tip inside the window
        let k = each("bracket", 0, 3) as usize;
        let m = match k {
            0 => w.s - real("before", 0.0, 1.0),
            3 => w.e + real("after", 0.0, 1.0),
            _ => w.inside(k),
        };
        let roof = each("roof", 0, 1) == 1;
        unsafe { VEE = Some((m, if roof { -0.7 } else { 0.7 }, real("altitude of the tip", -1.5, 1.5))) };
        let tol = 0.4 * H;
        let v = altitude::culminations(&Body(H), &site(), w.interval(), SearchOpts { time_tolerance: Days::new(tol) });
        if k == 0 || k == 3 {
            ensure("none where the altitude only rises or only falls", v.is_empty());
        } else {
            ensure("one culmination", v.len() == 1);
            for c in &v {
                let t = c.mjd.raw().value();
                ensure("at the extremum within the tolerance", m - tol <= t && t <= m + tol);
                ensure("upper for a maximum, lower for a minimum", (c.kind == altitude::CulminationKind::Max) == roof);
                ensure_eq("with the altitude of that instant", c.altitude.to::<Radian>().value(), Body(H).altitude_at(&site(), c.mjd).value(), 1e-12);
            }
        }
    }
}
