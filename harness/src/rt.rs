//! Run-time side of the contracts.  The verifier intercepts every `vcrt_*` symbol; compiled natively
//! the same program replays or searches concrete inputs.
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Default)]
pub struct State {
    pub inputs: BTreeMap<String, f64>,
    pub hints: Vec<f64>,
    pub seed: u64,
    pub dead: bool,
    pub failed: Vec<String>,
    pub log: Vec<(String, f64)>,
    pub style: u64,
    pub allow_panic: bool,
    pub checks: u64,
}

thread_local! { pub static ST: RefCell<State> = RefCell::new(State::default()); }

pub fn rng(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    s.wrapping_mul(0x2545F4914F6CDD1D)
}
pub fn unit(s: &mut u64) -> f64 {
    (rng(s) >> 11) as f64 / (1u64 << 53) as f64
}

fn hash(n: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in n.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h | 1
}

fn sample(st: &mut State, lo: f64, hi: f64) -> f64 {
    let (l, h) = (if lo.is_finite() { lo } else { -1e6 }, if hi.is_finite() { hi } else { 1e6 });
    let u = unit(&mut st.seed);
    let k = rng(&mut st.seed) % 16;
    let v = match (st.style, k) {
        (_, 0) if !st.hints.is_empty() => {
            let i = (rng(&mut st.seed) % st.hints.len() as u64) as usize;
            st.hints[i]
        }
        (_, 1) if !st.hints.is_empty() => {
            let i = (rng(&mut st.seed) % st.hints.len() as u64) as usize;
            let j = (rng(&mut st.seed) % 5) as i32;
            st.hints[i] + [1e-9, -1e-9, 1e-3, -1e-3, 0.5][j as usize]
        }
        (1, 2..=6) if !st.hints.is_empty() => {
            let i = (rng(&mut st.seed) % st.hints.len() as u64) as usize;
            st.hints[i]
        }
        (_, 2) => {
            let c = [0.0, 1.0, -1.0, l, h, 0.5 * (l + h), 90.0, 180.0, 360.0, 270.0, std::f64::consts::PI,
                     std::f64::consts::FRAC_PI_2, 2.0 * std::f64::consts::PI, 0.5];
            c[(rng(&mut st.seed) % c.len() as u64) as usize]
        }
        (2, 3..=7) => (l + (h - l) * u).round(),
        (_, 3) => (l + (h - l) * u).round(),
        (_, 4) | (3, 5..=9) => {
            // log-scaled around the end closest to zero
            let m = l.abs().max(h.abs()).max(1e-300);
            let e = m.log10() - 14.0 * unit(&mut st.seed);
            let s = if rng(&mut st.seed) & 1 == 0 { 1.0 } else { -1.0 };
            let base = if l > 0.0 { l } else { 0.0 };
            base + s * 10f64.powf(e)
        }
        _ => l + (h - l) * u,
    };
    if v >= lo && v <= hi { v } else { l + (h - l) * u }
}

fn name_of(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()
}

fn draw(name: String, lo: f64, hi: f64) -> f64 {
    ST.with(|s| {
        let st = &mut *s.borrow_mut();
        let v = match st.inputs.get(&name) {
            Some(v) => *v,
            None => sample(st, lo, hi),
        };
        st.log.push((name, v));
        v
    })
}

#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn vcrt_f64(p: *const u8, n: usize, lo: f64, hi: f64) -> f64 {
    let v = draw(name_of(p, n), lo, hi);
    if !(v >= lo && v <= hi) {
        ST.with(|s| s.borrow_mut().dead = true);
    }
    v
}
fn draw_int(p: *const u8, n: usize, lo: i64, hi: i64) -> i64 {
    let name = name_of(p, n);
    ST.with(|s| {
        let st = &mut *s.borrow_mut();
        let v = match st.inputs.get(&name) {
            Some(v) => *v as i64,
            None => {
                let w = (hi.wrapping_sub(lo) as u64).wrapping_add(1);
                let r = rng(&mut st.seed);
                if w == 0 { r as i64 } else if r % 7 == 0 { hi } else if r % 7 == 1 { lo } else { lo.wrapping_add((rng(&mut st.seed) % w) as i64) }
            }
        };
        st.log.push((name, v as f64));
        v
    })
}
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn vcrt_int(p: *const u8, n: usize, lo: i64, hi: i64) -> i64 {
    draw_int(p, n, lo, hi)
}
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn vcrt_enum(p: *const u8, n: usize, lo: i64, hi: i64) -> i64 {
    draw_int(p, n, lo, hi)
}
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn vcrt_bool(p: *const u8, n: usize) -> bool {
    draw_int(p, n, 0, 1) != 0
}
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn vcrt_assume(c: bool) {
    if !c {
        ST.with(|s| s.borrow_mut().dead = true);
        std::panic::panic_any(Discard);
    }
}
pub struct Discard;

fn fail(label: String, detail: String) {
    ST.with(|s| {
        let st = &mut *s.borrow_mut();
        if !st.dead {
            st.failed.push(format!("{label}{detail}"));
        }
    })
}
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn vcrt_ensure(p: *const u8, n: usize, c: bool) {
    ST.with(|s| s.borrow_mut().checks += 1);
    if !c {
        fail(name_of(p, n), String::new());
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn vcrt_ensure_eq(p: *const u8, n: usize, a: f64, b: f64, tol: f64) {
    ST.with(|s| s.borrow_mut().checks += 1);
    let ok = (a == b) || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol;
    if !ok {
        fail(name_of(p, n), format!(" got {a:?} expected {b:?}"));
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn vcrt_reach(_p: *const u8, _n: usize) {}
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn vcrt_allow_panic() {
    ST.with(|s| s.borrow_mut().allow_panic = true);
}
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn vcrt_option(_p: *const u8, _n: usize, _q: *const u8, _m: usize) {}
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn vcrt_fn(p: *const u8, n: usize, x: f64) -> f64 {
    let name = name_of(p, n);
    let mut h = hash(&name) ^ ST.with(|s| {
        let st = &mut *s.borrow_mut();
        let k = format!("fnseed:{name}");
        let v = match st.inputs.get(&k) {
            Some(v) => *v,
            None => {
                let v = (rng(&mut st.seed) % 1000000) as f64;
                st.inputs.insert(k.clone(), v);
                v
            }
        };
        if !st.log.iter().any(|(n, _)| *n == k) {
            st.log.push((k, v));
        }
        (v as u64).wrapping_mul(0x9E3779B97F4A7C15) | 1
    });
    let (a, b, c, d, e) = (unit(&mut h) * 4.0 - 2.0, unit(&mut h) * 3.0, unit(&mut h) * 5.0, unit(&mut h) * 7.0, unit(&mut h) * 2.0 - 1.0);
    a + b * (c * x + d).sin() + e * x
}
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn vcrt_is_symbolic() -> bool {
    false
}

// ---- wrappers used by the contracts ---------------------------------------------
#[inline(always)]
pub fn real(n: &'static str, lo: f64, hi: f64) -> f64 {
    vcrt_f64(n.as_ptr(), n.len(), lo, hi)
}
#[inline(always)]
pub fn any(n: &'static str) -> f64 {
    vcrt_f64(n.as_ptr(), n.len(), f64::NEG_INFINITY, f64::INFINITY)
}
#[inline(always)]
pub fn int(n: &'static str, lo: i64, hi: i64) -> i64 {
    vcrt_int(n.as_ptr(), n.len(), lo, hi)
}
/// enumerated exhaustively (one path per value)
#[inline(always)]
pub fn each(n: &'static str, lo: i64, hi: i64) -> i64 {
    vcrt_enum(n.as_ptr(), n.len(), lo, hi)
}
#[inline(always)]
pub fn flag(n: &'static str) -> bool {
    vcrt_bool(n.as_ptr(), n.len())
}
#[inline(always)]
pub fn assume(c: bool) {
    vcrt_assume(c)
}
#[inline(always)]
pub fn ensure(l: &'static str, c: bool) {
    vcrt_ensure(l.as_ptr(), l.len(), c)
}
#[inline(always)]
pub fn ensure_eq(l: &'static str, a: f64, b: f64, tol: f64) {
    vcrt_ensure_eq(l.as_ptr(), l.len(), a, b, tol)
}
#[inline(always)]
pub fn reach(l: &'static str) {
    vcrt_reach(l.as_ptr(), l.len())
}
#[inline(always)]
pub fn allow_panic() {
    vcrt_allow_panic()
}
#[inline(always)]
pub fn option(k: &'static str, v: &'static str) {
    vcrt_option(k.as_ptr(), k.len(), v.as_ptr(), v.len())
}
/// false when the contract runs natively
#[inline(always)]
pub fn symbolic() -> bool {
    vcrt_is_symbolic()
}
#[inline(always)]
pub fn func(n: &'static str, x: f64) -> f64 {
    vcrt_fn(n.as_ptr(), n.len(), x)
}
