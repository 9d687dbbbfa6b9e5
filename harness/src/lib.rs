//! Contracts for the verification conditions (see /verif/DESIGN.md).
#[macro_use]
mod rt_macros {
    #[macro_export]
    macro_rules! contracts {
        ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
            $( #[no_mangle] #[inline(never)] pub extern "C-unwind" fn $name() $body )*
            pub const LIST: &[(&str, extern "C-unwind" fn())] = &[ $( (stringify!($name), $name) ),* ];
        };
    }
}
mod rt;
pub mod assumed;
mod models;
mod p01_azimuth;
mod p02_frames;
mod p03_centers;
mod p04_orientation;
mod p05_observer;
mod p06_apparent;
mod p07_orbits;
mod p08_events;
mod p09_forces;
mod p10_geometry;
mod p11_estimation;
mod p12_kernels;
mod p13_formats;

fn all() -> Vec<(&'static str, extern "C-unwind" fn())> {
    let mut v: Vec<(&'static str, extern "C-unwind" fn())> = Vec::new();
    for l in [p01_azimuth::LIST, p02_frames::LIST, p03_centers::LIST, p04_orientation::LIST, p05_observer::LIST, p06_apparent::LIST, p07_orbits::LIST, p08_events::LIST, p09_forces::LIST, p10_geometry::LIST, p11_estimation::LIST, p12_kernels::LIST, p13_formats::LIST] {
        v.extend_from_slice(l);
    }
    v
}

fn run_once(f: extern "C-unwind" fn()) -> (bool, Vec<String>) {
    let r = std::panic::catch_unwind(|| f());
    rt::ST.with(|s| {
        let st = &mut *s.borrow_mut();
        let mut fails = st.failed.clone();
        match r {
            Ok(()) => {}
            Err(e) => {
                if e.downcast_ref::<rt::Discard>().is_none() && !st.allow_panic && !st.dead {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                    fails.push(format!("no-panic: panicked: {m}"));
                }
            }
        }
        (st.dead, fails)
    })
}

pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let name = a.get(2).cloned().unwrap_or_default();
    let hs = all();
    if a.get(1).map(|s| s == "list").unwrap_or(true) {
        for (n, _) in hs {
            println!("{n}");
        }
        return;
    }
    let f = match hs.iter().find(|(n, _)| *n == name) {
        Some((_, f)) => *f,
        None => {
            eprintln!("unknown contract {name}");
            std::process::exit(3);
        }
    };
    match a[1].as_str() {
        // replay: vch run <contract> <file of name=value lines>
        "run" => {
            let txt = std::fs::read_to_string(&a[3]).unwrap_or_default();
            rt::ST.with(|s| {
                let st = &mut *s.borrow_mut();
                st.seed = 88172645463325252;
                for l in txt.lines() {
                    if let Some((k, v)) = l.split_once('=') {
                        if let Ok(v) = v.trim().parse::<f64>() {
                            st.inputs.insert(k.trim().to_string(), v);
                        }
                    }
                }
            });
            let (dead, fails) = run_once(f);
            rt::ST.with(|s| {
                for (k, v) in &s.borrow().log {
                    println!("INPUT {k}={v:?}");
                }
            });
            if dead {
                println!("PRECONDITION-NOT-MET");
                std::process::exit(2);
            }
            for l in &fails {
                println!("FAILED {l}");
            }
            std::process::exit(if fails.is_empty() { 0 } else { 1 });
        }
        // search: vch search <contract> <seed> <seconds> [hints file]
        "search" => {
            let seed: u64 = a[3].parse().unwrap_or(1);
            let secs: f64 = a[4].parse().unwrap_or(5.0);
            let hints: Vec<f64> = a.get(5).and_then(|p| std::fs::read_to_string(p).ok())
                .map(|t| t.split_whitespace().filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
            let t0 = std::time::Instant::now();
            let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
            let (mut runs, mut live) = (0u64, 0u64);
            while t0.elapsed().as_secs_f64() < secs {
                let sd = rt::rng(&mut s) | 1;
                rt::ST.with(|st| {
                    let st = &mut *st.borrow_mut();
                    *st = rt::State { seed: sd, hints: hints.clone(), style: runs % 4, ..Default::default() };
                });
                let (dead, fails) = run_once(f);
                runs += 1;
                if !dead {
                    live += 1;
                }
                if !dead && !fails.is_empty() {
                    rt::ST.with(|st| {
                        for (k, v) in &st.borrow().log {
                            println!("INPUT {k}={v:?}");
                        }
                    });
                    for l in &fails {
                        println!("FAILED {l}");
                    }
                    println!("RUNS {runs} LIVE {live}");
                    std::process::exit(1);
                }
            }
            println!("RUNS {runs} LIVE {live}");
        }
        _ => std::process::exit(3),
    }
}
