//! P11: estimation.
use crate::rt::*;
use principia::StateCovariance;
use siderust::astro::dynamics::context::DynamicsContext;
use siderust::astro::dynamics::state::{Acceleration, AccelerationUnit, Position, Velocity};
use siderust::astro::dynamics::OrbitState;
use siderust::coordinates::frames::GCRS;
use siderust::pod::estimation::*;
use siderust::pod::problem::covariance::{CovarianceError, ParameterCovariance};
use siderust::pod::problem::parameter::ParameterOrdering;
use siderust::pod::process::noise::*;
use siderust::pod::propagation::{DynamicsError, Integrator, PodDynamicsError, Rk4Integrator, VariationalPropagator};
use siderust::pod::propagation::variational::{param_partials_central_diff, ParamColumn};
use siderust::pod::force::SiderustAccelerationModel;
use siderust::pod::qc::*;
use siderust::qtty::*;

static PN: [&str; 36] = ["p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9", "p10", "p11", "p12", "p13", "p14", "p15", "p16", "p17", "p18", "p19", "p20", "p21", "p22", "p23", "p24", "p25", "p26", "p27", "p28", "p29", "p30", "p31", "p32", "p33", "p34", "p35"];
static FN: [&str; 36] = ["f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "f10", "f11", "f12", "f13", "f14", "f15", "f16", "f17", "f18", "f19", "f20", "f21", "f22", "f23", "f24", "f25", "f26", "f27", "f28", "f29", "f30", "f31", "f32", "f33", "f34", "f35"];
static GN: [&str; 36] = ["g0", "g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8", "g9", "g10", "g11", "g12", "g13", "g14", "g15", "g16", "g17", "g18", "g19", "g20", "g21", "g22", "g23", "g24", "g25", "g26", "g27", "g28", "g29", "g30", "g31", "g32", "g33", "g34", "g35"];
type M6 = [[f64; 6]; 6];

/// steps handed out by the assumed variational step, and what it was asked
pub static mut PHI: [M6; 2] = [[[0.0; 6]; 6]; 2];
pub static mut STEP: [f64; 5] = [0.0; 5];
pub static mut CALLS: usize = 0;

fn full(n: &'static [&'static str; 36], b: f64) -> M6 {
    let mut m = [[0.0; 6]; 6];
    for i in 0..6 {
        for j in 0..6 {
            m[i][j] = real(n[6 * i + j], -b, b);
        }
    }
    m
}
/// no zero entries: the matrix product of affn skips the addends of a zero entry, which changes no sum
fn nonzero(n: &'static [&'static str; 36], b: f64) -> M6 {
    let mut m = [[0.0; 6]; 6];
    for i in 0..6 {
        for j in 0..6 {
            m[i][j] = real(n[6 * i + j], 1e-12, b) * if (i + j) % 3 == 1 { -1.0 } else { 1.0 };
        }
    }
    m
}
fn symmetric(n: &'static [&'static str; 36], b: f64) -> M6 {
    let mut m = [[0.0; 6]; 6];
    for i in 0..6 {
        for j in i..6 {
            m[i][j] = real(n[6 * i + j], if i == j { 0.0 } else { -b }, b);
            m[j][i] = m[i][j];
        }
    }
    m
}
fn state(r: [f64; 6]) -> OrbitState {
    let t = siderust::time::Time::<siderust::time::TT>::from_raw_j2000_seconds(Second::new(1e6)).unwrap();
    OrbitState::new(t, Position::<GCRS>::new(r[0], r[1], r[2]), Velocity::<GCRS>::new(r[3], r[4], r[5]))
}
pub fn row6(s: &OrbitState) -> [f64; 6] {
    [s.position.x().value(), s.position.y().value(), s.position.z().value(), s.velocity.x().value(), s.velocity.y().value(), s.velocity.z().value()]
}
fn any6() -> [f64; 6] {
    [real("rx", -1e5, 1e5), real("ry", -1e5, 1e5), real("rz", -1e5, 1e5), real("vx", -20.0, 20.0), real("vy", -20.0, 20.0), real("vz", -20.0, 20.0)]
}
fn mul(a: &M6, b: &M6) -> M6 {
    let mut m = [[0.0; 6]; 6];
    for i in 0..6 {
        for j in 0..6 {
            for k in 0..6 {
                m[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    m
}
fn bad(k: i64) -> f64 {
    [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][k as usize]
}

/// a force law that is nothing but its parameter, and an integrator that answers with an arbitrary function of it
struct Law(f64);
impl siderust::astro::dynamics::forces::AccelerationModel<DynamicsContext, siderust::time::TT, siderust::coordinates::centers::Geocentric, GCRS> for Law {
    fn name(&self) -> &'static str {
        "law"
    }
    fn acceleration(&self, _s: &OrbitState, _c: &DynamicsContext) -> Result<Acceleration<GCRS, AccelerationUnit>, principia::PrincipiaError> {
        Ok(Acceleration::<GCRS, AccelerationUnit>::new(KmPerSecondsSquared::new(self.0), KmPerSecondsSquared::new(0.0), KmPerSecondsSquared::new(0.0)))
    }
}
struct Flow;
impl Integrator for Flow {
    fn propagate<FM: SiderustAccelerationModel>(&self, force: &FM, s: OrbitState, dt: Second, c: &DynamicsContext) -> Result<OrbitState, DynamicsError> {
        let p = force.acceleration(&s, c).map(|a| a.x().value()).unwrap_or(0.0);
        let y = row6(&s);
        Ok(state([func("f0", p) + y[0], func("f1", p) + y[1], func("f2", p) * dt.value(), func("f3", p), func("f4", p), func("f5", p)]))
    }
}

contracts! {
    fn vc_p11_row() {
        // three parameters, a row of two partials
        let mut ne = NormalEquations::new(3);
        let (i, j) = (each("i", 0, 3) as usize, each("j", 0, 3) as usize);
        let (h0, h1) = (real("h0", -1e3, 1e3), real("h1", -1e3, 1e3));
        let (g0, g1, g2) = (real("g0", -1e3, 1e3), real("g1", -1e3, 1e3), real("g2", -1e3, 1e3));
        let (r0, s0, r, s) = (real("r0", -1e3, 1e3), real("s0", 1e-3, 1e3), real("r", -1e3, 1e3), real("s", -1e3, 1e3));
        ensure("a full row is taken", ne.add_row(&[(0, g0), (1, g1), (2, g2)], r0, s0).is_ok());
        let ok = ne.add_row(&[(i, h0), (j, h1)], r, s).is_ok();
        ensure("rejected exactly if an index is out of range or sigma is not positive", ok == (i < 3 && j < 3 && s > 0.0));
        let mut h = [0.0; 4];
        h[i] += h0;
        h[j] += h1;
        let g = [g0, g1, g2];
        let (w0, w) = (1.0 / (s0 * s0), if ok { 1.0 / (s * s) } else { 0.0 });
        reach(if ok { "taken" } else { "rejected" });
        for a in 0..3 {
            ensure_eq("right-hand side", ne.b[(a, 0)], w0 * g[a] * r0 + w * h[a] * r, if symbolic() { 0.0 } else { 1e-9 * (1.0 + w0 + w) * 1e6 });
            for b in a..3 {
                ensure_eq("normal matrix", ne.n_matrix[(a, b)], w0 * g[a] * g[b] + w * h[a] * h[b], if symbolic() { 0.0 } else { 1e-9 * (1.0 + w0 + w) * 1e6 });
            }
        }
        ensure_eq("weighted squares", ne.chi2, w0 * r0 * r0 + w * r * r, if symbolic() { 0.0 } else { 1e-9 * (1.0 + w0 + w) * 1e6 });
        ensure("rows taken", ne.n_obs == if ok { 2 } else { 1 } && ne.n_params() == 3);
    }
    fn vc_p11_row_finite() {
        let mut ne = NormalEquations::new(2);
        let x = bad(each("bad", 0, 2));
        let at = each("at", 0, 3);
        let v = |k: i64, y: f64| if at == k { x } else { y };
        ensure("non-finite numbers are rejected", ne.add_row(&[(0, v(0, 1.0)), (1, v(1, 2.0))], v(2, 3.0), v(3, 4.0)).is_err());
        ensure("and leave nothing behind", ne.b[(0, 0)] == 0.0 && ne.b[(1, 0)] == 0.0 && ne.n_matrix[(0, 0)] == 0.0 && ne.n_matrix[(0, 1)] == 0.0 && ne.chi2 == 0.0 && ne.n_obs == 0);
        reach("non-finite");
    }
    fn vc_p11_solve() {
        let (a, b, c, d, e) = (real("n00", -1e3, 1e3), real("n01", -1e3, 1e3), real("n11", -1e3, 1e3), real("b0", -1e3, 1e3), real("b1", -1e3, 1e3));
        let mut ne = NormalEquations::new(2);
        ne.n_matrix[(0, 0)] = a;
        ne.n_matrix[(0, 1)] = b;
        ne.n_matrix[(1, 1)] = c;
        // only the upper triangle is given
        ne.n_matrix[(1, 0)] = real("rubbish", -1e3, 1e3);
        ne.b[(0, 0)] = d;
        ne.b[(1, 0)] = e;
        ne.chi2 = real("chi2", 0.0, 1e9);
        let chi2 = ne.chi2;
        ne.n_obs = each("rows", 1, 4) as usize;
        let n = ne.n_obs;
        let definite = a > 0.0 && a * c - b * b > 0.0;
        if !symbolic() {
            assume(!definite || (a > 1e-3 && (a * c - b * b) > 1e-3 * (a + c) * (a + c)));
        }
        match ne.solve() {
            Ok(r) => {
                reach("solved");
                ensure("solved only if positive definite", definite);
                let (x, y) = (r.update[0], r.update[1]);
                let tol = if symbolic() { 0.0 } else { 1e-6 };
                ensure_eq("update solves the normal equations (0)", a * x + b * y, d, tol);
                ensure_eq("update solves the normal equations (1)", b * x + c * y, e, tol);
                for k in 0..2 {
                    let v = [r.covariance[0][k], r.covariance[1][k]];
                    ensure_eq("covariance inverts the normal matrix (0)", a * v[0] + b * v[1], if k == 0 { 1.0 } else { 0.0 }, tol);
                    ensure_eq("covariance inverts the normal matrix (1)", b * v[0] + c * v[1], if k == 1 { 1.0 } else { 0.0 }, tol);
                }
                ensure("bookkeeping", r.n_obs == n && r.n_params == 2 && r.chi2 == chi2);
                ensure_eq("reduced chi-square", r.reduced_chi2(), chi2 / if n > 3 { (n - 2) as f64 } else { 1.0 }, if symbolic() { 0.0 } else { 1e-6 });
                ensure("no state covariance of two parameters", r.to_state_covariance().is_none());
            }
            Err(_) => {
                reach("refused");
                ensure("refused only if not positive definite", !definite);
            }
        }
    }
    fn vc_p11_state_covariance() {
        let p = symmetric(&PN, 1e3);
        let r = WlsResult { update: vec![0.0; 6], covariance: p.iter().map(|x| x.to_vec()).collect(), chi2: 0.0, n_obs: 9, n_params: 6 };
        match r.to_state_covariance() {
            Some(c) => {
                reach("covariance");
                let q = c.to_row_major();
                for i in 0..6 {
                    for j in 0..6 {
                        ensure_eq("same covariance", q[i][j], p[i][j], 0.0);
                    }
                }
            }
            None => ensure("six parameters are a state", false),
        }
    }
    fn vc_p11_newton() {
        // one parameter; two rounds of arbitrary normal equations
        let x0 = real("x0", -1e3, 1e3);
        let h = [real("h0", 0.1, 10.0), real("h1", 0.1, 10.0)];
        let r = [real("r0", -1e3, 1e3), real("r1", -1e3, 1e3)];
        let (tol, tc) = (real("tol", 0.0, 1.0), real("tol chi2", 0.0, 1.0));
        let rounds = each("rounds", 1, 2) as usize;
        let mut seen = [0.0; 3];
        let mut n = 0;
        let o = NonlinearOptions { max_iter: rounds, tol_rel: tol, tol_chi2_rel: tc };
        let got = gauss_newton(vec![x0], o, |p| {
            let mut ne = NormalEquations::new(1);
            seen[n] = p[0];
            let _ = ne.add_row(&[(0, h[n])], r[n], 1.0);
            n += 1;
            Ok(ne)
        });
        let d = [r[0] / h[0], r[1] / h[1]];
        let x1 = x0 + d[0];
        let (c0, c1) = (r[0] * r[0], r[1] * r[1]);
        let t = if symbolic() { 0.0 } else { 1e-9 };
        ensure_eq("first round at the initial guess", seen[0], x0, 0.0);
        ensure("as many rounds as allowed", n == rounds);
        if rounds == 2 {
            ensure_eq("second round at the improved guess", seen[1], x1, t);
        }
        let step = d[1].abs() / if x1.abs() > 1.0 { x1.abs() } else { 1.0 };
        let change = (c1 - c0).abs();
        let done = rounds == 2 && step < tol && c0 > 0.0 && change < tc * c0;
        if !symbolic() {
            assume((step - tol).abs() > 1e-9 && (change - tc * c0).abs() > 1e-6 && c0 > 1e-6);
        }
        match got {
            Ok(s) => {
                reach("converged");
                ensure("converged only if step and chi-square settled", done);
                ensure_eq("both corrections applied", s.parameters[0], x1 + d[1], t);
                ensure("rounds counted", s.iterations == 2);
                ensure_eq("last solution reported", s.last.update[0], d[1], t);
            }
            Err(NonlinearError::DidNotConverge(k)) => {
                reach("not converged");
                ensure("refused only if not settled", !done && k == rounds);
            }
            Err(_) => ensure("the equations can be solved", false),
        }
    }
    fn vc_p11_newton_refused() {
        let o = NonlinearOptions { max_iter: 3, tol_rel: 1e-3, tol_chi2_rel: 1e-3 };
        let x = bad(each("bad", 0, 2));
        let go = |o: NonlinearOptions, v: f64| gauss_newton(vec![v], o, |_| Ok(NormalEquations::new(2))).is_err();
        ensure("no rounds refused", go(NonlinearOptions { max_iter: 0, ..o }, 1.0));
        ensure("non-finite tolerance refused", go(NonlinearOptions { tol_rel: x, ..o }, 1.0) && go(NonlinearOptions { tol_chi2_rel: x, ..o }, 1.0));
        ensure("negative tolerance refused", go(NonlinearOptions { tol_rel: real("neg", -1.0, -1e-9), ..o }, 1.0) && go(NonlinearOptions { tol_chi2_rel: real("neg2", -1.0, -1e-9), ..o }, 1.0));
        ensure("non-finite guess refused", go(o, x));
        ensure("wrong number of parameters refused", go(o, 1.0));
        reach("refused");
    }
    fn vc_p11_predict() {
        let (p, f, q) = (symmetric(&PN, 1e3), full(&FN, 10.0), symmetric(&GN, 1e3));
        let noise = flag("noise");
        let y = any6();
        let mut e = OrbitEkf::new(state([1.0, 2.0, 3.0, 4.0, 5.0, 6.0]), StateCovariance::from_row_major(p));
        e.predict(state(y), f, if noise { Some(StateCovariance::from_row_major(q)) } else { None });
        reach("predict");
        let mut ft = f;
        for i in 0..6 {
            for j in 0..6 {
                ft[i][j] = f[j][i];
            }
        }
        let want = mul(&mul(&f, &p), &ft);
        let got = e.covariance().to_row_major();
        let z = row6(e.state());
        for i in 0..6 {
            ensure_eq("state predicted", z[i], y[i], 0.0);
            for j in 0..6 {
                ensure_eq("covariance carried by the transition matrix, noise added", got[i][j], want[i][j] + if noise { q[i][j] } else { 0.0 }, if symbolic() { 0.0 } else { 1e-6 });
            }
        }
    }
    fn vc_p11_update() {
        // the state in axes where the covariance is diagonal; the measurement sees any three of the six components
        let mut p = [[0.0; 6]; 6];
        for i in 0..6 {
            p[i][i] = real(PN[i], 0.0, 1e3);
        }
        let k = each("pattern", 0, 1) as usize;
        let on = [[0, 1, 3], [2, 4, 5]][k];
        // one correlated pair inside the measured ones
        let c = real("c", -1e3, 1e3);
        p[on[0]][on[2]] = c;
        p[on[2]][on[0]] = c;
        let mut h = [0.0; 6];
        for (i, n) in on.iter().zip(["h0", "h1", "h2"]) {
            h[*i] = real(n, -10.0, 10.0);
        }
        let (nu, r) = (real("innovation", -1e3, 1e3), real("r", -1.0, 1e3));
        let y = any6();
        let mut ph = [0.0; 6];
        for i in 0..6 {
            for j in 0..6 {
                ph[i] += p[i][j] * h[j];
            }
        }
        let s: f64 = r + h[0] * ph[0] + h[1] * ph[1] + h[2] * ph[2] + h[3] * ph[3] + h[4] * ph[4] + h[5] * ph[5];
        if !symbolic() {
            assume(s.abs() > 1e-2);
        }
        let mut e = OrbitEkf::new(state(y), StateCovariance::from_row_major(p));
        let tol = if symbolic() { 0.0 } else { 1e-3 };
        match e.update_scalar(h, nu, r) {
            Ok(i) => {
                reach("updated");
                ensure("updated only with positive innovation variance", s > 0.0 && r >= 0.0);
                ensure_eq("innovation variance", i.variance, s, tol);
                ensure_eq("normalised innovation", i.nis * s, nu * nu, tol);
                ensure("innovation reported", i.innovation == nu);
                let (z, got) = (row6(e.state()), e.covariance().to_row_major());
                for a in 0..6 {
                    ensure_eq("state moved by the gain", s * (z[a] - y[a]), ph[a] * nu, tol * s.abs().max(1.0) * 10.0);
                    for b in 0..6 {
                        ensure_eq("covariance after the measurement", s * (got[a][b] - p[a][b]), -ph[a] * ph[b], tol * s.abs().max(1.0) * 10.0);
                    }
                }
            }
            Err(_) => {
                reach("refused");
                ensure("refused only without positive variance", s <= 0.0 || r < 0.0);
                let (z, got) = (row6(e.state()), e.covariance().to_row_major());
                for a in 0..6 {
                    ensure("a refused measurement changes nothing", z[a] == y[a] && got[a][a] == p[a][a]);
                }
            }
        }
    }
    fn vc_p11_update_finite() {
        let x = bad(each("bad", 0, 2));
        let at = each("at", 0, 7) as usize;
        let mut h = [1.0; 6];
        if at < 6 {
            h[at] = x;
        }
        let mut e = OrbitEkf::from_stddevs(state([1.0; 6]), [1.0; 3], [1.0; 3]);
        ensure("non-finite measurements are refused", e.update_scalar(h, if at == 6 { x } else { 0.5 }, if at == 7 { x } else { 1.0 }).is_err());
        ensure("and change nothing", row6(e.state())[0] == 1.0);
        reach("non-finite");
    }
    fn vc_p11_sigmas() {
        let (s, v) = ([real("s0", 0.0, 1e3), real("s1", 0.0, 1e3), real("s2", 0.0, 1e3)], [real("v0", 0.0, 1e3), real("v1", 0.0, 1e3), real("v2", 0.0, 1e3)]);
        let e = OrbitEkf::from_stddevs(state([1.0; 6]), s, v);
        let c = e.covariance().to_row_major();
        for i in 0..6 {
            for j in 0..6 {
                let w = if i != j { 0.0 } else if i < 3 { s[i] * s[i] } else { v[i - 3] * v[i - 3] };
                ensure_eq("variances on the diagonal", c[i][j], w, if symbolic() { 0.0 } else { 1e-6 });
            }
        }
        reach("sigmas");
    }
    fn vc_p11_process_noise() {
        let psd = [real("q0", -1.0, 1.0), real("q1", -1.0, 1.0), real("q2", -1.0, 1.0)];
        let dt = real("dt", -10.0, 1e5);
        let (sg, tau) = (real("sigma", -1.0, 10.0), real("tau", -10.0, 1e5));
        let e = [real("e0", -1e-3, 1e-3), real("e1", 0.0, 1e-3), real("e2", 0.0, 1e-3)];
        let terms = each("terms", 0, 3);
        let gm = GaussMarkovParams { sigma: sg, tau: Second::new(tau) };
        let one = GaussMarkovParams { sigma: 2.0, tau: Second::new(100.0) };
        let m = ProcessNoiseModel {
            position_velocity: WhiteAccelPsd(psd),
            drag_scale: if terms == 1 || terms == 3 { Some(gm) } else { None },
            srp_scale: if terms == 2 { Some(gm) } else if terms == 3 { Some(one) } else { None },
            empirical_white: if terms >= 2 { Some(e.map(|x| KmPerSecondsSquared::new(x))) } else { None },
        };
        let n = [6, 7, 10, 11][terms as usize];
        let good = dt >= 0.0 && psd[0] >= 0.0 && psd[1] >= 0.0 && psd[2] >= 0.0 && (terms == 0 || (sg >= 0.0 && tau > 0.0)) && (terms < 2 || e[0] >= 0.0);
        ensure("dimension", m.dim() == n);
        match m.q_matrix(Second::new(dt)) {
            Ok(q) => {
                reach("noise");
                ensure("noise only for non-negative parameters", good && q.len() == n);
                let g = |s: f64, t: f64| s * s * (1.0 - (-2.0 * dt / t).exp());
                for i in 0..n {
                    for j in 0..n {
                        let want = if i < 6 && j < 6 {
                            let (k, l) = (i % 3, j % 3);
                            if k != l { 0.0 } else if i < 3 && j < 3 { psd[k] * dt * dt * dt / 3.0 } else if i >= 3 && j >= 3 { psd[k] * dt } else { psd[k] * dt * dt / 2.0 }
                        } else if i != j {
                            0.0
                        } else {
                            match (terms, i) {
                                (1, 6) | (2, 6) | (3, 6) => g(sg, tau),
                                (3, 7) => g(2.0, 100.0),
                                _ => { let k = i - (n - 3); e[k] * e[k] * dt }
                            }
                        };
                        ensure_eq("integrated noise", q[i][j], want, if symbolic() { 0.0 } else { 1e-9 * (1.0 + want.abs()) });
                    }
                }
            }
            Err(_) => {
                reach("refused");
                ensure("refused only for bad parameters", !good);
            }
        }
    }
    fn vc_p11_psd() {
        let psd = [real("q0", 0.0, 1.0), real("q1", 0.0, 1.0), real("q2", 0.0, 1.0)];
        let m = ProcessNoiseModel { position_velocity: WhiteAccelPsd(psd), drag_scale: Some(GaussMarkovParams { sigma: real("sigma", 0.0, 10.0), tau: Second::new(real("tau", 1.0, 1e5)) }), srp_scale: None, empirical_white: None };
        reach("psd");
        ensure("process noise is positive semidefinite", m.is_psd(Second::new(real("dt", 0.1, 1e4))).unwrap_or(false));
    }
    fn vc_p11_schedule() {
        let (a, b, c) = (real("d0", 0.0, 1e3), real("d1", 0.0, 1e3), real("t", -1.0, 3e3));
        let s = |d: f64, x: f64| PiecewiseSegment { duration: Second::new(d), sigma_pos_m: x, sigma_vel_mps: 10.0 * x };
        let p = ProcessNoise::PiecewiseConstant { intervals: vec![s(a, 1.0), s(b, 2.0), s(50.0, 3.0)] };
        let want = if c < a { 1.0 } else if c < a + b { 2.0 } else { 3.0 };
        let got = p.sigma_at(Second::new(c));
        reach("schedule");
        ensure("the interval that contains the time, the last one after the end", got.0 == want && got.1 == 10.0 * want);
        let w = ProcessNoise::WhiteNoise { sigma_pos_m: a, sigma_vel_mps: b }.sigma_at(Second::new(c));
        ensure("white noise at all times", w.0 == a && w.1 == b && ProcessNoise::None.sigma_at(Second::new(c)) == (0.0, 0.0));
        ensure("an empty schedule is silent", ProcessNoise::PiecewiseConstant { intervals: vec![] }.sigma_at(Second::new(c)) == (0.0, 0.0));
        ensure("active unless none", p.is_active() && !ProcessNoise::None.is_active());
    }
    fn vc_p11_transition() {
        let f = [nonzero(&FN, 10.0), nonzero(&GN, 10.0)];
        let (y, dt) = (any6(), real("dt", -1e3, 1e3));
        unsafe {
            PHI = f;
            CALLS = 0;
        }
        let law = Law(0.0);
        let r = VariationalPropagator { step: Second::new(dt) }.propagate(&law, state(y), 2, &DynamicsContext::empty());
        if !symbolic() {
            return;
        }
        match r {
            Ok(arc) => {
                reach("arc");
                ensure("a state for each step", arc.len() == 2);
                let (a, b) = (arc.steps[0].1.as_array(), arc.steps[1].1.as_array());
                let want = mul(&f[1], &f[0]);
                for i in 0..6 {
                    for j in 0..6 {
                        ensure_eq("transition of the first step", a[i][j], f[0][i][j], 0.0);
                        ensure_eq("later steps multiply from the left", b[i][j], want[i][j], 0.0);
                    }
                }
                let (s1, s2) = (row6(&arc.steps[0].0), row6(&arc.steps[1].0));
                ensure_eq("steps follow each other", s1[0], y[0] + dt, 0.0);
                ensure_eq("steps follow each other (2)", s2[0], y[0] + 2.0 * dt, 0.0);
                ensure("the last state and matrix end the arc", arc.final_state().map(|s| row6(s)[0]) == Some(s2[0]) && arc.final_stm().map(|m| m.as_array()[0][1]) == Some(b[0][1]));
            }
            Err(_) => ensure("arc", false),
        }
    }
    fn vc_p11_partials() {
        let (p, e, dt) = (real("p", -10.0, 10.0), real("e", -1.0, 1.0), real("dt", -1e3, 1e3));
        let y = any6();
        let r = param_partials_central_diff(&Flow, state(y), Second::new(dt), &DynamicsContext::empty(), p, e, Law);
        match r {
            Ok(ParamColumn(c)) => {
                reach("partials");
                ensure("only for a positive step", e > 0.0);
                for (i, n) in ["f0", "f1", "f2", "f3", "f4", "f5"].into_iter().enumerate() {
                    let k = if i == 2 { dt } else { 1.0 };
                    if !symbolic() {
                        assume(e > 1e-3);
                    }
                    ensure_eq("central difference", 2.0 * e * c[i], k * (func(n, p + e) - func(n, p - e)), if symbolic() { 0.0 } else { 1e-6 });
                }
            }
            Err(x) => {
                reach("refused");
                ensure("a step that is not positive is refused", e <= 0.0 && matches!(x, PodDynamicsError::InvalidParamStep(_)));
            }
        }
    }
    fn vc_p11_rk4_steps() {
        let (dt, st) = (real("dt", -1e4, 1e4), real("step", -1e3, 1e3));
        assume(st == 0.0 || st.abs() >= 1e-6);
        let law = Law(0.0);
        if !symbolic() {
            return;
        }
        unsafe { STEP = [0.0; 5] };
        let y = any6();
        let r = Rk4Integrator { step: Second::new(st) }.propagate(&law, state(y), Second::new(dt), &DynamicsContext::empty());
        let q = unsafe { STEP };
        match r {
            Ok(s) => {
                reach("propagated");
                if dt == 0.0 {
                    ensure("nothing to do", q[0] == 0.0 && row6(&s)[0] == y[0]);
                } else {
                    ensure("one propagation over the whole interval", q[0] == 1.0 && q[2] == dt && q[3] == y[0]);
                    let n = dt / q[1];
                    ensure("a whole number of steps", n >= 1.0 && n == n.floor());
                    ensure("none longer than asked", dt.abs() <= n * st.abs());
                    ensure("no needless steps", (n - 1.0) * st.abs() < dt.abs());
                }
            }
            Err(_) => {
                reach("refused");
                ensure("refused only without a step", st == 0.0);
            }
        }
    }
    fn vc_p11_compare() {
        let (d, y) = ([real("dr", -10.0, 10.0), real("dt", -10.0, 10.0), real("dn", -10.0, 10.0)], (real("r", 6e3, 5e4), real("v", 1.0, 10.0), real("angle", 0.1, 3.0)));
        let (lon, lat, roll) = (real("lon", -3.1, 3.1), real("lat", -1.5, 1.5), real("roll", -3.1, 3.1));
        let u = [lat.cos() * lon.cos(), lat.cos() * lon.sin(), lat.sin()];
        let (e, n) = ([-lon.sin(), lon.cos(), 0.0], [-lat.sin() * lon.cos(), -lat.sin() * lon.sin(), lat.cos()]);
        let t = [0, 1, 2].map(|i| roll.cos() * e[i] + roll.sin() * n[i]);
        let w = [0, 1, 2].map(|i| -roll.sin() * e[i] + roll.cos() * n[i]);
        let (r, v, a) = y;
        let at = |k: usize| v * (a.cos() * u[k] + a.sin() * t[k]);
        let refr = state([r * u[0], r * u[1], r * u[2], at(0), at(1), at(2)]);
        let off = |k: usize| r * u[k] + d[0] * u[k] + d[1] * t[k] + d[2] * w[k];
        let est = state([off(0), off(1), off(2), 0.0, 0.0, 0.0]);
        let out = rtn_diff(&[est, refr], &[refr, refr, est]);
        reach("rtn");
        ensure("compared by index over the shorter list", out.len() == 2);
        ensure_eq("radial, metres", out[0].r_m, 1000.0 * d[0], 1e-4);
        ensure_eq("along track, metres", out[0].t_m, 1000.0 * d[1], 1e-4);
        ensure_eq("cross track, metres", out[0].n_m, 1000.0 * d[2], 1e-4);
        ensure_eq("no difference to itself", out[1].r_m, 0.0, 1e-4);
        let s = rtn_summary(&out);
        ensure("counted", s.n == 2);
        ensure_eq("radial rms", 2.0 * s.rms_r_m * s.rms_r_m, 1e6 * d[0] * d[0], 1e-1);
        ensure_eq("along-track rms", 2.0 * s.rms_t_m * s.rms_t_m, 1e6 * d[1] * d[1], 1e-1);
        ensure_eq("cross-track rms", 2.0 * s.rms_n_m * s.rms_n_m, 1e6 * d[2] * d[2], 1e-1);
        ensure_eq("3D rms", 2.0 * s.rms_3d_m * s.rms_3d_m, 1e6 * (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]), 1e-1);
    }
    fn vc_p11_stats() {
        let n = each("n", 0, 3) as usize;
        let x = [real("x0", -1e3, 1e3), real("x1", -1e3, 1e3), real("x2", -1e3, 1e3)];
        let s = ResidualStats::from_slice(&x[..n]);
        reach("stats");
        ensure("counted", s.n == n);
        let tol = if symbolic() { 0.0 } else { 1e-6 };
        if n == 0 {
            ensure("nothing of nothing", s.mean == 0.0 && s.rms == 0.0 && s.std == 0.0);
        } else {
            let m = n as f64;
            let (mut a, mut q) = (0.0, 0.0);
            for v in &x[..n] {
                a += v;
                q += v * v;
                ensure("between min and max", s.min <= *v && *v <= s.max);
            }
            ensure("min and max are taken", (0..n).any(|i| s.min == x[i]) && (0..n).any(|i| s.max == x[i]));
            ensure_eq("mean", s.mean * m, a, tol);
            ensure_eq("rms", s.rms * s.rms * m, q, tol * 1e3);
            ensure_eq("sample deviation", s.std * s.std * (m - 1.0), if n == 1 { 0.0 } else { q - a * a / m }, tol * 1e3);
        }
        let r = SlrValidationReport::from_pairs(x[..n].iter().map(|v| (1.0, *v)));
        ensure("validation keeps the residuals", r.residuals.len() == n && r.stats.n == n && (0..n).all(|i| r.residuals[i].residual_m == x[i] && r.residuals[i].jd_tt == 1.0));
    }
    fn vc_p11_covariance() {
        let n = each("entries", 3, 4) as usize;
        let d = [real("c00", -10.0, 10.0), real("c01", -10.0, 10.0), real("c10", -10.0, 10.0), real("c11", -10.0, 10.0)];
        let p = || siderust::pod::problem::parameter::Parameter { kind: ParameterKind::DragScale, initial_value: 0.0, apriori_sigma: None };
        let c = ParameterCovariance { params: ParameterOrdering { params: vec![p(), p()] }, data: d[..n].to_vec() };
        let tol = real("tol", 0.0, 1.0);
        reach("covariance");
        ensure("square", c.validate_dim().is_ok() == (n == 4));
        match c.validate_symmetric(tol) {
            Ok(()) => ensure("symmetric", n == 4 && (d[1] - d[2]).abs() <= tol),
            Err(CovarianceError::NotSymmetric { i, j, .. }) => ensure("not symmetric", n == 4 && (d[1] - d[2]).abs() > tol && i == 0 && j == 1),
            Err(_) => ensure("not square", n == 3),
        }
        match c.validate_diagonal_nonneg() {
            Ok(()) => ensure("variances", n == 4 && d[0] >= 0.0 && d[3] >= 0.0),
            Err(CovarianceError::NotPsdDiagonal { i, .. }) => ensure("negative variance", n == 4 && if i == 0 { d[0] < 0.0 } else { i == 1 && d[0] >= 0.0 && d[3] < 0.0 }),
            Err(_) => ensure("not square", n == 3),
        }
    }
}
