//! C17: preintegrated inertial factors against an independent recursion, over all sample histories up to a length.
use crate::ensure;
use crate::fw::*;
use crate::refm::*;
use crate::vars::*;
use factrs::assign_symbols;
use factrs::containers::{Factor, Values};
use factrs::linalg::{Matrix3, Vector3};
use factrs::residuals::*;
use factrs::variables::*;

assign_symbols!(Px: SE3; Vx: VectorVar3; Bx: ImuBias);

#[derive(Clone, Copy)]
struct Sample {
    w: [f64; 3],
    a: [f64; 3],
    dt: f64,
}
const fn s(w: [f64; 3], a: [f64; 3], dt: f64) -> Sample {
    Sample { w, a, dt }
}
const ALPHA: [Sample; 8] = [
    s([0.3, -0.2, 0.5], [1.0, -2.0, 9.5], 0.1),
    s([-1.0, 2.0, 0.7], [0.5, 0.25, -9.81], 0.3),
    s([0.0, 0.0, 0.0], [0.0, 0.0, 9.81], 0.2),
    s([2.0, 0.0, 0.0], [0.0, 3.0, 0.0], 0.5),
    s([1e-7, -1e-7, 0.0], [1.0, 1.0, 1.0], 0.01),
    s([0.0, -3.0, 1.0], [-4.0, 0.0, 2.0], 0.05),
    s([0.4, 0.4, -0.4], [0.0, 0.0, 0.0], 1.0),
    s([-0.3, 0.1, 0.9], [6.0, -5.0, 4.0], 0.02),
];
/// unusual rates, accelerations and time steps
const ODD: [Sample; 10] = [
    s([0.3, -0.2, 0.5], [1.0, -2.0, 9.5], 1e-4),
    s([0.1, 0.7, -0.4], [3.0, 1.0, -2.0], 1e-6),
    s([0.2, -0.1, 0.3], [1.0, 2.0, 3.0], 2.0),
    s([30.0, -20.0, 10.0], [5.0, 1.0, 9.0], 0.01),
    s([0.2, 0.1, -0.3], [800.0, -500.0, 300.0], 0.01),
    s([1e-3, 0.0, 0.0], [0.0, 1e-6, 0.0], 0.1),
    s([0.01, -0.02, 0.02], [0.0, 0.0, 9.81], 0.05),
    s([0.0, 0.0, 2.2], [1.0, 0.0, 0.0], 1.0),
    s([0.0, -2.2, 0.0], [0.0, 1.0, 0.0], 1.0),
    s([0.3, 0.3, 0.3], [0.1, 0.2, 0.3], 0.0),
];
const BIAS: [[f64; 6]; 3] = [[0.0; 6], [0.1, -0.2, 0.05, 0.3, 0.5, -0.4], [-0.5, 0.4, 0.6, -1.0, 2.0, 0.7]];
const GRAV: [[f64; 3]; 4] = [[0.0, 0.0, 9.81], [0.0, 0.0, -9.81], [0.0; 3], [1.0, -3.0, 5.0]];

fn spd(seed: usize, scale: f64, full: bool) -> Mat {
    let mut l = Mat::zeros(3, 3);
    for i in 0..3 {
        l.set(i, i, (1.0 + 0.3 * ((seed + i) % 4) as f64) * scale.sqrt());
        for j in 0..i {
            if full {
                l.set(i, j, 0.25 * (((seed * 2 + i + 3 * j) % 5) as f64 - 2.0) * scale.sqrt());
            }
        }
    }
    l.mul(&l.t())
}
/// covariances in the order: gyro, accel, gyro bias, accel bias, integration, initial gyro, initial accel
fn covs(kind: usize) -> Vec<Mat> {
    match kind {
        // the documented default magnitudes
        0 => [1e-5, 1e-5, 1e-6, 1e-6, 1e-7, 1e-7, 1e-7].iter().map(|&x| Mat::eye(3).scale(x)).collect(),
        // all of order one, all different, all correlated
        1 => (0..7).map(|i| spd(i, 0.5 + 0.4 * i as f64, true)).collect(),
        // one dominates at a time
        k => (0..7).map(|i| spd(i + k, if i == k - 2 { 50.0 } else { 0.3 }, i % 2 == 0)).collect(),
    }
}
const NCOV: usize = 9;
fn m3(m: &Mat) -> Matrix3 {
    Matrix3::from_fn(|i, j| m.at(i, j))
}
fn params(kind: usize) -> ImuCovariance {
    let c = covs(kind);
    let mut p = ImuCovariance::default();
    if kind > 0 {
        p.cov_gyro = m3(&c[0]);
        p.cov_accel = m3(&c[1]);
        p.cov_gyro_bias = m3(&c[2]);
        p.cov_accel_bias = m3(&c[3]);
        p.cov_integration = m3(&c[4]);
        p.cov_winit = m3(&c[5]);
        p.cov_ainit = m3(&c[6]);
    }
    p
}

fn v3(v: &[f64]) -> Vec<f64> {
    v[0..3].to_vec()
}
fn vadd(a: &[f64], b: &[f64], k: f64) -> Vec<f64> {
    a.iter().zip(b).map(|(x, y)| x + k * y).collect()
}
/// derivative of the exponential: exp(th + d) ~ exp(th) exp(H d)
fn jr(th: &[f64]) -> Mat {
    let h = hat3(th).scale(-1.0);
    let mut term = Mat::eye(3);
    let mut sum = Mat::eye(3);
    for k in 1..60 {
        term = term.mul(&h).scale(1.0 / (k as f64 + 1.0));
        sum = sum.add(&term);
    }
    sum
}
#[derive(Clone)]
struct Pre {
    dt: f64,
    th: Vec<f64>,
    v: Vec<f64>,
    p: Vec<f64>,
    hb: Mat, // 9x6: d(th,v,p)/d(gyro bias, accel bias)
    cov: Mat,
}
impl Pre {
    fn new() -> Pre {
        Pre { dt: 0.0, th: vec![0.0; 3], v: vec![0.0; 3], p: vec![0.0; 3], hb: Mat::zeros(9, 6), cov: Mat::eye(15).scale(1e-14) }
    }
    fn add(&mut self, s: &Sample, bias: &[f64; 6], q: &[Mat]) {
        let dt = s.dt;
        let w = vadd(&s.w, &bias[0..3], -1.0);
        let a = vadd(&s.a, &bias[3..6], -1.0);
        let r = hat3(&self.th).expm();
        let h = jr(&self.th);
        let hi = h.inv().expect("H singular");
        let mut am = Mat::eye(15);
        am.put(0, 0, &Mat::eye(3).sub(&hat3(&w).scale(dt / 2.0)));
        let rah = r.mul(&hat3(&a)).mul(&h);
        am.put(3, 0, &rah.scale(-dt));
        am.put(6, 0, &rah.scale(-dt * dt / 2.0));
        am.put(6, 3, &Mat::eye(3).scale(dt));
        am.put(0, 9, &hi.scale(-dt));
        am.put(3, 12, &r.scale(-dt));
        am.put(6, 12, &r.scale(-dt * dt / 2.0));
        // noise enters: gyro, accel, gyro bias, accel bias, integration, initial gyro bias, initial accel bias
        let mut b = Mat::zeros(15, 21);
        b.put(0, 0, &hi.scale(dt));
        b.put(3, 3, &r.scale(dt));
        b.put(6, 3, &r.scale(dt * dt / 2.0));
        b.put(9, 6, &Mat::eye(3));
        b.put(12, 9, &Mat::eye(3));
        b.put(6, 12, &Mat::eye(3));
        b.put(0, 15, &hi.scale(-dt));
        b.put(3, 18, &r.scale(-dt));
        b.put(6, 18, &r.scale(-dt * dt / 2.0));
        let mut qq = Mat::zeros(21, 21);
        for (i, m) in q.iter().enumerate() {
            qq.put(3 * i, 3 * i, m);
        }
        self.cov = am.mul(&self.cov).mul(&am.t()).add(&b.mul(&qq).mul(&b.t()));
        self.hb = am.block(0, 0, 9, 9).mul(&self.hb).add(&am.block(0, 9, 9, 6));
        let ra = r.mulv(&a);
        self.p = vadd(&vadd(&self.p, &self.v, dt), &ra, dt * dt / 2.0);
        self.v = vadd(&self.v, &ra, dt);
        self.th = vadd(&self.th, &hi.mulv(&w), dt);
        self.dt += dt;
    }
}
#[derive(Clone)]
struct St {
    x: Mat, // 4x4
    v: Vec<f64>,
    b: Vec<f64>,
}
impl St {
    fn r(&self) -> Mat {
        self.x.block(0, 0, 3, 3)
    }
    fn p(&self) -> Vec<f64> {
        (0..3).map(|i| self.x.at(i, 3)).collect()
    }
    fn of(r: &Mat, p: &[f64], v: &[f64], b: &[f64]) -> St {
        let mut x = Mat::eye(4);
        x.put(0, 0, r);
        for i in 0..3 {
            x.set(i, 3, p[i]);
        }
        St { x, v: v.to_vec(), b: b.to_vec() }
    }
    fn moved(&self, d: &[f64]) -> St {
        St { x: oplus_r::<SE3>(&self.x, &d[0..6]), v: vadd(&self.v, &d[6..9], 1.0), b: vadd(&self.b, &d[9..15], 1.0) }
    }
}
fn predict(pre: &Pre, g: &[f64; 3], bias0: &[f64; 6], x: &St) -> St {
    let db = vadd(&x.b, bias0, -1.0);
    let c = pre.hb.mulv(&db);
    let th = vadd(&pre.th, &c[0..3], 1.0);
    let v = vadd(&pre.v, &c[3..6], 1.0);
    let p = vadd(&pre.p, &c[6..9], 1.0);
    let r = x.r();
    St::of(
        &r.mul(&hat3(&th).expm()),
        &vadd(&vadd(&vadd(&x.p(), &x.v, pre.dt), g, pre.dt * pre.dt / 2.0), &r.mulv(&p), 1.0),
        &vadd(&vadd(&x.v, g, pre.dt), &r.mulv(&v), 1.0),
        &x.b,
    )
}
fn resid(m: &St, e: &St) -> Vec<f64> {
    let mut r = log_so3(&e.r().t().mul(&m.r()));
    r.extend(vadd(&m.v, &e.v, -1.0));
    r.extend(vadd(&m.p(), &e.p(), -1.0));
    r.extend(vadd(&m.b, &e.b, -1.0));
    r
}
fn put(v: &mut Values, i: u64, s: &St) {
    v.insert(Px(i), SE3::of(&s.x));
    v.insert(Vx(i), VectorVar3::new(s.v[0], s.v[1], s.v[2]));
    v.insert(Bx(i), ImuBias::new(Gyro::new(s.b[0], s.b[1], s.b[2]), Accel::new(s.b[3], s.b[4], s.b[5])));
}
fn start(k: usize) -> St {
    let (w, p, v): ([f64; 3], [f64; 3], [f64; 3]) = match k {
        0 => ([0.0; 3], [0.0; 3], [0.0; 3]),
        1 => ([0.4, -0.8, 1.2], [1.0, -2.0, 3.0], [0.5, 2.0, -1.0]),
        _ => ([-2.0, 1.5, 0.3], [-10.0, 4.0, 0.5], [-3.0, 0.0, 7.0]),
    };
    St::of(&hat3(&w).expm(), &p, &v, &[0.0; 6])
}
/// errors of the end state, and of the bias against the integration's bias
const OFF: [[f64; 15]; 3] = [
    [0.0; 15],
    [0.1, -0.2, 0.3, 0.5, -0.4, 0.2, -0.3, 0.1, 0.6, 0.02, -0.03, 0.01, 0.1, 0.2, -0.1],
    [-1.0, 0.5, 0.7, -2.0, 1.0, 3.0, 1.5, -2.5, 0.5, -0.2, 0.3, 0.1, -0.4, 0.5, 0.6],
];
const DB: [[f64; 6]; 3] = [[0.0; 6], [0.01, 0.02, -0.03, 0.1, -0.05, 0.2], [-0.2, 0.1, 0.15, 0.5, 0.4, -0.3]];

struct Setup {
    h: Vec<Sample>,
    bias: usize,
    grav: usize,
    cov: usize,
    unchecked: bool,
}
fn gravity(i: usize) -> Gravity {
    match i {
        0 => Gravity::up(),
        1 => Gravity::down(),
        _ => Gravity(Vector3::new(GRAV[i][0], GRAV[i][1], GRAV[i][2])),
    }
}
fn bias_of(b: &[f64]) -> ImuBias {
    ImuBias::new(Gyro::new(b[0], b[1], b[2]), Accel::new(b[3], b[4], b[5]))
}
fn build(su: &Setup) -> (Factor, Pre) {
    let b = &BIAS[su.bias];
    let mut im = ImuPreintegrator::new(params(su.cov), bias_of(b), gravity(su.grav));
    let mut pre = Pre::new();
    let q = covs(su.cov);
    for s in &su.h {
        im.integrate(&Gyro::new(s.w[0], s.w[1], s.w[2]), &Accel::new(s.a[0], s.a[1], s.a[2]), s.dt);
        pre.add(s, b, &q);
    }
    let f = if su.unchecked { im.build_unchecked(Px(4), Vx(4), Bx(4), Px(9), Vx(9), Bx(9)) } else { im.build(Px(4), Vx(4), Bx(4), Px(9), Vx(9), Bx(9)) };
    (f, pre)
}
/// one factor at one pair of states
fn at_point(t: &mut Tally, su: &Setup, f: &Factor, pre: &Pre, st: usize, db: usize, off: usize, full: bool) -> CaseResult {
    let what = format!("start #{st} bias change #{db} end offset #{off}");
    let g = &GRAV[su.grav];
    let b0 = &BIAS[su.bias];
    let mut x1 = start(st);
    x1.b = vadd(b0, &DB[db], 1.0);
    let m = predict(pre, g, b0, &x1);
    let x2 = m.moved(&OFF[off]);
    let mut v = Values::new();
    put(&mut v, 4, &x1);
    put(&mut v, 9, &x2);
    let r = resid(&m, &x2);
    let cov = &pre.cov;
    // scale out the units of the covariance before inverting
    let d: Vec<f64> = (0..15).map(|i| cov.at(i, i).sqrt()).collect();
    let mut corr = cov.clone();
    for i in 0..15 {
        for j in 0..15 {
            corr.set(i, j, cov.at(i, j) / d[i] / d[j]);
        }
    }
    let ci = corr.inv().ok_or("harness: singular covariance")?;
    let mahal = |a: &[f64], b: &[f64]| -> f64 {
        let (x, y): (Vec<f64>, Vec<f64>) = (0..15).map(|i| (a[i] / d[i], b[i] / d[i])).unzip();
        ci.mulv(&y).iter().zip(&x).map(|(p, q)| p * q).sum()
    };
    // default covariances are badly scaled; rounding and the small-angle series are amplified
    let tol = if su.cov == 0 { 3e-4 } else { 2e-6 };
    let e = f.error(&v);
    t.step(1);
    if off == 0 {
        // rounding of a zero residual under the smallest standard deviation
        let s = d.iter().cloned().fold(f64::INFINITY, f64::min);
        ensure!(e.abs() <= 0.5 * 15.0 * (1e-6 / s.min(1.0)).powi(2).max(1e-9), "{what}: cost {e:e} at the predicted state");
    }
    if su.h.is_empty() {
        return Ok(());
    }
    if off > 0 {
        let want = 0.5 * mahal(&r, &r);
        ensure!((e - want).abs() <= tol * want.max(1.0), "{what}: cost {e}, the motion model and covariance give {want}");
    }
    if !full {
        return Ok(());
    }
    // Gram matrix of the linearised system [A b]
    let lf = f.linearize(&v);
    let a = nm(&lf.a.mat());
    ensure!(a.r == 15 && a.c == 30 && lf.b.len() == 15, "{what}: linearised factor is {}x{}", a.r, a.c);
    let mut ab = Mat::zeros(15, 31);
    ab.put(0, 0, &a);
    for i in 0..15 {
        ab.set(i, 30, lf.b[i]);
    }
    let got = ab.t().mul(&ab);
    // columns of the reference: derivative of the reference residual (keys: pose, velocity, bias; pose, velocity, bias)
    let j = fd_jac(30, 1e-3, |z| resid(&predict(pre, g, b0, &x1.moved(&z[0..15])), &x2.moved(&z[15..30])));
    let cols: Vec<Vec<f64>> = (0..31).map(|k| (0..15).map(|i| if k < 30 { j.at(i, k) } else { -r[i] }).collect()).collect();
    let diag: Vec<f64> = cols.iter().map(|c| mahal(c, c).max(1e-12).sqrt()).collect();
    for p in 0..31 {
        for q in 0..=p {
            let want = mahal(&cols[p], &cols[q]);
            let e = (got.at(p, q) - want).abs();
            let sc = diag[p] * diag[q] + if p == 30 || q == 30 { 1e-3 * diag[p.min(q)] } else { 0.0 };
            if off == 0 && (p == 30) {
                continue;
            }
            ensure!(e <= 10.0 * tol * sc.max(1e-6), "{what}: linearised system: entry ({p},{q}) of [A b]'[A b] is {}, expected {want}", got.at(p, q));
        }
    }
    t.step(1);
    Ok(())
}
fn history(t: &mut Tally, su: &Setup, pts: &[(usize, usize, usize, bool)]) -> CaseResult {
    let (f, pre) = build(su);
    ensure!(norm(&pre.th) < 5.9, "harness: rotation too long");
    for &(st, db, off, full) in pts {
        at_point(t, su, &f, &pre, st, db, off, full)?;
    }
    t.step(su.h.len() as u64);
    t.state(&(pre.th.iter().chain(&pre.v).chain(&pre.p).map(|x| x.to_bits()).collect::<Vec<_>>(), su.bias, su.grav, su.cov));
    Ok(())
}
/// one history of any size: the cost at the predicted end state and at an offset from it, relative to their own size
fn cost_at(t: &mut Tally, h: &[Sample], b0: &[f64; 6], g: &[f64; 3], q: &[Mat], x1: &St, offs: &[[f64; 15]]) -> CaseResult {
    let mut par = ImuCovariance::default();
    par.cov_gyro = m3(&q[0]);
    par.cov_accel = m3(&q[1]);
    par.cov_gyro_bias = m3(&q[2]);
    par.cov_accel_bias = m3(&q[3]);
    par.cov_integration = m3(&q[4]);
    par.cov_winit = m3(&q[5]);
    par.cov_ainit = m3(&q[6]);
    let mut im = ImuPreintegrator::new(par, bias_of(b0), Gravity(Vector3::new(g[0], g[1], g[2])));
    let mut pre = Pre::new();
    for s in h {
        im.integrate(&Gyro::new(s.w[0], s.w[1], s.w[2]), &Accel::new(s.a[0], s.a[1], s.a[2]), s.dt);
        pre.add(s, b0, q);
    }
    let f = im.build(Px(4), Vx(4), Bx(4), Px(9), Vx(9), Bx(9));
    let m = predict(&pre, g, b0, x1);
    let d: Vec<f64> = (0..15).map(|i| pre.cov.at(i, i).sqrt()).collect();
    let mut corr = pre.cov.clone();
    for i in 0..15 {
        for j in 0..15 {
            corr.set(i, j, pre.cov.at(i, j) / d[i] / d[j]);
        }
    }
    let ci = corr.inv().ok_or("harness: singular covariance")?;
    // rounding of the states themselves
    let big = 1.0 + norm(&m.p()) + norm(&m.v) + norm(&x1.p()) + norm(&x1.v) * (1.0 + pre.dt) + norm(g) * pre.dt * (1.0 + pre.dt) + norm(&pre.p) + norm(&pre.v);
    let dev = |r: f64| -> Vec<f64> { (0..15).map(|i| r * if (3..9).contains(&i) { big } else { 1.0 } / d[i]).collect() };
    let amp = norm(&dev(1e-14)) * ci.maxabs().sqrt() * 4.0;
    for o in offs {
        let x2 = m.moved(o);
        let mut v = Values::new();
        put(&mut v, 4, x1);
        put(&mut v, 9, &x2);
        let r = resid(&m, &x2);
        let y: Vec<f64> = (0..15).map(|i| r[i] / d[i]).collect();
        let want = 0.5 * ci.mulv(&y).iter().zip(&y).map(|(a, b)| a * b).sum::<f64>();
        let got = f.error(&v);
        // compare whitened lengths; the recursion's small-angle series is good to its third power
        let (a, b) = (want.max(0.0).sqrt(), got.sqrt());
        let series = norm(&dev(0.1 * norm(&pre.th).min(4e-3).powi(3))) * ci.maxabs().sqrt();
        ensure!((a - b).abs() <= 3e-6 * a + amp + series, "offset {o:?}: whitened length {b:e}, the motion model and covariance give {a:e} (rounding {amp:e} {series:e})");
        t.step(1);
    }
    t.step(h.len() as u64);
    Ok(())
}
/// every order of magnitude of each input
fn sizes(c: &mut Ctx) {
    let q1: Vec<Mat> = covs(1);
    let base = ALPHA[0];
    let unit = |k: usize, x: f64| -> [f64; 15] { let mut o = [0.0; 15]; o[k] = x; o };
    let us: Vec<[f64; 15]> = std::iter::once([0.0; 15]).chain((0..15).map(|k| unit(k, 0.5))).collect();
    let at = |k: usize, b: &[f64]| { let mut x = start(k); x.b = b.to_vec(); x };
    let scale = |v: [f64; 3], s: f64| -> [f64; 3] { v.map(|x| x * s) };
    let dirs: [[f64; 3]; 4] = [[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0], [0.6, -0.5, 0.62]];
    for e in -9i32..=6 {
        let s = 10f64.powi(e);
        for (di, d) in dirs.iter().enumerate() {
            c.case(format!("magnitude 1e{e} direction {di}"), |t| {
                let b0 = BIAS[1];
                let g = GRAV[di];
                // time steps
                if e <= 0 {
                    let h = [Sample { w: scale(*d, 0.8), a: scale(*d, 5.0), dt: s }];
                    cost_at(t, &h, &b0, &g, &q1, &at(1, &b0), &us).map_err(|m| format!("time step: {m}"))?;
                    cost_at(t, &[base, h[0], base], &b0, &g, &q1, &at(2, &b0), &us).map_err(|m| format!("time step between others: {m}"))?;
                }
                // rates
                if e <= 4 {
                    let dt = (1.5 / s).min(0.2);
                    let h = [Sample { w: scale(*d, s), a: base.a, dt }];
                    cost_at(t, &h, &[0.0; 6], &g, &q1, &at(1, &[0.0; 6]), &us).map_err(|m| format!("rate: {m}"))?;
                    cost_at(t, &[h[0], base], &[0.0; 6], &g, &q1, &at(2, &[0.0; 6]), &us).map_err(|m| format!("rate, then another: {m}"))?;
                }
                // accelerations
                let h = [Sample { w: base.w, a: scale(*d, s), dt: 0.1 }];
                cost_at(t, &h, &[0.0; 6], &g, &q1, &at(1, &[0.0; 6]), &us).map_err(|m| format!("acceleration: {m}"))?;
                cost_at(t, &[base, h[0], h[0]], &[0.0; 6], &g, &q1, &at(0, &[0.0; 6]), &us).map_err(|m| format!("acceleration after another: {m}"))?;
                // biases: the initial one, and a change of it
                if e <= 1 {
                    let mut b = [0.0; 6];
                    for i in 0..3 {
                        b[i] = d[i] * s.min(2.0);
                        b[3 + i] = -d[(i + 1) % 3] * s;
                    }
                    cost_at(t, &[base, ALPHA[7]], &b, &g, &q1, &at(1, &b), &us).map_err(|m| format!("initial bias: {m}"))?;
                }
                if e <= -1 {
                    for k in 0..6 {
                        let mut b = b0;
                        b[k] += s;
                        cost_at(t, &[base, ALPHA[7]], &b0, &g, &q1, &at(2, &b), &us[..3]).map_err(|m| format!("bias change along {k}: {m}"))?;
                        // sharp enough to see the correction itself
                        let fine: Vec<Mat> = q1.iter().map(|m| m.scale(s * s)).collect();
                        cost_at(t, &[base, ALPHA[7]], &b0, &g, &fine, &at(1, &b), &us[..1]).map_err(|m| format!("bias change along {k}, fine: {m}"))?;
                    }
                }
                // states
                let mut x = at(1, &b0);
                x = St::of(&x.r(), &scale(*d, s), &scale([d[1], d[2], d[0]], s), &b0);
                cost_at(t, &[base, ALPHA[5]], &b0, &g, &q1, &x, &us).map_err(|m| format!("start position and velocity: {m}"))?;
                // gravity
                cost_at(t, &[base, ALPHA[5]], &b0, &scale(*d, s), &q1, &at(2, &b0), &us).map_err(|m| format!("gravity: {m}"))?;
                // offsets of the end state, under a covariance of their size
                let fine: Vec<Mat> = q1.iter().map(|m| m.scale((s * s).max(1e-8))).collect();
                let offs: Vec<[f64; 15]> = (0..15).filter(|&k| k >= 3 || e <= 0).flat_map(|k| [unit(k, s), unit(k, -2.3 * s)]).collect();
                cost_at(t, &[base, ALPHA[5]], &b0, &g, &fine, &at(1, &b0), &offs).map_err(|m| format!("end state: {m}"))?;
                cost_at(t, &[base, ALPHA[5]], &b0, &g, &q1, &at(2, &b0), &offs).map_err(|m| format!("end state: {m}"))?;
                t.state(&("sizes", e, di));
                Ok(())
            });
        }
        // covariances: all, and one at a time
        for k in 0..=7 {
            c.case(format!("covariance {k} scaled by 1e{e}"), |t| {
                let q: Vec<Mat> = covs(1).into_iter().enumerate().map(|(i, m)| if k == 7 || i == k { m.scale(s) } else { m }).collect();
                for h in [vec![base], vec![ALPHA[1], base], vec![base, ALPHA[3], ALPHA[7], ALPHA[5]]] {
                    cost_at(t, &h, &BIAS[1], &GRAV[3], &q, &at(1, &BIAS[1]), &us)?;
                }
                t.state(&("covariance sizes", e, k));
                Ok(())
            });
        }
    }
}
pub fn c17(c: &mut Ctx) {
    let th = c.thorough;
    sizes(c);
    let (full_to, max) = if th { (3, 5) } else if LEFT || FAKE { (1, 3) } else { (2, 4) };
    let mut no = 0usize;
    for len in 0..=max {
        for w in tuples(ALPHA.len(), len) {
            let h: Vec<Sample> = w.iter().map(|&i| ALPHA[i]).collect();
            no += 1;
            if len <= full_to {
                // every combination of bias, gravity and covariance; every start, bias change and end offset
                for bias in 0..BIAS.len() {
                    for grav in 0..GRAV.len() {
                        c.case(format!("samples {w:?} bias #{bias} gravity #{grav}"), |t| {
                            for cov in 0..NCOV {
                                let su = Setup { h: h.clone(), bias, grav, cov, unchecked: (cov + bias) % 2 == 1 };
                                let mut pts = vec![];
                                for st in 0..3 {
                                    for db in 0..3 {
                                        for off in 0..3 {
                                            pts.push((st, db, off, (st + db + off + cov) % 9 == 1));
                                        }
                                    }
                                }
                                history(t, &su, &pts).map_err(|e| format!("covariances #{cov}: {e}"))?;
                            }
                            Ok(())
                        });
                    }
                }
            } else {
                c.case(format!("samples {w:?}"), |t| {
                    for k in 0..3 {
                        let su = Setup { h: h.clone(), bias: (no + k) % 3, grav: (no / 3 + k) % 4, cov: 1 + (no / 2 + 3 * k) % 8, unchecked: k == 1 };
                        history(t, &su, &[(k, (no / 5 + k) % 3, 1 + k % 2, k == 0), ((k + 1) % 3, (no / 7) % 3, 0, false), (2, k, 2, false)]).map_err(|e| format!("variant {k}: {e}"))?;
                    }
                    Ok(())
                });
            }
        }
    }
    // unusual samples: alone, and before, after and between usual ones
    for (i, &o) in ODD.iter().enumerate() {
        let mut hs: Vec<(String, Vec<Sample>)> = vec![(format!("odd {i}"), vec![o]), (format!("odd {i} {i}"), vec![o, o])];
        for (j, &q) in ODD.iter().enumerate() {
            hs.push((format!("odd {i} odd {j}"), vec![o, q]));
        }
        for (j, &q) in ALPHA.iter().enumerate() {
            hs.push((format!("odd {i} then {j}"), vec![o, q]));
            hs.push((format!("{j} then odd {i}"), vec![q, o]));
            hs.push((format!("{j} then odd {i} then {j}"), vec![q, o, q]));
        }
        for (name, h) in hs {
            for bias in 0..3 {
                c.case(format!("samples {name} bias #{bias}"), |t| {
                    for cov in 1..NCOV {
                        let su = Setup { h: h.clone(), bias, grav: (i + bias) % 4, cov, unchecked: cov % 2 == 0 };
                        history(t, &su, &[(1, 0, 0, false), (2, 1, 1, cov == 1), (1, 2, 1, cov == 3 + bias)]).map_err(|e| format!("covariances #{cov}: {e}"))?;
                    }
                    Ok(())
                });
            }
        }
    }
    // long runs
    for (i, pat) in [vec![0, 1], vec![7], vec![5, 0, 4], vec![3, 6, 7, 7], vec![4], vec![2], vec![2, 7], vec![1, 3]].iter().enumerate() {
        for n in if th { vec![10usize, 25, 60, 250, 1000] } else { vec![10, 25, 60, 250] } {
            for bias in 0..3 {
                c.case(format!("long run {pat:?} x {n} bias #{bias}"), |t| {
                    let cap = if n > 60 { 2.0 / n as f64 } else { 0.03 };
                    let h: Vec<Sample> = (0..n).map(|k| { let mut s = ALPHA[pat[k % pat.len()]]; s.dt = s.dt.min(cap); s }).collect();
                    for cov in 0..NCOV {
                        let su = Setup { h: h.clone(), bias, grav: (i + n) % 4, cov, unchecked: false };
                        history(t, &su, &[(0, 0, 0, false), (1, 0, 1, cov == 0), (2, 1, 2, cov == 2), (1, 2, 1, cov == 3)]).map_err(|e| format!("covariances #{cov}: {e}"))?;
                    }
                    Ok(())
                });
            }
        }
    }
    // parameter setters act on their own covariance only
    type Get = fn(&ImuCovariance) -> Vec<Matrix3>;
    let all: Get = |p| vec![p.cov_gyro, p.cov_accel, p.cov_gyro_bias, p.cov_accel_bias, p.cov_integration, p.cov_winit, p.cov_ainit];
    let sets: [(&str, fn(&mut ImuCovariance, f64), &[usize]); 6] = [
        ("set_scalar_gyro", |p, x| p.set_scalar_gyro(x), &[0]),
        ("set_scalar_accel", |p, x| p.set_scalar_accel(x), &[1]),
        ("set_scalar_gyro_bias", |p, x| p.set_scalar_gyro_bias(x), &[2]),
        ("set_scalar_accel_bias", |p, x| p.set_scalar_accel_bias(x), &[3]),
        ("set_scalar_integration", |p, x| p.set_scalar_integration(x), &[4]),
        ("set_scalar_init", |p, x| p.set_scalar_init(x), &[5, 6]),
    ];
    for w in tuples(6, 3) {
        c.case(format!("setters {w:?}"), |t| {
            let mut p = ImuCovariance::default();
            let mut want = all(&p);
            for m in &want {
                ensure!((0..3).all(|i| m[(i, i)] > 0.0), "a default covariance is not positive");
            }
            for (k, &i) in w.iter().enumerate() {
                let x = 0.5 + k as f64;
                (sets[i].1)(&mut p, x);
                for &j in sets[i].2 {
                    want[j] = Matrix3::identity() * x;
                }
                ensure!(all(&p) == want, "{} changed another covariance, or not its own", sets[i].0);
                t.step(1);
            }
            t.state(&("setters", w.clone()));
            Ok(())
        });
    }
}
