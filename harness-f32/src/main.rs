//! Part F32 of C20: the single-precision build option keeps the mathematics, to single precision.
#[path = "../../harness/src/fw.rs"]
#[allow(dead_code)]
mod fw;
#[path = "../../harness/src/refm.rs"]
#[allow(dead_code)]
mod refm;
#[path = "../../harness/src/vars.rs"]
#[allow(dead_code)]
mod vars;
use factrs::containers::{FactorBuilder, Graph, Key, Values};
use factrs::dtype;
use factrs::linear::{CholeskySolver, LUSolver, LinearSolver, QRSolver};
use factrs::noise::{GaussianNoise, NoiseModel};
use factrs::optimizers::{GaussNewton, GraphOptimizer, LevenMarquardt, OptError, OptObserver, Optimizer};
use factrs::residuals::{BetweenResidual, PriorResidual, Residual};
use factrs::robust::{Cauchy, Fair, GemanMcClure, Huber, RobustCost, Tukey, Welsch, L1, L2};
use factrs::symbols::X;
use factrs::variables::*;
use fw::{tuples, CaseResult, Ctx};
use refm::*;
use std::sync::{Arc, Mutex};
use vars::*;

/// single precision, with head room for a handful of operations
const EPS: f64 = 6e-7;
/// rotation magnitudes outside the band in which single precision cannot resolve the maps' coefficients
const MAGS: [f64; 9] = [0.0, 1e-6, 0.3, 0.9, 1.7, 2.4, 3.0, PI - 0.02, 0.6];

fn el<V: RV>(xi: &[f64]) -> (Mat, V) {
    let v = V::of(&V::exp_r(xi));
    // the element actually represented, rounding of the constructor included
    (v.m(), v)
}
fn group<V: RV>(c: &mut Ctx) {
    let l: Vec<Vec<f64>> = lattice::<V>(&MAGS, c.thorough);
    let g = gens::<V>();
    for a in &l {
        c.case(format!("{} element {a:?}", V::NAME), |t| {
            let (am, x) = el::<V>(a);
            let s = 1.0 + am.maxabs();
            ensure!(x.defect() < 1e-6, "constructor leaves the group");
            ensure!(close(&x.m(), &V::exp_r(a), EPS * s), "constructor");
            // maps
            let e = V::exp(dv(a).as_view());
            ensure!(close(&e.m(), &V::exp_r(a), 20.0 * EPS * s), "exp is {:?}, matrix exponential {:?}", e.m(), V::exp_r(a));
            let lg = sv(&x.log());
            let tol = 1e-4 * s;
            ensure!(vclose(&lg, &V::log_r(&am), tol), "log is {lg:?}, minimal logarithm {:?}", V::log_r(&am));
            ensure!(close(&V::exp(dv(&lg).as_view()).m(), &am, tol), "exp(log x) is not x");
            // group
            let i = x.inverse();
            ensure!(close(&i.m(), &am.inv().unwrap(), 4.0 * EPS * s), "inverse");
            ensure!(close(&i.compose(&x).m(), &Mat::eye(am.r), 8.0 * EPS * s), "x^-1 x");
            ensure!(close(&x.compose(&V::identity()).m(), &am, EPS * s), "x 1");
            for b in &g {
                let (bm, y) = el::<V>(b);
                let s = s * (1.0 + bm.maxabs());
                let p = x.compose(&y);
                ensure!(close(&p.m(), &am.mul(&bm), 8.0 * EPS * s), "product with {b:?}");
                ensure!(p.defect() < 4e-6, "product with {b:?} leaves the group");
                ensure!(close(&y.compose(&x.minus(&y)).m(), &am, 20.0 * EPS * s), "y (x minus y) is not x for {b:?}");
                // plus and minus
                let d: Vec<f64> = b.iter().map(|v| v * 0.4).collect();
                let q = x.oplus(dv(&d).as_view());
                ensure!(close(&q.m(), &oplus_r::<V>(&am, &d), 20.0 * EPS * s), "x plus {d:?}");
                let back = sv(&q.ominus(&x));
                ensure!(vclose(&back, &d, 1e-4 * s), "(x plus d) minus x is {back:?} instead of {d:?}");
                t.step(4);
            }
            t.step(5);
            t.state(&format!("{}{a:?}", V::NAME));
            Ok(())
        });
    }
    for w in tuples(g.len(), 4) {
        c.case(format!("{} chain {w:?}", V::NAME), |t| {
            let (mut m, mut x) = (Mat::eye(V::identity().m().r), V::identity());
            for &k in &w {
                let (gm, y) = el::<V>(&g[k]);
                m = m.mul(&gm);
                x = x.compose(&y);
                t.step(1);
                t.state(&format!("{}{:?}", V::NAME, x.m().d.iter().map(|v| (v * 1e3).round() as i64).collect::<Vec<_>>()));
            }
            let s = 1.0 + m.maxabs();
            ensure!(close(&x.m(), &m, 60.0 * EPS * s), "product of the chain is {:?}, matrices give {m:?}", x.m());
            let lg = sv(&x.log());
            ensure!(norm(&lg[..V::ROT]) <= PI + 1e-5, "logarithm longer than half a turn");
            ensure!(close(&V::exp(dv(&lg).as_view()).m(), &x.m(), 2e-4 * s), "exp(log x) is not x");
            Ok(())
        });
    }
}
fn resid<V: RV>(c: &mut Ctx)
where
    PriorResidual<V>: Residual,
    BetweenResidual<V>: Residual,
{
    let n = V::N;
    let g: Vec<Vec<f64>> = gens::<V>().into_iter().filter(|g| { let a = norm(&g[..V::ROT]); a == 0.0 || a > 0.2 && a < 3.0 }).collect();
    for w in tuples(g.len(), 3) {
        c.case(format!("{} residuals {w:?}", V::NAME), |t| {
            let (am, a) = el::<V>(&g[w[0]]);
            let (bm, b) = el::<V>(&g[w[1]]);
            let (zm, z) = el::<V>(&g[w[2]]);
            let s = (1.0 + am.maxabs()) * (1.0 + zm.maxabs()) + bm.maxabs();
            let mut v = Values::new();
            v.insert_unchecked(X(0), a);
            v.insert_unchecked(X(1), b);
            let keys: Vec<Key> = vec![X(0).into(), X(1).into()];
            let judge = |what: &str, r: &dyn Residual, k: &[Key], want: Vec<f64>, f: &dyn Fn(&[f64]) -> Vec<f64>| -> CaseResult {
                let got = sv(&r.residual(&v, k));
                let rot = norm(&want[..V::ROT]);
                if rot > 3.0 {
                    return Ok(());
                }
                ensure!(vclose(&got, &want, 3e-5 * s), "{what} is {got:?} instead of {want:?}");
                if V::ROT == 0 || rot > 0.2 && rot < 2.9 {
                    let j = fd_jac(n * k.len(), 1e-3, f);
                    let d = r.residual_jacobian(&v, k);
                    ensure!(vclose(&sv(&d.value), &want, 3e-5 * s), "{what}: value next to the Jacobian");
                    let gj = nm(&d.diff);
                    ensure!(close(&gj, &j, 3e-4 * s * (1.0 + j.maxabs())), "{what}: Jacobian {gj:?}, true derivative {j:?}");
                }
                Ok(())
            };
            judge("prior", &PriorResidual::new(z.clone()), &keys[..1], ominus_r::<V>(&zm, &am), &|d| ominus_r::<V>(&zm, &oplus_r::<V>(&am, d)))?;
            judge("relative", &BetweenResidual::new(z), &keys, ominus_r::<V>(&am.mul(&zm), &bm), &|d| ominus_r::<V>(&oplus_r::<V>(&am, &d[..n]).mul(&zm), &oplus_r::<V>(&bm, &d[n..])))?;
            t.step(2);
            t.state(&(V::NAME, w.clone()));
            Ok(())
        });
    }
}
struct Last(Arc<Mutex<Option<Values>>>);
impl OptObserver for Last {
    type Input = Values;
    fn on_step(&self, v: &Values, _: f64) {
        *self.0.lock().unwrap() = Some(v.clone());
    }
}
macro_rules! solve {
    ($t:ident, $g:ident, $v:ident, $opt:ty, $chk:expr) => {{
        let mut o: $opt = <$opt>::new($g());
        let last = Arc::new(Mutex::new(None));
        o.observers.add(Last(last.clone()));
        let r = match o.optimize($v.clone()) {
            Ok(r) => r,
            // at the limits of single precision no trial lowers the cost any more, or the decrease never stops
            Err(OptError::MaxIterations(r)) => r,
            Err(OptError::FailedToStep) => last.lock().unwrap().take().ok_or(concat!(stringify!($opt), " failed at once"))?,
            Err(_) => return Err(concat!(stringify!($opt), " failed").into()),
        };
        $t.step(1);
        $chk(stringify!($opt), r)?;
    }};
}
fn graphs<V: RV>(c: &mut Ctx)
where
    PriorResidual<V>: Residual + factrs::residuals::Residual1,
    BetweenResidual<V>: Residual,
    Builder<V>: Mk<V>,
{
    let g: Vec<Vec<f64>> = gens::<V>().into_iter().map(|g| g.iter().map(|x| x.clamp(-2.0, 2.0)).collect()).collect();
    for n in 1..=5u64 {
        for closing in 0..3u64 {
            for k in 0..if c.thorough { 12 } else { 4 } {
                c.case(format!("{} chain of {n}, {closing} loop closures, poses #{k}", V::NAME), |t| {
                    let truth: Vec<Mat> = (0..n as usize).scan(Mat::eye(V::identity().m().r), |m, i| { *m = m.mul(&V::exp_r(&g[(i * 2 + k) % g.len()])); Some(m.clone()) }).collect();
                    let rel = |a: usize, b: usize| V::of(&truth[a].inv().unwrap().mul(&truth[b]));
                    let graph = || {
                        let mut gr = Graph::new();
                        gr.add_factor(Builder::<V>::prior(V::of(&truth[0]), X(0).into()));
                        for i in 1..n {
                            gr.add_factor(Builder::<V>::between(rel(i as usize - 1, i as usize), X(i - 1).into(), X(i).into()));
                        }
                        for q in 0..closing.min(n - 1) {
                            gr.add_factor(Builder::<V>::between(rel(n as usize - 1, q as usize), X(n - 1).into(), X(q).into()));
                        }
                        gr
                    };
                    let mut v = Values::new();
                    for i in 0..n as usize {
                        let d: Vec<f64> = (0..V::N).map(|j| 0.05 * ([1.0, -0.5, 0.7, -1.0, 0.4, 0.2, 0.3, -0.2, 0.1][(i + j) % 9])).collect();
                        v.insert_unchecked(X(i as u64), V::of(&oplus_r::<V>(&truth[i], &d)));
                    }
                    let chk = |what: &str, r: Values| -> CaseResult {
                        ensure!(r.len() == n as usize, "{what}: {} variables", r.len());
                        for i in 0..n as usize {
                            let x: &V = r.get_unchecked(X(i as u64)).ok_or("a variable is missing")?;
                            let s = 1.0 + truth.iter().map(|m| m.maxabs()).fold(0.0, f64::max);
                            ensure!(close(&x.m(), &truth[i], 1e-3 * s), "{what}: variable {i} is {:?}, the true one {:?}", x.m(), truth[i]);
                        }
                        Ok(())
                    };
                    solve!(t, graph, v, GaussNewton<CholeskySolver>, chk);
                    solve!(t, graph, v, GaussNewton<QRSolver>, chk);
                    solve!(t, graph, v, GaussNewton<LUSolver>, chk);
                    solve!(t, graph, v, LevenMarquardt<CholeskySolver>, chk);
                    t.state(&(V::NAME, n, closing, k));
                    Ok(())
                });
            }
        }
    }
}
struct Builder<V>(std::marker::PhantomData<V>);
trait Mk<V> {
    fn prior(z: V, k: Key) -> factrs::containers::Factor;
    fn between(z: V, a: Key, b: Key) -> factrs::containers::Factor;
}
macro_rules! mk {
    ($($v:ty, $n:literal);*) => {$(
        impl Mk<$v> for Builder<$v> {
            fn prior(z: $v, k: Key) -> factrs::containers::Factor { FactorBuilder::new1_unchecked(PriorResidual::new(z), k).noise(GaussianNoise::<$n>::from_scalar_sigma(0.5)).build() }
            fn between(z: $v, a: Key, b: Key) -> factrs::containers::Factor { FactorBuilder::new2_unchecked(BetweenResidual::new(z), a, b).noise(GaussianNoise::<$n>::from_scalar_cov(0.5)).robust(L2).build() }
        }
    )*};
}
mk!(SO2, 1; SE2, 3; SO3, 3; SE3, 6; VectorVar1, 1; VectorVar3, 3);
fn noise_kernels(c: &mut Ctx) {
    const C: [f64; 5] = [1.0, 0.25, 4.0, 1e-3, 50.0];
    for w in tuples(5, 3) {
        c.case(format!("diagonal covariance {w:?}"), |t| {
            let d: Vec<f64> = w.iter().map(|&i| C[i]).collect();
            let m = GaussianNoise::<3>::from_diag_covs(d[0] as dtype, d[1] as dtype, d[2] as dtype);
            let s = GaussianNoise::<3>::from_diag_sigmas(d[0].sqrt() as dtype, d[1].sqrt() as dtype, d[2].sqrt() as dtype);
            for p in tuples(3, 3) {
                let v: Vec<f64> = p.iter().map(|&i| [0.0, 1.5, -2.0][i]).collect();
                let want: f64 = v.iter().zip(&d).map(|(x, c)| x * x / c).sum();
                for m in [&m, &s] {
                    let got = m.whiten_vec(dv(&v)).norm_squared() as f64;
                    ensure!((got - want).abs() <= 1e-5 * (1e-6 + want), "whitening {v:?} gives {got}, Mahalanobis distance {want}");
                    t.step(1);
                }
            }
            t.state(&w);
            Ok(())
        });
    }
    for i in 0..60 {
        let d = if i == 0 { 0.0 } else { 0.05 * 1.15f64.powi(i) };
        c.case(format!("kernels at norm {d}"), |t| {
            let (d2, f) = ((d * d) as dtype, d * d);
            let want: Vec<(&str, Box<dyn RobustCost>, f64, f64)> = vec![
                ("L2", Box::new(L2), f / 2.0, 1.0),
                ("L1", Box::new(L1), d, if f <= 1.1e-3 { -1.0 } else { 1.0 / d }),
                ("Huber", Box::new(Huber::new(1.5)), if d <= 1.5 { f / 2.0 } else { 1.5 * (d - 0.75) }, if d <= 1.5 { 1.0 } else { 1.5 / d }),
                ("Fair", Box::new(Fair::new(1.5)), 2.25 * (d / 1.5 - (1.0 + d / 1.5).ln()), 1.0 / (1.0 + d / 1.5)),
                ("Cauchy", Box::new(Cauchy::new(1.5)), 1.125 * (1.0 + f / 2.25).ln(), 1.0 / (1.0 + f / 2.25)),
                ("GemanMcClure", Box::new(GemanMcClure::new(1.5)), 0.5 * 2.25 * f / (2.25 + f), (2.25 / (2.25 + f)).powi(2)),
                ("Welsch", Box::new(Welsch::new(1.5)), 1.125 * (1.0 - (-f / 2.25).exp()), (-f / 2.25).exp()),
                ("Tukey", Box::new(Tukey::new(1.5)), if d <= 1.5 { 0.375 * (1.0 - (1.0 - f / 2.25).powi(3)) } else { 0.375 }, if d <= 1.5 { (1.0 - f / 2.25).powi(2) } else { 0.0 }),
            ];
            for (n, k, l, w) in want {
                let (gl, gw) = (k.loss(d2) as f64, k.weight(d2) as f64);
                ensure!((gl - l).abs() <= 1e-6 * (1.0 + l), "{n}: cost {gl} instead of {l}");
                ensure!(w < 0.0 || (gw - w).abs() <= 2e-6 * (1.0 + w), "{n}: weight {gw} instead of {w}");
                t.step(2);
            }
            t.state(&i);
            Ok(())
        });
    }
}
fn solvers(c: &mut Ctx) {
    use faer::sparse::SparseColMat;
    for w in tuples(3, 6) {
        c.case(format!("systems {w:?}"), |t| {
            // 4 x 3, columns scaled so that they are independent
            let al = [0.0, 1.0, -0.5];
            let mut a = Mat::zeros(4, 3);
            for j in 0..3 {
                a.set(j, j, 2.0 + j as f64);
            }
            for (k, &(i, j)) in [(0, 1), (1, 0), (2, 0), (3, 0), (3, 1), (3, 2)].iter().enumerate() {
                a.set(i, j, al[w[k]]);
            }
            let b = Mat::col(&[1.0, -2.0, 0.5, 3.0]);
            let ata = a.t().mul(&a);
            let want = ata.solve(&a.t().mul(&b)).ok_or("harness: singular")?;
            let sp = |m: &Mat| {
                let mut tr = vec![];
                for i in 0..m.r {
                    for j in 0..m.c {
                        tr.push((i, j, m.at(i, j) as dtype));
                    }
                }
                SparseColMat::<usize, dtype>::try_new_from_triplets(m.r, m.c, &tr).unwrap()
            };
            let fm = |m: &Mat| faer::Mat::<dtype>::from_fn(m.r, m.c, |i, j| m.at(i, j) as dtype);
            fn go<S: LinearSolver>(n: &str, a: &SparseColMat<usize, dtype>, b: &faer::Mat<dtype>, s: &SparseColMat<usize, dtype>, sb: &faer::Mat<dtype>, want: &Mat) -> CaseResult {
                let x = S::default().solve_lst_sq(a.as_ref(), b.as_ref());
                let y = S::default().solve_symmetric(s.as_ref(), sb.as_ref());
                for i in 0..want.r {
                    ensure!((x.read(i, 0) as f64 - want.at(i, 0)).abs() < 2e-4, "{n}: least squares entry {i} is {} instead of {}", x.read(i, 0), want.at(i, 0));
                    ensure!((y.read(i, 0) as f64 - want.at(i, 0)).abs() < 2e-4, "{n}: symmetric entry {i} is {} instead of {}", y.read(i, 0), want.at(i, 0));
                }
                Ok(())
            }
            let (sa, sb, ss, sv) = (sp(&a), fm(&b), sp(&ata), fm(&a.t().mul(&b)));
            go::<CholeskySolver>("Cholesky", &sa, &sb, &ss, &sv, &want)?;
            go::<QRSolver>("QR", &sa, &sb, &ss, &sv, &want)?;
            go::<LUSolver>("LU", &sa, &sb, &ss, &sv, &want)?;
            t.step(6);
            t.state(&w);
            Ok(())
        });
    }
}
fn f32_part(c: &mut Ctx) {
    macro_rules! each { ($f:ident: $($t:ident),*) => { $( $f::<$t>(c); )* } }
    each!(group: SO2, SE2, SO3, SE3, VectorVar1, VectorVar2, VectorVar3, VectorVar6, ImuBias);
    each!(resid: SO2, SE2, SO3, SE3, VectorVar1, VectorVar2, VectorVar3, VectorVar6, ImuBias);
    each!(graphs: SO2, SE2, SO3, SE3, VectorVar1, VectorVar3);
    noise_kernels(c);
    solvers(c);
}
fn main() {
    fw::install_hash_control();
    fw::install_panic_hook();
    let mut a = std::env::args().skip(1);
    let prop = a.next().expect("usage: mcf F32 [--level 0|1|2] [--replay <case>] [--out file] [--threads n]");
    let mut o = fw::Opts { prop: prop.clone(), thorough: false, deep: false, replay: None, threads: 8, out: "-".into() };
    while let Some(x) = a.next() {
        let v = a.next().expect("missing value");
        match x.as_str() {
            "--level" => o.thorough = v.parse::<u32>().unwrap() >= 1,
            "--replay" => o.replay = Some(v),
            "--out" => o.out = v,
            "--threads" => o.threads = v.parse().unwrap(),
            _ => panic!("unknown option {x}"),
        }
    }
    let r = fw::run(&o, f32_part);
    fw::write_report(&prop, &o.out, o.thorough, &r, "");
    std::process::exit(if r.viols.is_empty() { 0 } else { 1 });
}
