//! C13 optimisers find the optimum.
use crate::ensure;
use crate::fw::*;
use crate::prob::*;
use crate::refm::*;
use crate::vars::*;
use crate::factors::Pick;
use factrs::containers::Values;
use factrs::optimizers::*;
use factrs::variables::*;

/// left updates act in the world frame, where the same offset is a larger disturbance: start closer
const NEAR: f64 = if LEFT || FAKE { 0.1 } else { 1.0 };

fn okmsg(r: OptResult<Values>, what: &str) -> Result<Values, String> {
    match r {
        Ok(v) => Ok(v),
        Err(OptError::MaxIterations(_)) => Err(format!("{what}: iteration limit")),
        Err(OptError::InvalidSystem) => Err(format!("{what}: invalid system")),
        Err(OptError::FailedToStep) => Err(format!("{what}: failed to step")),
    }
}
#[derive(Clone, Copy)]
struct How {
    thorough: bool,
    consistent: bool,
    robust: bool,
    offs: &'static [(usize, f64)],
    all_hash: bool,
    all_fac: bool,
}
/// run one problem under every optimiser x solver and the selected orders, check each result
fn solve_all(t: &mut Tally, p: &Prob, how: How) -> CaseResult {
    let nf = p.facs.len();
    let ident: Vec<usize> = (0..nf).collect();
    let mut forders: Vec<Vec<usize>> = vec![ident.clone()];
    if how.all_fac {
        if nf <= 3 {
            forders = permutations(nf);
        } else {
            forders.push(ident.iter().rev().cloned().collect());
            for s in 1..nf {
                forders.push(ident.iter().map(|i| (i + s) % nf).collect());
            }
        }
    }
    // other build options (C20): one start per problem in the quick tier
    let offs = if NEAR < 1.0 && !how.thorough { &how.offs[..1] } else { how.offs };
    for &(ok, size) in offs {
        let size = size * NEAR;
        let start = p.start(ok, size);
        let mut first: Option<Vec<Mat>> = None;
        for scheme in 0..if how.all_hash { 3 } else { 1 } {
            let keys = p.keys(scheme);
            let vs = if how.all_hash { p.orders(&keys, &start) } else { vec![p.values(&keys, &start, &(0..keys.len()).collect::<Vec<_>>())] };
            t.count("variable orders", vs.len() as u64);
            for (vi, v) in vs.iter().enumerate() {
                for (fi, fo) in forders.iter().enumerate() {
                    if vi > 0 && fi > 0 && (vi + fi) % 3 != 0 {
                        continue;
                    }
                    for kind in 0..3 {
                        for solver in 0..3 {
                          for default in [false, true] {
                            if default && (vi > 0 || fi > 0 || how.robust) {
                                continue;
                            }
                            let mut prm = if default { OptParams::default() } else { tight() };
                            if how.robust {
                                prm.max_iterations = 2000;
                                prm.error_tol_relative = 1e-13;
                                prm.error_tol_absolute = 1e-14;
                            }
                            let what = format!("{} {} start {ok}/{size} keys {scheme} variable order {vi} factor order {fo:?}", OPTS[kind], SOLVERS[solver]);
                            let (r, last) = guarded(|| run_opt(kind, solver, p.graph(&keys, fo), &prm, v.clone())).map_err(|e| format!("{what}: {e}"))?;
                            let r = match (r, last) {
                                // Levenberg-Marquardt cannot lower the cost any more: what it had reached must then be the optimum
                                (Err(OptError::FailedToStep), Some(l)) if kind > 0 => {
                                    t.count("LM ended unable to improve (checked to be at the optimum)", 1);
                                    l
                                }
                                (r, _) => okmsg(r, &what)?,
                            };
                            let ms = p.read(&keys, &r).map_err(|e| format!("{what}: {e}"))?;
                            if first.is_none() || default {
                            let d = p.step(&ms).ok_or("harness: singular reference")?;
                            let m = d.iter().fold(0.0f64, |a, b| a.max(b.abs()));
                            let tol = if how.robust { 2e-4 } else if default { if NEAR < 1.0 { 2e-2 } else { 2e-3 } } else { 1e-5 };
                            ensure!(m <= tol, "{what}: not the minimiser, a reference step still moves by {m:e} (cost {}, reference cost there {})", p.cost(&ms), p.cost(&p.moved(&ms, &d)));
                            }
                            if default {
                                t.step(1);
                                continue;
                            }
                            if how.consistent {
                                let e = p.dist(&ms, &p.truth());
                                ensure!(e <= f64::min(1e-5, size * 1e-2), "{what}: differs from the true state by {e:e}");
                            }
                            match &first {
                                None => first = Some(ms),
                                Some(f) => {
                                    let e = p.dist(&ms, f);
                                    ensure!(e <= if how.robust { 1e-3 } else { 2e-5 }, "{what}: differs from the first configuration's answer by {e:e}");
                                }
                            }
                            t.step(1);
                          }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
fn poses<V: RV + Pick>(c: &mut Ctx, nmax: usize) {
    let th = c.thorough;
    for n in 1..=nmax {
        for (ti, topo) in Topo::all(n).into_iter().enumerate() {
            for (err, dup) in [(0.0, false), (0.04, false), (0.04, true)] {
                for noise in if th && n <= 3 { vec![0, 3, 4, 9] } else { vec![[0, 3, 4][ti % 3], 9] } {
                    c.case(format!("{} {topo:?} inconsistency {err} duplicated {dup} noise {noise}", V::NAME), |t| {
                        let p = pose_prob::<V>(&topo, err * NEAR, noise, 0, dup);
                        t.state(&(V::NAME, n, ti, dup, err.to_bits(), noise));
                        let small = n <= 2 || ti % 7 == 0 || (th && n == 3);
                        solve_all(t, &p, How { thorough: th, consistent: err == 0.0, robust: false, offs: if small || th { &[(0, 0.1), (1, 0.02), (2, 0.25)] } else { &[(0, 0.1)] }, all_hash: !dup && (small || noise == 9) && n <= 4, all_fac: small })
                    });
                }
            }
        }
    }
}
/// two types in one graph, unconnected components
fn mixed<A: RV + Pick, B: RV + Pick>(c: &mut Ctx) {
    let th = c.thorough;
    for ta in Topo::all(2) {
        for tb in Topo::all(if c.thorough { 2 } else { 1 }) {
            c.case(format!("{} {ta:?} with {} {tb:?}", A::NAME, B::NAME), |t| {
                let mut p = pose_prob::<A>(&ta, 0.02 * NEAR, 9, 0, false);
                let q = pose_prob::<B>(&tb, 0.02 * NEAR, 9, 0, false);
                let sh = p.nodes.len();
                for mut f in q.facs {
                    for i in f.nodes.iter_mut() {
                        *i += sh;
                    }
                    p.facs.push(f);
                }
                p.nodes.extend(q.nodes);
                t.state(&(A::NAME, B::NAME, format!("{ta:?}{tb:?}")));
                solve_all(t, &p, How { thorough: th, consistent: false, robust: false, offs: &[(0, 0.1)], all_hash: true, all_fac: false })
            });
        }
    }
}
macro_rules! landmarks {
    ($c:ident, $th:ident, $pose:ident, $pt:ident, $obs:ident, $d:literal) => {
        for np in 1..=2usize {
            for nl in 1..=2usize {
                for mask in 0u32..1 << (np * nl) {
                    for lprior in 0..1u32 << nl {
                        // every landmark is seen or known
                        if !(0..nl).all(|l| (0..np).any(|q| mask >> (q * nl + l) & 1 == 1) || lprior >> l & 1 == 1) {
                            continue;
                        }
                        for err in [0.0, 0.02 * NEAR] {
                            $c.case(format!("{} landmarks poses={np} landmarks={nl} seen={mask:b} known={lprior:b} inconsistency {err}", stringify!($pose)), |t| {
                                let poses: Vec<Mat> = (0..np).map(|i| truth_of::<$pose>(i)).collect();
                                let pts: Vec<Mat> = (0..nl).map(|i| <$pt as RV>::exp_r(&(0..$d).map(|k| 2.0 + i as f64 * 3.0 - k as f64).collect::<Vec<_>>())).collect();
                                let mut facs = vec![prior::<$pose>(0, poses[0].clone(), 3, 0)];
                                if np == 2 {
                                    facs.push(between::<$pose>(0, 1, poses[0].inv().unwrap().mul(&poses[1]).mul(&<$pose as RV>::exp_r(&[err; 6][..<$pose as RV>::N])), 4, 0));
                                }
                                for q in 0..np {
                                    for l in 0..nl {
                                        if mask >> (q * nl + l) & 1 == 1 {
                                            let mut h = <$pt as RV>::log_r(&pts[l]);
                                            h.push(1.0);
                                            let z: Vec<f64> = poses[q].inv().unwrap().mulv(&h)[..$d].iter().enumerate().map(|(i, x)| x + err * (i as f64 + 1.0 - q as f64)).collect();
                                            facs.push($obs::fac(q, np + l, z, [3, 4, 2, 1][(q + l) % 4], 0));
                                        }
                                    }
                                }
                                for l in 0..nl {
                                    if lprior >> l & 1 == 1 {
                                        facs.push(prior::<$pt>(np + l, pts[l].mul(&<$pt as RV>::exp_r(&vec![err * 2.0; $d])), 2, 0));
                                    }
                                }
                                let mut nodes: Vec<Node> = poses.into_iter().map(|m| node::<$pose>(m)).collect();
                                nodes.extend(pts.into_iter().map(|m| node::<$pt>(m)));
                                let p = Prob { nodes, facs };
                                t.state(&(stringify!($pose), np, nl, mask, lprior, err.to_bits()));
                                solve_all(t, &p, How { thorough: $th, consistent: err == 0.0, robust: false, offs: &[(0, 0.1), (1, 0.03)], all_hash: np + nl <= 3 || mask % 5 == 1, all_fac: false })
                            });
                        }
                    }
                }
            }
        }
    };
}
fn robust<V: RV + Pick>(c: &mut Ctx) {
    let th = c.thorough;
    // kernels pulling against an outlier
    for kern in [1, 3, 4, 5, 6, 7, 8, 9, 10] {
        for topo in Topo::all(2) {
            c.case(format!("robust {} kernel {} {topo:?}", V::NAME, crate::factors::KERNS[kern].0), |t| {
                let p = {
                    let mut p = pose_prob::<V>(&topo, 0.05, 2, kern, true);
                    let z = p.nodes[topo.priors[0]].truth.mul(&V::exp_r(&(0..V::N).map(|i| if i == V::N - 1 { 0.4 } else { 0.1 }).collect::<Vec<_>>()));
                    p.facs.push(prior::<V>(topo.priors[0], z, 2, kern));
                    p
                };
                t.state(&("robust", V::NAME, kern, format!("{topo:?}")));
                solve_all(t, &p, How { thorough: th, consistent: false, robust: true, offs: &[(0, 0.05)], all_hash: true, all_fac: false })
            });
        }
    }
}
/// longer chains, loops and stars
fn large<V: RV + Pick>(c: &mut Ctx) {
    let th = c.thorough;
    let sizes: &[usize] = if c.thorough { &[5, 8, 13, 20, 30, 80] } else { &[6, 12, 40] };
    for &n in sizes {
        for shape in ["chain", "loop", "star", "ladder"] {
            c.case(format!("{} {shape} {n}", V::NAME), |t| {
                let mut edges: Vec<(usize, usize)> = match shape {
                    "star" => (1..n).map(|i| (0, i)).collect(),
                    _ => (1..n).map(|i| if i % 3 == 0 { (i, i - 1) } else { (i - 1, i) }).collect(),
                };
                if shape == "loop" {
                    edges.push((n - 1, 0));
                }
                if shape == "ladder" {
                    edges.extend((2..n).map(|i| (i - 2, i)));
                }
                let p = pose_prob::<V>(&Topo { n, priors: vec![n / 2], edges }, 0.01 * NEAR, 9, 0, false);
                t.state(&("large", V::NAME, n, shape));
                solve_all(t, &p, How { thorough: th, consistent: false, robust: false, offs: &[(0, 0.05), (1, 0.02)], all_hash: false, all_fac: false })
            });
        }
    }
}
/// linear problems from any distance
fn far<V: RV + Pick>(c: &mut Ctx) {
    let th = c.thorough;
    for n in 1..=2 {
        for topo in Topo::all(n) {
            for noise in [0, 3, 4] {
                c.case(format!("far and near {} {topo:?} noise {noise}", V::NAME), |t| {
                    let p = pose_prob::<V>(&topo, 0.0, noise, 0, false);
                    t.state(&("far", V::NAME, n, format!("{topo:?}"), noise));
                    solve_all(t, &p, How { thorough: th, consistent: true, robust: false, offs: &[(0, 1e6 / NEAR), (0, 3e3 / NEAR), (1, 1e-3 / NEAR), (0, 1e-5 / NEAR)], all_hash: false, all_fac: false })
                });
            }
        }
    }
}
/// linear problems whose measurements are trusted by very different amounts
fn weights<V: RV + Pick>(c: &mut Ctx) {
    for n in 1..=3usize {
        for topo in Topo::all(n) {
            if n == 3 && topo.edges.len() + topo.priors.len() > 4 && !c.thorough {
                continue;
            }
            for pat in 0..3 {
                c.case(format!("weights {} {topo:?} pattern {pat}", V::NAME), |t| {
                    for e in -8i32..=8 {
                        let truth: Vec<Mat> = (0..n).map(|i| V::exp_r(&(0..V::N).map(|k| 1.0 + i as f64 - 0.5 * k as f64).collect::<Vec<_>>())).collect();
                        let mut facs = vec![];
                        // all alike; every second measurement; every second coordinate
                        let noise = |k: usize| match pat { 0 => 200 + e, 1 => 200 + if k % 2 == 0 { e } else { 0 }, _ => 500 + e } as usize;
                        for rep in 0..2 {
                            for &i in &topo.priors {
                                let k = facs.len();
                                facs.push(prior::<V>(i, truth[i].mul(&V::exp_r(&(0..V::N).map(|j| 0.3 * ((k + j + rep) % 4) as f64).collect::<Vec<_>>())), noise(k), 0));
                            }
                            for &(a, b) in &topo.edges {
                                let k = facs.len();
                                facs.push(between::<V>(a, b, truth[a].inv().unwrap().mul(&truth[b]).mul(&V::exp_r(&(0..V::N).map(|j| 0.2 * ((k + 2 * j + rep) % 3) as f64).collect::<Vec<_>>())), noise(k + rep), 0));
                            }
                        }
                        let p = Prob { nodes: truth.iter().map(|m| node::<V>(m.clone())).collect(), facs };
                        let ord: Vec<usize> = (0..p.facs.len()).collect();
                        let keys = p.keys(0);
                        let start = p.start(0, 1.0);
                        for kind in 0..3 {
                            // damping slows the weak directions of an ill-conditioned problem down, as it should
                            if kind > 0 && (pat == 1 && e.abs() > 4 || kind == 2 && pat != 1 && (e > 4 || pat == 2 && e.abs() > 4)) {
                                continue;
                            }
                            for solver in 0..3 {
                                let prm = OptParams { max_iterations: 500, error_tol_relative: 1e-14, error_tol_absolute: 0.0, error_tol: 0.0 };
                                let what = format!("covariance 1e{e} {} {}", OPTS[kind], SOLVERS[solver]);
                                let (r, last) = guarded(|| run_opt(kind, solver, p.graph(&keys, &ord), &prm, p.values(&keys, &start, &(0..n).collect::<Vec<_>>()))).map_err(|e| format!("{what}: {e}"))?;
                                let r = match (r, last) {
                                    (Err(OptError::FailedToStep), Some(l)) if kind > 0 => l,
                                    (r, _) => okmsg(r, &what)?,
                                };
                                let ms = p.read(&keys, &r).map_err(|e| format!("{what}: {e}"))?;
                                let d = p.step(&ms).ok_or("harness: singular reference")?;
                                let m = d.iter().fold(0.0f64, |a, b| a.max(b.abs()));
                                ensure!(m <= 1e-5, "{what}: not the weighted least-squares solution, a reference step still moves by {m:e}");
                                t.step(1);
                            }
                        }
                        t.state(&("weights", V::NAME, n, format!("{topo:?}"), pat, e));
                    }
                    Ok(())
                });
            }
        }
    }
}
pub fn c13(c: &mut Ctx) {
    let th = c.thorough;
    weights::<VectorVar1>(c);
    weights::<VectorVar2>(c);
    weights::<VectorVar4>(c);
    far::<VectorVar1>(c);
    far::<VectorVar2>(c);
    far::<VectorVar6>(c);
    let n = if th { 4 } else { 3 };
    poses::<VectorVar1>(c, n);
    poses::<VectorVar2>(c, n);
    poses::<VectorVar3>(c, 3);
    poses::<VectorVar4>(c, 2);
    poses::<VectorVar5>(c, 2);
    poses::<VectorVar6>(c, 2);
    poses::<ImuBias>(c, 2);
    poses::<SO2>(c, n);
    poses::<SE2>(c, n);
    poses::<SO3>(c, n);
    poses::<SE3>(c, if th { 4 } else { 3 });
    mixed::<SE2, VectorVar3>(c);
    mixed::<SO3, SO2>(c);
    mixed::<VectorVar1, SE3>(c);
    mixed::<VectorVar2, ImuBias>(c);
    landmarks!(c, th, SE2, VectorVar2, Obs2, 2);
    landmarks!(c, th, SE3, VectorVar3, Obs3, 3);
    robust::<VectorVar1>(c);
    robust::<VectorVar3>(c);
    if !LEFT && !FAKE {
        robust::<SE2>(c);
    }
    robust::<SO3>(c);
    large::<VectorVar2>(c);
    large::<SE2>(c);
    large::<SE3>(c);
    // started exactly at the minimiser of an inconsistent problem (no step can lower the cost)
    if !LEFT && !FAKE {
        for kind in 0..3 {
            c.case(format!("start at the optimum {}", OPTS[kind]), |t| {
                let m = |x: f64| VectorVar1::exp_r(&[x]);
                let p = Prob { nodes: vec![node::<VectorVar1>(m(0.5))], facs: vec![prior::<VectorVar1>(0, m(0.0), 0, 0), prior::<VectorVar1>(0, m(1.0), 0, 0)] };
                let keys = p.keys(0);
                let (r, _) = run_opt(kind, 0, p.graph(&keys, &[0, 1]), &OptParams::default(), p.values(&keys, &[m(0.5)], &[0]));
                let v = okmsg(r, OPTS[kind])?;
                ensure!(p.dist(&p.read(&keys, &v)?, &p.truth()) < 1e-9, "moved away from the optimum");
                t.state(&("at optimum", kind));
                t.step(1);
                Ok(())
            });
        }
    }
}
