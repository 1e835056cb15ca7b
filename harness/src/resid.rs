//! C19: prior and relative residuals, value and Jacobian, at every pair/triple of poses and for every naming of the variables.
use crate::diffs::pts;
use crate::ensure;
use crate::factors::Pick;
use crate::fw::*;
use crate::groups::Alt;
use crate::refm::*;
use crate::vars::*;
use factrs::containers::{Key, Values};
use factrs::residuals::*;
use factrs::symbols::*;
use factrs::variables::*;

/// names for (first, second) and where unrelated variables sit
fn names(k: usize) -> (Key, Key) {
    match k {
        0 => (X(0).into(), X(1).into()),
        1 => (X(1).into(), X(0).into()),
        2 => (L(5).into(), X(5).into()),
        3 => (Key(3), Key(0)),
        _ => (Z(4000000000).into(), A(0).into()),
    }
}
const NAMES: usize = 5;
fn fill<V: RV>(v: &mut Values, k: usize, zm: &Mat) {
    match k {
        0 => {}
        1 => {
            v.insert_unchecked(X(2), V::of(zm));
            v.insert_unchecked(L(0), VectorVar2::new(3.0, 4.0));
        }
        _ => {
            for i in 6..12 {
                v.insert_unchecked(X(i), V::of(&V::exp_r(&gens::<V>()[i as usize % 4])));
                v.insert_unchecked(B(i), SO2::from_theta(i as f64));
            }
        }
    }
}
/// inside the maps' small-angle series the neglected terms are of this order
fn loose<V: RV>(r: &[f64]) -> f64 {
    let a = norm(&r[..V::ROT]);
    if V::ROT > 0 && a > 1e-6 && a < 4e-3 {
        20.0
    } else {
        1.0
    }
}
fn judge(what: &str, res: &dyn Residual, v: &Values, keys: &[Key], want: &[f64], j: Option<&Mat>, l: f64, s: f64) -> CaseResult {
    let r = sv(&res.residual(v, keys));
    ensure!(res.dim_out() == want.len() && r.len() == want.len(), "{what}: residual of length {}", r.len());
    ensure!(vclose(&r, want, 1e-8 * l * s), "{what}: residual {r:?}, documented difference {want:?}");
    if let Some(j) = j {
        ensure!(res.dim_in() == j.c, "{what}: input dimension {}", res.dim_in());
        let d = res.residual_jacobian(v, keys);
        ensure!(vclose(&sv(&d.value), want, 1e-8 * l * s), "{what}: value {:?} next to the Jacobian, documented difference {want:?}", sv(&d.value));
        let g = nm(&d.diff);
        ensure!(close(&g, j, 2e-6 * l * (1.0 + j.maxabs())), "{what}: Jacobian {g:?}, true derivative {j:?}");
    }
    Ok(())
}
fn poses<V: RV + Alt + Pick>(c: &mut Ctx)
where
    PriorResidual<V>: Residual,
    BetweenResidual<V>: Residual,
{
    let th = c.thorough;
    let n = V::N;
    let ps: Vec<Mat> = pts::<V>(true, th);
    let zs: Vec<Mat> = if th { pts::<V>(true, false) } else { pts::<V>(false, false).into_iter().chain(gens::<V>().iter().map(|g| V::exp_r(g))).collect() };
    let offs: Vec<Vec<f64>> = {
        let mut o = vec![vec![0.0; n]];
        for (k, s) in [1e-9, 1e-4, 0.02, 0.4, 2.0].iter().enumerate() {
            o.push((0..n).map(|i| s * ([0.6, -0.5, 0.62, 1.0, -2.0, 0.3][(i + k) % 6])).collect());
        }
        o
    };
    for (zi, zm) in zs.iter().enumerate() {
        for (xi, xm) in ps.iter().enumerate() {
            c.case(format!("{} measurement #{zi} pose #{xi}", V::NAME), |t| {
                for (oi, off) in offs.iter().enumerate() {
                    let (ka, kb) = names((zi + xi + oi) % NAMES);
                    let extra = (zi + oi) % 3;
                    // other representations of the measurement and of the poses
                    let reps = |m: &Mat| -> Vec<V> { let v = V::of(m); let mut o = v.alts(); o.insert(0, v); o };
                    // prior: the variable sits `off` away from the prior (a), and at an unrelated pose (b)
                    for (kind, vm) in [("near", zm.mul(&V::exp_r(off))), ("far", xm.mul(&V::exp_r(off)))] {
                        let r = ominus_r::<V>(zm, &vm);
                        let a = norm(&r[..V::ROT]);
                        if a > PI - 1e-2 {
                            t.count("half turn, skipped", 1);
                            continue;
                        }
                        let s = 1.0 + vm.maxabs() + zm.maxabs();
                        let f = |d: &[f64]| ominus_r::<V>(zm, &oplus_r::<V>(&vm, d));
                        let jac = (a < PI - 0.05).then(|| fd_jac(n, 1e-3, f));
                        for (zr, z) in reps(zm).into_iter().enumerate() {
                            for (vr, var) in reps(&vm).into_iter().enumerate() {
                                let mut v = Values::new();
                                fill::<V>(&mut v, extra, xm);
                                v.insert_unchecked(ka, var);
                                let p = PriorResidual::new(z.clone());
                                judge(&format!("prior {kind} offset #{oi} representation {zr}{vr}"), &p, &v, &[ka], &r, jac.as_ref(), loose::<V>(&r), s)?;
                                if oi == 0 && kind == "near" {
                                    let e = V::prior(z.clone(), ka, 0, 0).error(&v);
                                    ensure!(e < 1e-14 * s * s, "prior offset #0 costs {e:e}");
                                }
                                t.step(1);
                            }
                        }
                    }
                    // relative: second = first * z moved by off
                    let ym = xm.mul(zm).mul(&V::exp_r(off));
                    let r = ominus_r::<V>(&xm.mul(zm), &ym);
                    let a = norm(&r[..V::ROT]);
                    if a > PI - 1e-2 {
                        t.count("half turn, skipped", 1);
                        continue;
                    }
                    let s = 1.0 + ym.maxabs() + xm.maxabs() + zm.maxabs();
                    let f = |d: &[f64]| ominus_r::<V>(&oplus_r::<V>(xm, &d[..n]).mul(zm), &oplus_r::<V>(&ym, &d[n..]));
                    let jac = (a < PI - 0.05).then(|| fd_jac(2 * n, 1e-3, f));
                    for (zr, z) in reps(zm).into_iter().enumerate() {
                        for (vr, (x, y)) in reps(xm).into_iter().flat_map(|x| reps(&ym).into_iter().map(move |y| (x.clone(), y))).enumerate() {
                            let mut v = Values::new();
                            fill::<V>(&mut v, extra, zm);
                            // the order of insertion does not matter
                            if vr % 2 == 0 {
                                v.insert_unchecked(ka, x.clone());
                                v.insert_unchecked(kb, y.clone());
                            } else {
                                v.insert_unchecked(kb, y.clone());
                                v.insert_unchecked(ka, x.clone());
                            }
                            let b = BetweenResidual::new(z.clone());
                            let j = if vr == 0 || th { jac.as_ref() } else { None };
                            judge(&format!("relative offset #{oi} representation {zr}{vr}"), &b, &v, &[ka, kb], &r, j, loose::<V>(&r), s)?;
                            if oi == 0 {
                                let e = V::between(z.clone(), ka, kb, 0, 0).error(&v);
                                ensure!(e < 1e-14 * s * s, "relative offset #0 costs {e:e}");
                            }
                            // the other way around: y first
                            let back = ominus_r::<V>(&ym.mul(zm), xm);
                            if norm(&back[..V::ROT]) < PI - 1e-2 && vr < 2 {
                                judge("relative, names swapped", &b, &v, &[kb, ka], &back, None, loose::<V>(&back), s + ym.mul(zm).maxabs())?;
                            }
                            t.step(1);
                        }
                    }
                    t.state(&(V::NAME, zi, xi, oi));
                }
                Ok(())
            });
            if c.full() {
                return;
            }
        }
    }
}
/// disagreements of every order of magnitude along every coordinate, judged relative to their size
fn sizes<V: RV + Alt + Pick>(c: &mut Ctx)
where
    PriorResidual<V>: Residual,
    BetweenResidual<V>: Residual,
{
    let n = V::N;
    let left = cfg!(feature = "left");
    for e in -15i32..=12 {
        for i in 0..n {
            c.case(format!("{} disagreement 1e{e} along {i}", V::NAME), |t| {
                if i < V::ROT && e > 0 {
                    return Ok(());
                }
                for g in [1.0, -2.7] {
                    let x = g * 10f64.powi(e);
                    let off: Vec<f64> = (0..n).map(|j| if i == j { x } else { 0.0 }).collect();
                    let near = V::of(&V::exp_r(&off));
                    let back = V::of(&V::exp_r(&off.iter().map(|x| -x).collect::<Vec<_>>()));
                    let id = <V as Variable>::identity();
                    let (ka, kb) = names((i + e.unsigned_abs() as usize) % NAMES);
                    // (residual, values, sign, what)
                    let put = |a: &V, b: Option<&V>| {
                        let mut v = Values::new();
                        v.insert_unchecked(ka, a.clone());
                        if let Some(b) = b {
                            v.insert_unchecked(kb, b.clone());
                        }
                        v
                    };
                    let pr = |z: &V| -> Box<dyn Residual> { Box::new(PriorResidual::new(z.clone())) };
                    let be = |z: &V| -> Box<dyn Residual> { Box::new(BetweenResidual::new(z.clone())) };
                    let all: Vec<(Box<dyn Residual>, Values, f64, usize, &str)> = vec![
                        (pr(&id), put(&near, None), -1.0, 1, "variable away from the prior"),
                        (pr(&near), put(&id, None), 1.0, 1, "prior away from the variable"),
                        (be(&id), put(&id, Some(&near)), -1.0, 2, "second variable away"),
                        (be(&id), put(&near, Some(&id)), 1.0, 2, "first variable away"),
                        (be(&near), put(&id, Some(&id)), 1.0, 2, "measurement away"),
                        (be(&near), put(&back, Some(&id)), 0.0, 2, "first variable and measurement cancel"),
                        (be(&near), put(&id, Some(&near)), 0.0, 2, "second variable agrees"),
                        (pr(&near), put(&near, None), 0.0, 1, "variable at the prior"),
                    ];
                    for (res, v, sign, k, what) in all {
                        let keys = &[ka, kb][..k];
                        let d = res.residual_jacobian(&v, keys);
                        for r in [sv(&res.residual(&v, keys)), sv(&d.value)] {
                            for j in 0..n {
                                let want = if i == j { sign * x } else { 0.0 };
                                // the maps' small-angle series; rounding when two large terms cancel
                                let tol = if i < V::ROT { 1e-6 * x.abs() } else { 1e-12 * x.abs() };
                                ensure!((r[j] - want).abs() <= tol, "{what} by {x:e}: residual {r:?}");
                            }
                        }
                        // the derivative along the coordinate itself is plus or minus one, whatever the size
                        for q in 0..k {
                            let first_in_chain = q == 0 && k == 2;
                            let want = if first_in_chain { 1.0 } else { -1.0 };
                            let got = d.diff[(i, q * n + i)];
                            ensure!((got - want).abs() <= 1e-5, "{what} by {x:e}: derivative of coordinate {i} along itself is {got}, left {left}");
                        }
                        t.step(1);
                    }
                    t.state(&(V::NAME, e, i, g.to_bits()));
                }
                Ok(())
            });
        }
    }
}
pub fn c19(c: &mut Ctx) {
    sizes::<SO2>(c);
    sizes::<SE2>(c);
    sizes::<SO3>(c);
    sizes::<SE3>(c);
    sizes::<VectorVar1>(c);
    sizes::<VectorVar2>(c);
    sizes::<VectorVar6>(c);
    sizes::<ImuBias>(c);
    poses::<SO2>(c);
    poses::<SE2>(c);
    poses::<SO3>(c);
    poses::<SE3>(c);
    poses::<VectorVar1>(c);
    poses::<VectorVar2>(c);
    poses::<VectorVar3>(c);
    poses::<VectorVar4>(c);
    poses::<VectorVar5>(c);
    poses::<VectorVar6>(c);
    poses::<ImuBias>(c);
}
