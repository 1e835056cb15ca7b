//! C10 noise models against Mahalanobis distances, C11 robust kernels against their published definitions.
use crate::ensure;
use crate::fw::*;
use crate::kern::Kern;
use crate::refm::*;
use factrs::linalg::{Matrix, MatrixX, Vector, VectorX};
use factrs::noise::{GaussianNoise, NoiseModel, UnitNoise};
use factrs::robust::*;

// ---------------------------------------------------------------- C10
/// vectors whose distances determine a quadratic form completely (polarisation), plus generic ones
fn probes(n: usize) -> Vec<Vec<f64>> {
    let mut o = vec![vec![0.0; n]];
    for i in 0..n {
        for s in [1.0, -2.5] {
            let mut v = vec![0.0; n];
            v[i] = s;
            o.push(v);
        }
        for j in 0..i {
            for s in [1.0, -1.0] {
                let mut v = vec![0.0; n];
                v[i] = 1.0;
                v[j] = s;
                o.push(v);
            }
        }
    }
    o.push((0..n).map(|i| 1.5 - 0.7 * i as f64).collect());
    o.push((0..n).map(|i| if i % 2 == 0 { 100.0 } else { -1e-3 }).collect());
    o
}
/// cov^-1, through the correlation matrix (the units of the axes may differ by many orders of magnitude)
fn inv_scaled(cov: &Mat) -> Mat {
    let n = cov.r;
    let s: Vec<f64> = (0..n).map(|i| cov.at(i, i).sqrt()).collect();
    let mut c = cov.clone();
    for i in 0..n {
        for j in 0..n {
            c.set(i, j, cov.at(i, j) / s[i] / s[j]);
        }
    }
    let ci = c.inv().expect("singular covariance");
    for i in 0..n {
        for j in 0..n {
            c.set(i, j, (ci.at(i, j) + ci.at(j, i)) * 0.5 / s[i] / s[j]);
        }
    }
    c
}
fn bilinear(inf: &Mat, u: &[f64], v: &[f64]) -> f64 {
    let n = inf.r;
    (0..n).map(|i| (0..n).map(|j| u[i] * inf.at(i, j) * v[j]).sum::<f64>()).sum()
}
fn check_model<N: NoiseModel>(t: &mut Tally, what: &str, m: &N, cov: &Mat, exact: bool) -> CaseResult {
    let n = cov.r;
    let inf = inv_scaled(cov);
    ensure!(m.dim() == n, "{what}: dimension {} instead of {n}", m.dim());
    let ps = probes(n);
    let tol = if exact { 1e-12 } else { 1e-8 };
    let ws: Vec<VectorX> = ps.iter().map(|p| m.whiten_vec(VectorX::from_column_slice(p))).collect();
    for (p, w) in ps.iter().zip(&ws) {
        ensure!(w.len() == n, "{what}: whitened {p:?} has {} entries", w.len());
        let (d, r) = (w.norm_squared(), bilinear(&inf, p, p));
        ensure!((d - r).abs() <= tol * (1e-12 + r), "{what}: whitening {p:?} gives squared norm {d}, Mahalanobis distance is {r}");
        t.step(1);
    }
    for i in 0..ps.len() {
        let j = (i * 5 + 3) % ps.len();
        // inner products are preserved as well
        let (a, b) = (ws[i].dot(&ws[j]), bilinear(&inf, &ps[i], &ps[j]));
        let s = ws[i].norm() * ws[j].norm();
        ensure!((a - b).abs() <= tol * (1e-12 + s), "{what}: inner product of whitened {:?} and {:?} is {a}, expected {b}", ps[i], ps[j]);
        // linearity
        let u: Vec<f64> = ps[i].iter().zip(&ps[j]).map(|(x, y)| 2.0 * x - 0.5 * y).collect();
        let w = m.whiten_vec(VectorX::from_column_slice(&u));
        let e = &ws[i] * 2.0 - &ws[j] * 0.5;
        ensure!((&w - &e).amax() <= 1e-10 * (1.0 + ws[i].amax() + ws[j].amax()), "{what}: whitening is not linear at {:?}, {:?}", ps[i], ps[j]);
        t.step(2);
    }
    // matrices: all widths, each column as the vector
    for cols in [1, 2, n, n + 3, ps.len()] {
        let mut mat = MatrixX::zeros(n, cols);
        for c in 0..cols {
            for r in 0..n {
                mat[(r, c)] = ps[(c * 7 + 1) % ps.len()][r];
            }
        }
        let w = m.whiten_mat(mat);
        ensure!(w.nrows() == n && w.ncols() == cols, "{what}: whitened matrix has shape {}x{}", w.nrows(), w.ncols());
        for c in 0..cols {
            let e = &ws[(c * 7 + 1) % ps.len()];
            ensure!((w.column(c) - e).amax() <= 1e-12 * (1.0 + e.amax()), "{what}: column {c} of a whitened matrix differs from the whitened column");
        }
        t.step(cols as u64);
    }
    t.state(&(what, n, cov.d.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
    Ok(())
}
fn na<const N: usize>(m: &Mat) -> Matrix<N, N> {
    Matrix::<N, N>::from_fn(|i, j| m.at(i, j))
}
fn diag(d: &[f64]) -> Mat {
    let mut m = Mat::zeros(d.len(), d.len());
    for (i, x) in d.iter().enumerate() {
        m.set(i, i, *x);
    }
    m
}
fn scalars(th: bool) -> Vec<f64> {
    if th { vec![1.0, 4.0, 0.25, 1e-2, 1e-4, 1e-6, 1e-8, 1e2, 1e4, 3.0, 1e-1, 7.5, 0.9, 1e-10, 1e-12, 1e-16, 1e8, 1e12, 1e16] } else { vec![1.0, 4.0, 0.25, 1e-2, 1e-6, 100.0, 3.0, 1e-12, 1e12] }
}
fn diags(n: usize, th: bool) -> Vec<Vec<f64>> {
    let al: &[f64] = if th { &[1.0, 4.0, 0.01, 1e-6, 50.0] } else { &[1.0, 4.0, 0.01] };
    let mut o = vec![];
    // axes many orders of magnitude apart
    for i in 0..n {
        for a in [1e-14, 1e-10, 1e10, 1e14] {
            let mut v = vec![1.0; n];
            v[i] = a;
            o.push(v.clone());
            v[(i + 1) % n] = 1.0 / a;
            o.push(v);
        }
    }
    if n <= 3 || (th && n <= 4) {
        o.extend(tuples(al.len(), n).into_iter().map(|t| t.iter().map(|&i| al[i]).collect::<Vec<f64>>()));
        return o;
    }
    for i in 0..n {
        for &a in al {
            for j in 0..n {
                if j != i {
                    let mut v = vec![1.0; n];
                    v[i] = a;
                    v[j] = 9.0;
                    o.push(v);
                }
            }
        }
    }
    o.push((0..n).map(|i| 0.5 + i as f64).collect());
    o.push((0..n).map(|i| [1e-6, 1e2, 1.0, 1e-3, 4.0, 0.1][i % 6]).collect());
    o
}
fn fulls(n: usize, th: bool) -> Vec<Mat> {
    let mut o = vec![];
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..i).map(move |j| (i, j))).collect();
    let al: &[f64] = if th { &[0.0, 1.0, -1.0, 0.5, 3.0] } else { &[0.0, 1.0, -0.5] };
    let scales: Vec<Vec<f64>> = vec![
        vec![1.0; n],
        (0..n).map(|i| [0.1, 2.0, 0.5, 10.0, 1.0, 0.05][i % 6]).collect(),
        (0..n).map(|i| [1e3, 1.0, 1e-3, 1e2, 1e-4, 10.0][i % 6]).collect(),
        (0..n).map(|i| [1e-4, 1e-2, 1e3, 1.0, 1e-1, 1e4][i % 6]).collect(),
    ];
    let facs: Vec<Vec<f64>> = if n <= 3 || (th && n <= 4) {
        tuples(al.len(), pairs.len()).into_iter().map(|t| t.iter().map(|&i| al[i]).collect()).collect()
    } else {
        // every pair on its own, every two pairs together, all at once
        let mut f = vec![(0..pairs.len()).map(|k| 0.3 - 0.1 * (k % 5) as f64).collect::<Vec<f64>>()];
        for a in 0..pairs.len() {
            for b in 0..=a {
                if b != a && !th && (a + b) % 3 != 0 {
                    continue;
                }
                let mut v = vec![0.0; pairs.len()];
                v[b] = -0.4;
                v[a] = 0.8;
                f.push(v);
            }
        }
        f
    };
    // weak correlations: one pair, and all pairs, at every order of magnitude
    for e in 1..=if th { 12 } else { 7 } {
        let rho = (1.0 - 2.0 * (e % 2) as f64) * 10f64.powi(-e);
        for k in 0..=pairs.len() {
            if k > 3 && k < pairs.len() && !th && (k + e as usize) % 4 != 0 {
                continue;
            }
            for s in &scales[..if th { 4 } else { 2 }] {
                let mut m = Mat::eye(n);
                for (q, &(i, j)) in pairs.iter().enumerate() {
                    if q == k || (k == pairs.len() && rho.abs() * n as f64 <= 0.5) {
                        m.set(i, j, rho);
                        m.set(j, i, rho);
                    }
                }
                for i in 0..n {
                    for j in 0..n {
                        m.set(i, j, m.at(i, j) * s[i] * s[j]);
                    }
                }
                o.push(m);
            }
        }
    }
    for f in facs {
        let mut l = Mat::eye(n);
        for (k, &(i, j)) in pairs.iter().enumerate() {
            l.set(i, j, f[k]);
        }
        for s in &scales {
            let mut d = l.clone();
            for i in 0..n {
                for j in 0..n {
                    d.set(i, j, l.at(i, j) * s[i]);
                }
            }
            o.push(d.mul(&d.t()));
        }
    }
    o
}
macro_rules! noise_dim {
    ($c:ident, $th:ident, $n:literal $(, [$($i:literal),*])?) => {{
        for s in scalars($th) {
            $c.case(format!("dimension {} scalar covariance {s}", $n), |t| {
                let cov = diag(&[s; $n]);
                check_model(t, "from_scalar_cov", &GaussianNoise::<$n>::from_scalar_cov(s), &cov, true)?;
                check_model(t, "from_scalar_sigma", &GaussianNoise::<$n>::from_scalar_sigma(s.sqrt()), &cov, true)?;
                check_model(t, "from_vec_cov", &GaussianNoise::<$n>::from_vec_cov(Vector::<$n>::from_element(s).as_view()), &cov, true)?;
                check_model(t, "from_matrix_cov", &GaussianNoise::<$n>::from_matrix_cov(na::<$n>(&cov).as_view()), &cov, false)
            });
        }
        for d in diags($n, $th) {
            $c.case(format!("dimension {} diagonal covariance {d:?}", $n), |t| {
                let cov = diag(&d);
                let v = Vector::<$n>::from_column_slice(&d);
                check_model(t, "from_vec_cov", &GaussianNoise::<$n>::from_vec_cov(v.as_view()), &cov, true)?;
                check_model(t, "from_vec_sigma", &GaussianNoise::<$n>::from_vec_sigma(v.map(|x| x.sqrt()).as_view()), &cov, true)?;
                check_model(t, "from_vec_inf", &GaussianNoise::<$n>::from_vec_inf(v.map(|x| 1.0 / x).as_view()), &cov, true)?;
                check_model(t, "from_matrix_cov", &GaussianNoise::<$n>::from_matrix_cov(na::<$n>(&cov).as_view()), &cov, false)?;
                check_model(t, "from_matrix_inf", &GaussianNoise::<$n>::from_matrix_inf(na::<$n>(&diag(&d.iter().map(|x| 1.0 / x).collect::<Vec<_>>())).as_view()), &cov, false)?;
                $(
                    check_model(t, "from_diag_covs", &GaussianNoise::<$n>::from_diag_covs($( d[$i] ),*), &cov, true)?;
                    check_model(t, "from_diag_sigmas", &GaussianNoise::<$n>::from_diag_sigmas($( d[$i].sqrt() ),*), &cov, true)?;
                )?
                Ok(())
            });
        }
        for (k, cov) in fulls($n, $th).into_iter().enumerate() {
            $c.case(format!("dimension {} full covariance #{k} {cov:?}", $n), |t| {
                let inf = inv_scaled(&cov);
                check_model(t, "from_matrix_cov", &GaussianNoise::<$n>::from_matrix_cov(na::<$n>(&cov).as_view()), &cov, false)?;
                check_model(t, "from_matrix_inf", &GaussianNoise::<$n>::from_matrix_inf(na::<$n>(&inf).as_view()), &cov, false)
            });
        }
        $c.case(format!("dimension {} unit noise", $n), |t| {
            let cov = Mat::eye($n);
            check_model(t, "UnitNoise", &UnitNoise::<$n>, &cov, true)?;
            check_model(t, "identity", &GaussianNoise::<$n>::identity(), &cov, true)?;
            let v = VectorX::from_fn($n, |i, _| i as f64 - 0.3);
            ensure!(UnitNoise::<$n>.whiten_vec(v.clone()) == v, "unit noise changes a vector");
            let m = MatrixX::from_fn($n, 4, |i, j| i as f64 * 3.0 - j as f64 * 0.1);
            ensure!(UnitNoise::<$n>.whiten_mat(m.clone()) == m, "unit noise changes a matrix");
            Ok(())
        });
    }};
}
pub fn c10(c: &mut Ctx) {
    let th = c.thorough;
    noise_dim!(c, th, 1, [0]);
    noise_dim!(c, th, 2, [0, 1]);
    noise_dim!(c, th, 3, [0, 1, 2]);
    noise_dim!(c, th, 4, [0, 1, 2, 3]);
    noise_dim!(c, th, 5, [0, 1, 2, 3, 4]);
    noise_dim!(c, th, 6, [0, 1, 2, 3, 4, 5]);
    noise_dim!(c, th, 7);
    noise_dim!(c, th, 9);
    noise_dim!(c, th, 15);
}

// ---------------------------------------------------------------- C11
fn grid(k: Kern, th: bool) -> Vec<f64> {
    let c = match k {
        Kern::L1 | Kern::L2 => 1.0,
        Kern::Huber(c) | Kern::Fair(c) | Kern::Cauchy(c) | Kern::Geman(c) | Kern::Welsch(c) | Kern::Tukey(c) => c,
    };
    let mut g = vec![0.0];
    // geometric over twelve decades, relative to the constant and absolute
    let per = if th { 200 } else { 40 };
    for i in 0..per * 16 {
        let x = 10f64.powf(-8.0 + i as f64 / per as f64);
        g.push(x);
        g.push(x * c);
    }
    for i in 0..(if th { 2000 } else { 400 }) {
        g.push(i as f64 * 0.025);
        g.push(c * i as f64 / 100.0);
    }
    for e in [0.0, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1] {
        for r in [0.5, 1.0, 2.0, 3.0] {
            g.push(c * r * (1.0 + e));
            g.push(c * r * (1.0 - e));
        }
    }
    g.sort_by(f64::total_cmp);
    g.dedup();
    g
}
fn kernel<R: RobustCost>(c: &mut Ctx, what: String, k: Kern, r: R) {
    let th = c.thorough;
    c.case(what, |t| {
        let g = grid(k, th);
        let cc = match k {
            Kern::L1 | Kern::L2 => 1.0,
            Kern::Huber(c) | Kern::Fair(c) | Kern::Cauchy(c) | Kern::Geman(c) | Kern::Welsch(c) | Kern::Tukey(c) => c,
        };
        let eps = 1e-14 * cc * cc;
        ensure!(r.loss(0.0) == 0.0, "cost at zero is {}", r.loss(0.0));
        let mut last = (0.0, 0.0);
        for &x in &g {
            let d2 = x * x;
            let (l, w) = (r.loss(d2), r.weight(d2));
            let (lr, wr) = (k.rho(d2.sqrt()), k.w(d2.sqrt()));
            let loc = 1e-10 * lr + eps + if matches!(k, Kern::Fair(_)) { 1e-15 * cc * x } else { 0.0 };
            ensure!((l - lr).abs() <= loc, "cost at norm {x} is {l}, definition gives {lr}");
            ensure!(l >= -eps, "cost at norm {x} is negative: {l}");
            ensure!(l >= last.1 - loc, "cost falls from {} at norm {} to {l} at norm {x}", last.1, last.0);
            // never a jump: the slope of rho is at most x (or 1 for the absolute value)
            let dx = x - last.0;
            let slope = if k == Kern::L1 { 1.0 } else { x };
            ensure!(l - last.1 <= slope * dx * (1.0 + 1e-6) + loc, "cost jumps from {} at norm {} to {l} at norm {x}", last.1, last.0);
            last = (x, l);
            if k.w_specified(x) {
                ensure!((w - wr).abs() <= 1e-10 * wr + 1e-14, "weight at norm {x} is {w}, derivative over norm is {wr}");
            }
            ensure!(w >= 0.0 && (k == Kern::L1 || w <= 1.0 + 1e-12), "weight at norm {x} is {w}");
            ensure!(w.is_finite(), "weight at norm {x} is {w}");
            // weight against the cost the kernel itself reports
            let h = (x * 1e-4).max(1e-6);
            let near = k.threshold().is_some_and(|c| (x - c).abs() < 3.0 * h);
            if x > 1e-2 && !near && k.w_specified(x) {
                let n = (r.loss((x + h).powi(2)) - r.loss((x - h).powi(2))) / (2.0 * h) / x;
                let round = (lr + cc * cc) * 1e-15 / h / x;
                ensure!((n - w).abs() <= 1e-6 * w + 1e-6 + 20.0 * round, "weight at norm {x} is {w}, the cost differentiates to {n}");
            }
            if let Kern::Huber(c) = k {
                if x < c * (1.0 - 1e-12) {
                    ensure!(w == 1.0 && (l - d2 / 2.0).abs() <= 1e-14 * d2, "not least squares below the threshold at norm {x}");
                }
            }
            if let Kern::Tukey(c) = k {
                if x > c * (1.0 + 1e-12) {
                    ensure!(w == 0.0 && (l - c * c / 6.0).abs() <= 1e-12 * c * c, "not constant beyond the threshold at norm {x}");
                }
            }
            t.step(1);
            t.state(&(format!("{k:?}"), x.to_bits()));
        }
        Ok(())
    });
}
pub fn c11(c: &mut Ctx) {
    kernel(c, "L2".into(), Kern::L2, L2);
    kernel(c, "L1".into(), Kern::L1, L1);
    kernel(c, "L2 default".into(), Kern::L2, L2::default());
    kernel(c, "L1 default".into(), Kern::L1, L1::default());
    kernel(c, "Huber default".into(), Kern::Huber(1.345), Huber::default());
    kernel(c, "Fair default".into(), Kern::Fair(1.3998), Fair::default());
    kernel(c, "Cauchy default".into(), Kern::Cauchy(2.3849), Cauchy::default());
    kernel(c, "Geman-McClure default".into(), Kern::Geman(1.3998), GemanMcClure::default());
    kernel(c, "Welsch default".into(), Kern::Welsch(2.9846), Welsch::default());
    kernel(c, "Tukey default".into(), Kern::Tukey(4.6851), Tukey::default());
    let ks: Vec<f64> = if c.thorough { vec![1.0, 0.01, 0.05, 0.1, 0.25, 0.5, 0.9, 1.1, 1.345, 1.3998, 2.0, 2.3849, 3.0, 4.6851, 5.0, 10.0, 30.0, 100.0, 1000.0] } else { vec![1.0, 0.01, 0.1, 0.5, 1.345, 2.0, 3.0, 10.0, 100.0] };
    for k in ks {
        kernel(c, format!("Huber {k}"), Kern::Huber(k), Huber::new(k));
        kernel(c, format!("Fair {k}"), Kern::Fair(k), Fair::new(k));
        kernel(c, format!("Cauchy {k}"), Kern::Cauchy(k), Cauchy::new(k));
        kernel(c, format!("Geman-McClure {k}"), Kern::Geman(k), GemanMcClure::new(k));
        kernel(c, format!("Welsch {k}"), Kern::Welsch(k), Welsch::new(k));
        kernel(c, format!("Tukey {k}"), Kern::Tukey(k), Tukey::new(k));
    }
}
