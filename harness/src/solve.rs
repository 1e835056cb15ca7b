//! C12 linear solvers: all small sparsity patterns, all short histories on one instance.
use crate::ensure;
use crate::fw::*;
use crate::refm::*;
use factrs::linear::{CholeskySolver, LUSolver, LinearSolver, QRSolver};
use faer::sparse::SparseColMat;

#[derive(Clone)]
struct Sys {
    r: usize,
    c: usize,
    tri: Vec<(usize, usize, f64)>,
    b: Mat,
}
impl Sys {
    fn dense(&self) -> Mat {
        let mut m = Mat::zeros(self.r, self.c);
        for &(i, j, v) in &self.tri {
            m.add_at(i, j, v);
        }
        m
    }
    fn sparse(&self) -> SparseColMat<usize, f64> {
        SparseColMat::try_new_from_triplets(self.r, self.c, &self.tri).unwrap()
    }
    fn fb(&self) -> faer::Mat<f64> {
        faer::Mat::from_fn(self.b.r, self.b.c, |i, j| self.b.at(i, j))
    }
}
/// deterministic non-zero entries, several assignments per pattern
fn val(k: usize, i: usize, j: usize) -> f64 {
    let v = [3.0, -2.0, 5.0, 1.0, -4.0, 7.0, 0.5, -1.5, 2.5, 6.0, -3.0];
    v[(i * 3 + j * 5 + k * 7 + i * j) % 11] * if k == 2 { 0.1 } else { 1.0 }
}
fn rhs(k: usize, r: usize, cols: usize) -> Mat {
    let mut b = Mat::zeros(r, cols);
    for i in 0..r {
        for j in 0..cols {
            b.set(i, j, match (k + j) % 4 { 0 => 1.0 + i as f64, 1 => if i % 2 == 0 { -2.0 } else { 3.5 }, 2 => if i == 0 { 1.0 } else { 0.0 }, _ => 10.0 - 3.0 * i as f64 });
        }
    }
    b
}
/// reference minimiser, None when (nearly) rank deficient
fn lsq(s: &Sys) -> Option<Mat> {
    let a = s.dense();
    let ata = a.t().mul(&a);
    let inv = ata.inv()?;
    if ata.maxabs() * inv.maxabs() > 1e7 {
        return None;
    }
    let x = ata.solve(&a.t().mul(&s.b))?;
    // one refinement step
    let res = s.b.sub(&a.mul(&x));
    Some(x.add(&ata.solve(&a.t().mul(&res))?))
}
fn check(t: &mut Tally, what: &str, got: &faer::Mat<f64>, want: &Mat, s: &Sys) -> CaseResult {
    ensure!(got.nrows() == s.c && got.ncols() == s.b.c, "{what}: solution is {}x{}, expected {}x{}", got.nrows(), got.ncols(), s.c, s.b.c);
    let mut g = Mat::zeros(s.c, s.b.c);
    for i in 0..s.c {
        for j in 0..s.b.c {
            g.set(i, j, got.read(i, j));
        }
    }
    ensure!(g.d.iter().all(|x| x.is_finite()), "{what}: solution {g:?}");
    ensure!(close(&g, want, 1e-7 * (1.0 + want.maxabs())), "{what}: solution {g:?}, exact {want:?} (A = {:?}, b = {:?})", s.dense(), s.b);
    t.step(1);
    Ok(())
}
/// A history of systems on one instance; each is also given to a fresh solver.
fn history<S: LinearSolver>(t: &mut Tally, name: &str, sym: bool, h: &[&Sys]) -> CaseResult {
    let mut one = S::default();
    for (i, s) in h.iter().enumerate() {
        let want = match if sym { s.dense().solve(&s.b) } else { lsq(s) } {
            Some(w) => w,
            None => return Err("harness: rank deficient system in a history".into()),
        };
        let (a, b) = (s.sparse(), s.fb());
        let x = if sym { one.solve_symmetric(a.as_ref(), b.as_ref()) } else { one.solve_lst_sq(a.as_ref(), b.as_ref()) };
        let kind = if sym { "symmetric" } else { "least squares" };
        check(t, &format!("{name} {kind}, system {} of the history", i + 1), &x, &want, s)?;
        if i > 0 {
            let mut fresh = S::default();
            let y = if sym { fresh.solve_symmetric(a.as_ref(), b.as_ref()) } else { fresh.solve_lst_sq(a.as_ref(), b.as_ref()) };
            check(t, &format!("{name} {kind}, fresh"), &y, &want, s)?;
        }
        let _ = s;
    }
    Ok(())
}
fn all_solvers(t: &mut Tally, sym: bool, h: &[&Sys]) -> CaseResult {
    history::<CholeskySolver>(t, "Cholesky", sym, h)?;
    history::<QRSolver>(t, "QR", sym, h)?;
    history::<LUSolver>(t, "LU", sym, h)
}
/// the scaled system's solution is the base system's times `f`, on fresh instances and along the history
fn scaled(t: &mut Tally, base: &Sys, s: &Sys, f: &[f64], sym: bool) -> CaseResult {
    fn go<S: LinearSolver>(t: &mut Tally, name: &str, base: &Sys, s: &Sys, f: &[f64], sym: bool) -> CaseResult {
        let want = if sym { base.dense().solve(&base.b) } else { lsq(base) }.ok_or("harness: singular")?;
        let mut one = S::default();
        for (i, (q, g)) in [(base, &vec![1.0; base.c][..]), (s, f), (base, &vec![1.0; base.c][..]), (s, f)].into_iter().enumerate() {
            let mut fresh = S::default();
            let (a, b) = (q.sparse(), q.fb());
            for (what, o) in [("reused", &mut one), ("fresh", &mut fresh)] {
                let x = if sym { o.solve_symmetric(a.as_ref(), b.as_ref()) } else { o.solve_lst_sq(a.as_ref(), b.as_ref()) };
                let x = faer::Mat::from_fn(x.nrows(), x.ncols(), |i, j| x.read(i, j) / g.get(i).unwrap_or(&1.0));
                check(t, &format!("{name} {what}, symmetric: {sym}, call {}", i + 1), &x, &want, base)?;
            }
        }
        Ok(())
    }
    go::<CholeskySolver>(t, "Cholesky", base, s, f, sym)?;
    go::<QRSolver>(t, "QR", base, s, f, sym)?;
    go::<LUSolver>(t, "LU", base, s, f, sym)
}
fn both<S: LinearSolver>(t: &mut Tally, name: &str, ss: &[Sys], w: &[usize]) -> CaseResult {
    let mut one = S::default();
    for (i, &o) in w.iter().enumerate() {
        let s = &ss[o % 2];
        let want = s.dense().solve(&s.b).ok_or("harness: singular")?;
        let (a, b) = (s.sparse(), s.fb());
        let x = if o < 2 { one.solve_symmetric(a.as_ref(), b.as_ref()) } else { one.solve_lst_sq(a.as_ref(), b.as_ref()) };
        check(t, &format!("{name} call {}", i + 1), &x, &want, s)?;
    }
    Ok(())
}
/// all ordered selections of up to `len` systems
fn orders(n: usize, len: usize) -> Vec<Vec<usize>> {
    (1..=len).flat_map(|l| tuples(n, l)).collect()
}
pub fn c12(c: &mut Ctx) {
    let th = c.thorough;
    // least squares over every pattern
    let shapes: &[(usize, usize)] = if th { &[(1, 1), (2, 1), (3, 1), (4, 1), (2, 2), (3, 2), (4, 2), (5, 2), (3, 3), (4, 3), (5, 3), (4, 4)] } else { &[(1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (4, 2), (3, 3), (4, 3)] };
    for &(r, n) in shapes {
        for pat in 1u32..1 << (r * n) {
            let pos: Vec<(usize, usize)> = (0..r * n).filter(|k| pat >> k & 1 == 1).map(|k| (k % r, k / r)).collect();
            c.case(format!("least squares {r}x{n} pattern {pat:b}"), |t| {
                // assignments sharing this pattern; the last ones keep a structural entry whose value is zero
                let mut ss: Vec<Sys> = (0..3).map(|k| Sys { r, c: n, tri: pos.iter().map(|&(i, j)| (i, j, val(k, i, j))).collect(), b: rhs(k, r, 1 + k % 2) }).collect();
                for z in [0, pos.len() / 2, pos.len() - 1] {
                    let mut s = ss[0].clone();
                    s.tri[z].2 = 0.0;
                    s.b = rhs(3, r, 1);
                    ss.push(s);
                }
                let ss: Vec<Sys> = ss.into_iter().filter(|s| lsq(s).is_some()).collect();
                if ss.is_empty() {
                    t.count("rank-deficient patterns skipped", 1);
                    return Ok(());
                }
                t.state(&(r, n, pat));
                let len = if r * n <= 6 { if th { 4 } else { 3 } } else { 2 };
                let os = orders(ss.len().min(if r * n <= 6 { 6 } else { 4 }), len);
                for o in os {
                    let h: Vec<&Sys> = o.iter().map(|&i| &ss[i]).collect();
                    all_solvers(t, false, &h)?;
                }
                Ok(())
            });
        }
    }
    // symmetric positive definite systems over every pattern
    for n in 1..=(if th { 5 } else { 4 }) {
        let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..i).map(move |j| (i, j))).collect();
        for pat in 0u32..1 << pairs.len() {
            c.case(format!("symmetric {n} pattern {pat:b}"), |t| {
                let mk = |k: usize, zero: bool| {
                    let mut tri = vec![];
                    let mut first = true;
                    for i in 0..n {
                        tri.push((i, i, if k == 3 { 40.0 } else { 30.0 + 7.0 * ((i * 3 + k) % 4) as f64 } * if k == 2 { 1e-3 } else { 1.0 }));
                    }
                    for (e, &(i, j)) in pairs.iter().enumerate() {
                        if pat >> e & 1 == 1 {
                            let mut v = val(k, i, j) * if k == 2 { 1e-3 } else { 1.0 };
                            if zero && first {
                                v = 0.0;
                            }
                            first = false;
                            tri.push((i, j, v));
                            tri.push((j, i, v));
                        }
                    }
                    Sys { r: n, c: n, tri, b: rhs(k, n, 1 + k % 2) }
                };
                let ss = [mk(0, false), mk(1, false), mk(2, false), mk(3, true)];
                t.state(&("sym", n, pat));
                for o in orders(4, if n <= 3 || th { 3 } else { 2 }) {
                    let h: Vec<&Sys> = o.iter().map(|&i| &ss[i]).collect();
                    all_solvers(t, true, &h)?;
                }
                Ok(())
            });
        }
    }
    // systems far from unit scale, alone and after each other
    for &(r, n) in &[(1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (4, 3), (6, 3), (8, 4)] {
        for (ea, eb) in [(-7, 0), (-5, -5), (-3, 3), (5, 0), (6, 6), (0, 8), (0, -9), (7, -7), (-6, 12), (0, -30), (0, 30), (-1, 0), (1, 0), (2, 1), (-2, -1), (3, 0), (-4, 0), (0, 4), (0, -4), (0, 15), (0, -15), (0, -100), (-6, -20)] {
            for style in 0..3 {
                c.case(format!("scale {r}x{n} A 1e{ea} b 1e{eb} style {style}"), |t| {
                    let pos: Vec<(usize, usize)> = (0..r * n).map(|k| (k % r, k / r)).filter(|&(i, j)| style == 0 || i == j || (i + 2 * j) % (style + 1) == 0 || i >= n).collect();
                    let base = Sys { r, c: n, tri: pos.iter().map(|&(i, j)| (i, j, val(style, i, j) + if i == j { 9.0 } else { 0.0 })).collect(), b: rhs(style, r, 1) };
                    if lsq(&base).is_none() {
                        return Ok(());
                    }
                    let mut s = base.clone();
                    for e in &mut s.tri {
                        e.2 *= 10f64.powi(ea);
                    }
                    s.b = s.b.scale(10f64.powi(eb));
                    t.state(&(r, n, ea, eb, style));
                    scaled(t, &base, &s, &vec![10f64.powi(eb - ea); n], false)?;
                    let sq = |s: &Sys| -> Sys {
                        let d = s.dense();
                        let m = d.t().mul(&d);
                        let tri = (0..n * n).map(|k| (k % n, k / n, m.at(k % n, k / n))).collect();
                        Sys { r: n, c: n, tri, b: d.t().mul(&s.b) }
                    };
                    scaled(t, &sq(&base), &sq(&s), &vec![10f64.powi(eb - ea); n], true)
                });
            }
        }
    }
    // unknowns in units of their own
    for &(r, n) in &[(2, 2), (3, 2), (4, 3), (6, 3), (8, 4), (14, 6)] {
        for e in [-5i32, -3, -1, 1, 2, 4] {
            for style in 0..3 {
                for which in 0..=n {
                    c.case(format!("units {r}x{n} 1e{e} column {which} style {style}"), |t| {
                        let base = Sys { r, c: n, tri: (0..r * n).map(|k| (k % r, k / r)).filter(|&(i, j)| style == 0 || i == j || (i + 2 * j) % (style + 1) == 0 || i >= n).map(|(i, j)| (i, j, val(style, i, j) + if i == j { 9.0 } else { 0.0 })).collect(), b: rhs(style, r, 1) };
                        if lsq(&base).is_none() {
                            return Ok(());
                        }
                        // one column, or all of them alternating
                        let u: Vec<f64> = (0..n).map(|j| 10f64.powi(if which == n { e * (j as i32 % 3 - 1) } else if j == which { e } else { 0 })).collect();
                        let f: Vec<f64> = u.iter().map(|x| 1.0 / x).collect();
                        let mut s = base.clone();
                        for q in &mut s.tri {
                            q.2 *= u[q.1];
                        }
                        scaled(t, &base, &s, &f, false)?;
                        let d = base.dense();
                        let (m, mb) = (d.t().mul(&d), d.t().mul(&base.b));
                        let sy = |u: &[f64]| Sys { r: n, c: n, tri: (0..n * n).map(|k| (k % n, k / n, m.at(k % n, k / n) * u[k % n] * u[k / n])).collect(), b: { let mut b = mb.clone(); for i in 0..n { b.set(i, 0, b.at(i, 0) * u[i]); } b } };
                        scaled(t, &sy(&vec![1.0; n]), &sy(&u), &f, true)?;
                        t.state(&("units", r, n, e, style, which));
                        Ok(())
                    });
                }
            }
        }
    }
    // both methods of one instance, where the normal equations have the pattern of the matrix itself
    for n in 1..=4usize {
        for full in [true, false] {
            for w in tuples(4, if th { 4 } else { 3 }) {
                c.case(format!("both methods, {} {n}, calls {w:?}", if full { "full" } else { "diagonal" }), |t| {
                    let mk = |k: usize| {
                        let tri = (0..n * n).map(|q| (q % n, q / n)).filter(|&(i, j)| full || i == j).map(|(i, j)| (i, j, if i == j { 30.0 + k as f64 } else { val(k, i.max(j), i.min(j)) })).collect();
                        Sys { r: n, c: n, tri, b: rhs(k, n, 1) }
                    };
                    let ss = [mk(0), mk(1)];
                    both::<CholeskySolver>(t, "Cholesky", &ss, &w)?;
                    both::<QRSolver>(t, "QR", &ss, &w)?;
                    both::<LUSolver>(t, "LU", &ss, &w)?;
                    t.state(&("both", n, full, w.clone()));
                    Ok(())
                });
            }
        }
    }
    // larger structured systems (other code paths of the factorisations), histories of two
    let sizes: &[usize] = if th { &[8, 12, 20, 40, 64, 100] } else { &[8, 20, 40, 100] };
    for &n in sizes {
        for kind in ["chain", "star", "arrow", "grid", "dense", "block"] {
            c.case(format!("structured {kind} {n}"), |t| {
                let edges: Vec<(usize, usize)> = match kind {
                    "chain" => (1..n).map(|i| (i, i - 1)).collect(),
                    "star" => (1..n).map(|i| (i, 0)).collect(),
                    "arrow" => (0..n - 1).map(|i| (n - 1, i)).collect(),
                    "grid" => (0..n).flat_map(|i| [(i + 1, i), (i + 4, i)]).filter(|e| e.0 < n).collect(),
                    "dense" => (0..n).flat_map(|i| (0..i).map(move |j| (i, j))).collect(),
                    _ => (0..n).flat_map(|i| (0..i).map(move |j| (i, j))).filter(|e| e.0 / 4 == e.1 / 4).collect(),
                };
                let mk = |k: usize| {
                    // one prior row per variable, one row per edge
                    let mut tri = vec![];
                    let mut row = 0;
                    for i in 0..n {
                        tri.push((row, i, if i == 0 { 5.0 } else { 0.5 + 0.1 * ((i + k) % 5) as f64 }));
                        row += 1;
                    }
                    for &(i, j) in &edges {
                        tri.push((row, i, 1.0 + 0.25 * ((i * 7 + k) % 3) as f64));
                        tri.push((row, j, -1.0 - 0.5 * ((j * 5 + k) % 4) as f64));
                        row += 1;
                    }
                    Sys { r: row, c: n, tri, b: rhs(k, row, 1) }
                };
                let (a, b) = (mk(0), mk(1));
                t.state(&(kind, n));
                all_solvers(t, false, &[&a, &b, &a])?;
                let sq = |s: &Sys| {
                    let d = s.dense();
                    let m = d.t().mul(&d);
                    let mut tri = vec![];
                    for i in 0..n {
                        for j in 0..n {
                            if m.at(i, j) != 0.0 {
                                tri.push((i, j, m.at(i, j)));
                            }
                        }
                    }
                    Sys { r: n, c: n, tri, b: d.t().mul(&s.b) }
                };
                let (a, b) = (sq(&a), sq(&b));
                all_solvers(t, true, &[&a, &b, &a])
            });
        }
    }
}
