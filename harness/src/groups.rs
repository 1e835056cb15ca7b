//! C07 group laws along words, C08 exp/log/plus/minus, C09 matrix-group operations.
use crate::ensure;
use crate::fw::*;
use crate::refm::*;
use crate::vars::*;
use factrs::linalg::{Vector, Vector3};
use factrs::traits::Variable;
use factrs::variables::*;

fn key(m: &Mat) -> Vec<i64> {
    m.d.iter().map(|x| (x * 1e6).round() as i64).collect()
}
fn tscale(m: &Mat) -> f64 {
    1.0 + m.maxabs()
}

// ------------------------------------------------------------------ C07
trait Ops: Sized {
    /// (a * b, &a * &b) through the operators, where the type has them
    fn ops(_a: &Self, _b: &Self) -> Option<(Self, Self)> {
        None
    }
}
macro_rules! ops { ($($t:ident),*) => {$( impl Ops for $t { fn ops(a: &Self, b: &Self) -> Option<(Self, Self)> { Some((a.clone() * b.clone(), a * b)) } } )*}; }
macro_rules! noops { ($($t:ident),*) => {$( impl Ops for $t {} )*}; }
ops!(SO2, SO3, SE2, SE3);
noops!(VectorVar1, VectorVar2, VectorVar3, VectorVar4, VectorVar5, VectorVar6, ImuBias);

fn words<V: RV + Ops>(c: &mut Ctx, depth: usize) {
    let gs: Vec<(V, Mat)> = gens::<V>().iter().map(|g| { let m = V::exp_r(g); (V::of(&m), m) }).collect();
    let k = gs.len();
    let nops = 2 * k + 1;
    for w in tuples(nops, depth) {
        if c.full() {
            return;
        }
        let name: Vec<String> = w.iter().map(|&o| if o < k { format!("*g{o}") } else if o < 2 * k { format!("g{}*", o - k) } else { "inv".into() }).collect();
        c.case(format!("{} word {}", V::NAME, name.join(" ")), |t| {
            let mut x: V = Variable::identity();
            let mut m = Mat::eye(x.m().r);
            ensure!(close(&x.m(), &m, 1e-15), "identity is {:?}", x.m());
            ensure!(Variable::<f64>::dim(&x) == V::N && <V as Variable>::DIM == V::N, "dimension is {}", Variable::<f64>::dim(&x));
            for (i, &o) in w.iter().enumerate() {
                let prev = x.clone();
                if o < 2 * k {
                    let (g, gm) = &gs[o % k];
                    let (a, b) = if o < k { (&x, g) } else { (g, &x) };
                    let y = a.compose(b);
                    if let Some((p, q)) = V::ops(a, b) {
                        let e = tscale(&m) * 1e-12;
                        ensure!(close(&p.m(), &y.m(), e) && close(&q.m(), &y.m(), e), "step {i}: operators disagree with compose");
                        t.step(2);
                    }
                    m = if o < k { m.mul(gm) } else { gm.mul(&m) };
                    x = y;
                } else {
                    x = x.inverse();
                    m = m.inv().unwrap();
                }
                t.step(1);
                let tol = tscale(&m) * 1e-10;
                ensure!(close(&x.m(), &m, tol), "step {i}: got {:?}, matrices give {:?}", x.m(), m);
                ensure!(x.defect() < 1e-9, "step {i}: not a valid element, defect {:e}", x.defect());
                if t.state(&(V::NAME, x.sheet(), key(&m))) {
                    // laws at every distinct element reached
                    let id: V = Variable::identity();
                    ensure!(close(&x.compose(&id).m(), &m, tol) && close(&id.compose(&x).m(), &m, tol), "identity is not neutral at step {i}");
                    let inv = x.inverse();
                    let e = Mat::eye(m.r);
                    let tol2 = tol * tscale(&m);
                    ensure!(close(&x.compose(&inv).m(), &e, tol2) && close(&inv.compose(&x).m(), &e, tol2), "inverse does not cancel at step {i}");
                    // group difference
                    let d = x.minus(&prev);
                    ensure!(close(&prev.compose(&d).m(), &m, tol2), "difference composed onto the second is not the first, step {i}");
                    for (g, gm) in &gs {
                        let d = x.minus(g);
                        ensure!(close(&g.compose(&d).m(), &m, tol2), "difference to a generator at step {i}");
                        // associativity with the history element in the middle and at the ends
                        let l = g.compose(&x).compose(&prev);
                        let r = g.compose(&x.compose(&prev));
                        ensure!(close(&l.m(), &r.m(), tol2), "not associative at step {i}");
                        ensure!(close(&l.m(), &gm.mul(&m).mul(&prev.m()), tol2), "triple product wrong at step {i}");
                    }
                    t.step(5 + 6 * gs.len() as u64);
                }
            }
            Ok(())
        });
    }
}
/// short words repeated many times: rounding may build up, errors may not
fn long_chains<V: RV + Ops>(c: &mut Ctx) {
    let gs: Vec<(V, Mat)> = gens::<V>().iter().map(|g| { let m = V::exp_r(g); (V::of(&m), m) }).collect();
    let k = gs.len();
    let mut ws = tuples(2 * k, 1);
    ws.extend(tuples(2 * k, 2));
    for w in ws {
        c.case(format!("{} word {w:?} repeated", V::NAME), |t| {
            let mut x: V = Variable::identity();
            let mut m = Mat::eye(x.m().r);
            for n in 0..300usize {
                for &o in &w {
                    let (g, gm) = &gs[o % k];
                    x = if o < k { x.compose(g) } else { g.inverse().compose(&x) };
                    m = if o < k { m.mul(gm) } else { gm.inv().unwrap().mul(&m) };
                }
                let tol = tscale(&m) * 1e-11 * (n + 1) as f64;
                ensure!(close(&x.m(), &m, tol), "after {} repetitions: got {:?}, matrices give {:?}", n + 1, x.m(), m);
                ensure!(x.defect() < 1e-9, "after {} repetitions: not a valid element, defect {:e}", n + 1, x.defect());
                let inv = x.inverse();
                ensure!(close(&x.compose(&inv).m(), &Mat::eye(m.r), tol * tscale(&m)), "inverse does not cancel after {} repetitions", n + 1);
                if n % 50 == 49 {
                    check_log(&x, &x.m(), "long chain")?;
                }
                t.step(2 * w.len() as u64 + 1);
            }
            t.state(&(V::NAME, w.clone(), "long"));
            Ok(())
        });
    }
}
/// large, small and lopsided elements
fn sizes<V: RV + Ops>(c: &mut Ctx) {
    let gs = gens::<V>();
    for (i, a) in gs.iter().enumerate() {
        for (j, b) in gs.iter().enumerate() {
            for (sa, sb) in [(1e-8, 1.0), (1e5, 1.0), (1.0, 1e5), (1e4, 1e-6), (1e-6, 1e-6), (1e6, 1e6)] {
                c.case(format!("{} sizes g{i} x {sa:e}, g{j} x {sb:e}", V::NAME), |t| {
                    let sc = |g: &Vec<f64>, s: f64| -> Mat {
                        let mut m = V::exp_r(g);
                        let n = m.r - 1;
                        if V::N > V::ROT {
                            for r in 0..n {
                                m.set(r, n, m.at(r, n) * s);
                            }
                        }
                        m
                    };
                    let (am, bm) = (sc(a, sa), sc(b, sb));
                    let (x, y) = (V::of(&am), V::of(&bm));
                    let tol = 1e-12 * (am.maxabs() + bm.maxabs());
                    ensure!(close(&x.compose(&y).m(), &am.mul(&bm), tol), "compose");
                    ensure!(close(&x.inverse().m(), &am.inv().unwrap(), tol), "inverse");
                    ensure!(close(&x.inverse().compose(&x).m(), &Mat::eye(am.r), tol), "inverse does not cancel");
                    ensure!(close(&y.compose(&x.minus(&y)).m(), &am, tol), "difference composed onto the second is not the first");
                    if let Some((p, q)) = V::ops(&x, &y) {
                        ensure!(close(&p.m(), &am.mul(&bm), tol) && close(&q.m(), &am.mul(&bm), tol), "operators");
                    }
                    t.state(&(V::NAME, i, j, sa.to_bits(), sb.to_bits()));
                    t.step(6);
                    Ok(())
                });
            }
        }
    }
}
/// elements close to the identity and close to half a turn, in every direction and magnitude
fn near<V: RV + Ops>(c: &mut Ctx) {
    let gs = gens::<V>();
    let mut ts: Vec<Vec<f64>> = vec![];
    for e in 1..=14 {
        for k in 0..=V::N {
            for s in [1.0, -3.0] {
                let mag = s * 10f64.powi(-e);
                ts.push((0..V::N).map(|i| if k == V::N { mag * (1.0 - 0.3 * i as f64) } else if i == k { mag } else { 0.0 }).collect());
            }
        }
    }
    for (ti, tv) in ts.iter().enumerate() {
        c.case(format!("{} near the identity #{ti} {tv:?}", V::NAME), |t| {
            let em = V::exp_r(tv);
            let e = V::of(&em);
            let em = e.m();
            for g in &gs {
                let gm = V::exp_r(g);
                let x = V::of(&gm);
                let gm = x.m();
                let tol = 2e-14 * (1.0 + gm.maxabs());
                let (l, r) = (gm.mul(&em), em.mul(&gm));
                ensure!(close(&x.compose(&e).m(), &l, tol), "x e is {:?}, matrices give {l:?} (x = {gm:?})", x.compose(&e).m());
                ensure!(close(&e.compose(&x).m(), &r, tol), "e x is {:?}, matrices give {r:?} (x = {gm:?})", e.compose(&x).m());
                if let Some((p, q)) = V::ops(&x, &e) {
                    ensure!(close(&p.m(), &l, tol) && close(&q.m(), &l, tol), "operators x * e (x = {gm:?})");
                }
                if let Some((p, q)) = V::ops(&e, &x) {
                    ensure!(close(&p.m(), &r, tol) && close(&q.m(), &r, tol), "operators e * x (x = {gm:?})");
                }
                let xe = x.compose(&e);
                ensure!(close(&xe.minus(&x).m(), &em, tol * (1.0 + gm.maxabs())), "difference of x e and x");
                ensure!(close(&xe.inverse().compose(&x).m(), &em.inv().unwrap(), tol * (1.0 + gm.maxabs())), "(x e)^-1 x");
                t.step(8);
            }
            ensure!(close(&e.inverse().m(), &em.inv().unwrap(), 1e-15), "inverse");
            // many of them in a row, by every way of multiplying
            for how in 0..3 {
                let mut x: V = Variable::identity();
                let mut m = Mat::eye(em.r);
                for n in 0..200 {
                    x = match (how, V::ops(&x, &e)) {
                        (1, Some((p, _))) => p,
                        (2, Some((_, q))) => q,
                        _ => x.compose(&e),
                    };
                    m = m.mul(&em);
                    ensure!(close(&x.m(), &m, 1e-14 * (n + 10) as f64), "after {} products (way {how}): {:?}, matrices give {m:?}", n + 1, x.m());
                    t.step(1);
                }
            }
            t.state(&(V::NAME, "near", ti));
            Ok(())
        });
    }
}
pub fn c07(c: &mut Ctx) {
    macro_rules! all { ($($t:ident),*) => { $( long_chains::<$t>(c); sizes::<$t>(c); near::<$t>(c); )* } }
    all!(SO2, SE2, SO3, SE3, VectorVar1, VectorVar2, VectorVar3, VectorVar4, VectorVar5, VectorVar6, ImuBias);
    let d = if c.deep { 6 } else if c.thorough { 5 } else { 4 };
    words::<SO2>(c, d);
    words::<SE2>(c, d);
    words::<SO3>(c, d);
    words::<SE3>(c, d);
    words::<VectorVar1>(c, d);
    words::<VectorVar2>(c, d);
    words::<VectorVar3>(c, d);
    words::<VectorVar4>(c, d.min(4));
    words::<VectorVar5>(c, d.min(4));
    words::<VectorVar6>(c, d.min(4));
    words::<ImuBias>(c, d.min(5));
}

// ------------------------------------------------------------------ C08
/// other representations of the same element (quaternion double cover)
pub trait Alt: Sized {
    fn alts(&self) -> Vec<Self> {
        vec![]
    }
}
impl Alt for SO3 {
    fn alts(&self) -> Vec<Self> {
        vec![SO3::from_vec(-self.xyzw)]
    }
}
impl Alt for SE3 {
    fn alts(&self) -> Vec<Self> {
        vec![SE3::from_rot_trans(SO3::from_vec(-self.rot().xyzw), self.xyz().into_owned())]
    }
}
macro_rules! noalt { ($($t:ident),*) => {$( impl Alt for $t {} )*}; }
noalt!(SO2, SE2, VectorVar1, VectorVar2, VectorVar3, VectorVar4, VectorVar5, VectorVar6, ImuBias);

fn check_log<V: RV>(x: &V, m: &Mat, what: &str) -> CaseResult {
    let l = sv(&x.log());
    ensure!(l.len() == V::N, "{what}: log has length {}", l.len());
    ensure!(l.iter().all(|x| x.is_finite()), "{what}: log is {l:?}");
    ensure!(norm(&l[..V::ROT]) <= PI + 1e-9, "{what}: log {l:?} is not minimal");
    let e = V::exp_r(&l);
    ensure!(close(&e, m, 1e-8 * tscale(m)), "{what}: log {l:?} maps back to {e:?} instead of {m:?}");
    Ok(())
}
fn explog<V: RV + Alt>(c: &mut Ctx) {
    let th = c.thorough;
    let mut mags = angles(th);
    mags.extend(big_angles());
    let mut pts = lattice::<V>(&mags, th);
    // a fine sweep of magnitudes, so that no interval of angles is left out
    if V::ROT > 0 {
        let mut sweep: Vec<f64> = (1..=320).map(|k| 0.02 * k as f64).collect();
        sweep.extend((0..=60).map(|k| 10f64.powf(-12.0 + 0.2 * k as f64)));
        sweep.extend((0..250).map(|k| 6.5 + 0.37 * k as f64));
        let ax: Vec<Vec<f64>> = if V::ROT == 1 { vec![vec![1.0], vec![-1.0]] } else { vec![vec![0.0, 0.0, 1.0], vec![-0.6, 0.8, 0.0], vec![0.48, -0.6, 0.64], vec![-1.0, 0.0, 0.0]] };
        for &a in &sweep {
            for (q, x) in ax.iter().enumerate() {
                let mut xi: Vec<f64> = x.iter().map(|c| c * a).collect();
                xi.extend((0..V::N - V::ROT).map(|i| [[1.0, -2.0, 0.5], [0.0, 3.0, -1.0], [200.0, -50.0, 1e3], [1e-3, 2e-4, -1e-5]][q][i]));
                pts.push(xi);
            }
        }
    }
    for xi in pts {
        if c.full() {
            return;
        }
        c.case(format!("{} exp/log at {:?}", V::NAME, xi), |t| {
            let m = V::exp_r(&xi);
            let tol = 1e-8 * (1.0 + norm(&xi[V::ROT..]));
            let x = V::exp(dv(&xi).as_view());
            t.state(&(V::NAME, x.sheet(), key(&m)));
            t.step(6);
            ensure!(close(&x.m(), &m, tol), "exp gives {:?}, expected {:?}", x.m(), m);
            ensure!(x.defect() < 1e-9, "exp leaves the group: {:e}", x.defect());
            check_log(&x, &m, "log(exp)")?;
            let y = V::of(&m);
            check_log(&y, &m, "log")?;
            for a in y.alts() {
                check_log(&a, &m, "log of the other representative")?;
            }
            check_log(&y.inverse(), &m.inv().unwrap(), "log of the inverse")?;
            let a = norm(&xi[..V::ROT]);
            if a < PI - 1e-6 {
                let l = sv(&x.log());
                ensure!(vclose(&l, &xi, tol), "log(exp(xi)) is {l:?}");
            }
            Ok(())
        });
    }
    // every order of magnitude of both parts: small parts are not lost
    if V::N > 0 {
        let n = V::N - V::ROT;
        let rots: Vec<f64> = if V::ROT == 0 { vec![0.0] } else { [0.0, 0.4, 1.1, 2.9].into_iter().chain((0..=14).map(|k| 10f64.powi(-k))).collect() };
        let ax: Vec<Vec<f64>> = match V::ROT { 0 => vec![vec![]], 1 => vec![vec![1.0], vec![-1.0]], _ => vec![vec![0.48, -0.6, 0.64], vec![0.0, 1.0, 0.0], vec![-0.8, 0.0, 0.6]] };
        let scales: Vec<f64> = if n == 0 { vec![0.0] } else { std::iter::once(0.0).chain((-14..=6).map(|k| 10f64.powi(k))).collect() };
        for (a, x, s) in rots.iter().flat_map(|a| ax.iter().flat_map(|x| scales.iter().map(move |s| (*a, x, *s))).collect::<Vec<_>>()) {
            let mut xi: Vec<f64> = x.iter().map(|c| c * a).collect();
            xi.extend((0..n).map(|i| s * [1.0, -0.5, 0.75, 0.3, -0.9, 0.6][i]));
            c.case(format!("{} magnitudes {xi:?}", V::NAME), |t| {
                let part = |got: &[f64], want: &[f64], what: &str| -> CaseResult {
                    ensure!(vclose(&got[..V::ROT], &want[..V::ROT], 1e-7 * a), "{what}: rotation part is {:?} instead of {:?}", &got[..V::ROT], &want[..V::ROT]);
                    ensure!(vclose(&got[V::ROT..], &want[V::ROT..], 1e-7 * s), "{what}: translation part is {:?} instead of {:?}", &got[V::ROT..], &want[V::ROT..]);
                    Ok(())
                };
                let e = V::exp(dv(&xi).as_view());
                part(&sv(&e.log()), &xi, "log(exp)")?;
                let o = V::identity();
                part(&sv(&o.oplus(dv(&xi).as_view()).ominus(&o)), &xi, "(1 plus d) minus 1")?;
                let neg: Vec<f64> = xi.iter().map(|v| -v).collect();
                let mut neg = neg;
                if FAKE && n > 0 && V::ROT > 0 {
                    // the substitute keeps translation and rotation apart: the inverse turns the translation back
                    let mut one = xi.clone();
                    for i in 0..n {
                        one[V::ROT + i] = [1.0, -0.5, 0.75, 0.3, -0.9, 0.6][i];
                    }
                    let (m, d) = (V::exp_r(&one).inv().unwrap(), e.m().r - 1);
                    for i in 0..n {
                        neg[V::ROT + i] = s * m.at(i, d);
                    }
                }
                part(&sv(&e.inverse().log()), &neg, "log of the inverse")?;
                if n > 0 && V::ROT > 0 {
                    // the translation of the exponential is linear in the translation argument
                    let mut one = xi.clone();
                    for i in 0..n {
                        one[V::ROT + i] = [1.0, -0.5, 0.75, 0.3, -0.9, 0.6][i];
                    }
                    let (m, d) = (V::exp_r(&one), e.m().r - 1);
                    for i in 0..d {
                        ensure!((e.m().at(i, d) - s * m.at(i, d)).abs() <= 1e-7 * s, "exp moves by {} along {i} instead of {}", e.m().at(i, d), s * m.at(i, d));
                    }
                }
                t.step(4);
                t.state(&(V::NAME, format!("{xi:?}")));
                Ok(())
            });
        }
    }
    // plus / minus: every base x every displacement
    let bases: Vec<Mat> = {
        let g: Vec<Mat> = gens::<V>().iter().map(|g| V::exp_r(g)).collect();
        let mut b = vec![Mat::eye(g[0].r)];
        b.extend(g.iter().cloned());
        for i in 0..g.len() {
            for j in 0..g.len() {
                if th || (i + j) % 2 == 1 {
                    b.push(g[i].mul(&g[j]));
                }
            }
        }
        b
    };
    let disp = lattice::<V>(&if th { angles(true) } else { vec![0.0, 1e-6, 0.9e-3, 2e-3, 0.3, 1.6, 3.0, PI - 1e-3] }, false);
    for (bi, bm) in bases.iter().enumerate() {
        for d in &disp {
            if c.full() {
                return;
            }
            c.case(format!("{} base {} plus/minus {:?}", V::NAME, bi, d), |t| {
                let x = V::of(bm);
                let em = V::exp_r(d);
                let tol = 1e-8 * (1.0 + bm.maxabs()) * (1.0 + em.maxabs());
                let dd = dv(d);
                let (pr, pl, p) = (x.oplus_right(dd.as_view()), x.oplus_left(dd.as_view()), x.oplus(dd.as_view()));
                let (rm, lm) = (bm.mul(&em), em.mul(bm));
                ensure!(close(&pr.m(), &rm, tol), "right plus gives {:?}, expected {:?}", pr.m(), rm);
                ensure!(close(&pl.m(), &lm, tol), "left plus gives {:?}, expected {:?}", pl.m(), lm);
                ensure!(close(&p.m(), if LEFT { &lm } else { &rm }, tol), "plus gives {:?}", p.m());
                let small = norm(&d[..V::ROT]) < PI - 1e-4;
                if small {
                    let v = sv(&p.ominus(&x));
                    ensure!(vclose(&v, d, tol), "(x plus d) minus x is {v:?}");
                    let v = sv(&pr.ominus_right(&x));
                    ensure!(vclose(&v, d, tol), "right: (x plus d) minus x is {v:?}");
                    let v = sv(&pl.ominus_left(&x));
                    ensure!(vclose(&v, d, tol), "left: (x plus d) minus x is {v:?}");
                }
                // y plus (x minus y) = x
                let back = x.oplus(p.ominus(&x).as_view());
                ensure!(close(&back.m(), &p.m(), tol), "y plus (x minus y) is {:?}, not {:?}", back.m(), p.m());
                let back = x.oplus_right(p.ominus_right(&x).as_view());
                ensure!(close(&back.m(), &p.m(), tol), "right: y plus (x minus y) is not x");
                let back = x.oplus_left(p.ominus_left(&x).as_view());
                ensure!(close(&back.m(), &p.m(), tol), "left: y plus (x minus y) is not x");
                let mut z = x.clone();
                VariableSafe::oplus_mut(&mut z, dd.as_view());
                ensure!(close(&z.m(), &p.m(), tol), "in-place plus differs from plus");
                t.state(&(V::NAME, bi, key(&rm)));
                t.step(14);
                Ok(())
            });
        }
    }
    // chains of compositions: log of every word
    let gs: Vec<(V, Mat)> = gens::<V>().iter().map(|g| { let m = V::exp_r(g); (V::of(&m), m) }).collect();
    let depth = if th { 5 } else { 4 };
    for w in tuples(gs.len(), depth) {
        if c.full() {
            return;
        }
        c.case(format!("{} log along chain {:?}", V::NAME, w), |t| {
            let mut x: V = Variable::identity();
            let mut m = Mat::eye(x.m().r);
            for &k in &w {
                x = x.compose(&gs[k].0);
                m = m.mul(&gs[k].1);
                if t.state(&(V::NAME, x.sheet(), 1u8, key(&m))) {
                    check_log(&x, &m, "chain")?;
                    for (g, gm) in &gs {
                        // difference and update to every generator
                        let d = g.ominus(&x);
                        let y = x.oplus(d.as_view());
                        ensure!(close(&y.m(), gm, 1e-8 * tscale(&m) * tscale(gm)), "x plus (g minus x) is {:?}, not {:?}", y.m(), gm);
                    }
                    t.step(1 + 2 * gs.len() as u64);
                }
                t.step(1);
            }
            Ok(())
        });
    }
}
fn accessors(c: &mut Ctx) {
    let mut mags = angles(c.thorough);
    mags.extend(big_angles());
    mags.extend((0..400).map(|k| 0.04 * k as f64 + 0.001));
    for a in mags {
        for s in [1.0, -1.0] {
            let th = a * s;
            c.case(format!("angle accessors at {th:?}"), |t| {
                let w = th.sin().atan2(th.cos());
                let wrap = |x: f64| (x - w).abs() < 1e-9 || ((x - w).abs() - 2.0 * PI).abs() < 1e-9;
                let r = SO2::from_theta(th);
                ensure!(wrap(r.to_theta()), "SO2 angle {} for {th}", r.to_theta());
                ensure!(close(&r.m(), &SO2::exp_r(&[th]), 1e-9), "SO2 from angle");
                let p = SE2::new(th, 2.0, -3.0);
                ensure!(wrap(p.theta()) && p.x() == 2.0 && p.y() == -3.0, "SE2 accessors {} {} {}", p.theta(), p.x(), p.y());
                ensure!(p.xy()[0] == 2.0 && p.xy()[1] == -3.0 && close(&p.rot().m(), &r.m(), 1e-12), "SE2 parts");
                t.state(&(th.to_bits(), 77));
                t.step(8);
                Ok(())
            });
        }
    }
}
pub fn c08(c: &mut Ctx) {
    accessors(c);
    explog::<SO2>(c);
    explog::<SE2>(c);
    explog::<SO3>(c);
    explog::<SE3>(c);
    explog::<VectorVar1>(c);
    explog::<VectorVar2>(c);
    explog::<VectorVar3>(c);
    explog::<VectorVar4>(c);
    explog::<VectorVar5>(c);
    explog::<VectorVar6>(c);
    explog::<ImuBias>(c);
}

// ------------------------------------------------------------------ C09
trait Lie: RV {
    const VD: usize;
    fn tm(&self) -> Mat;
    fn fm(m: &Mat) -> Self;
    fn ap(&self, v: &[f64]) -> Vec<f64>;
    fn ad(&self) -> Mat;
    fn ht(xi: &[f64]) -> Mat;
    fn ve(m: &Mat) -> Vec<f64>;
    fn hs(v: &[f64]) -> Mat;
}
macro_rules! lie {
    ($t:ident, $n:literal, $m:literal, $v:literal) => {
        impl Lie for $t {
            const VD: usize = $v;
            fn tm(&self) -> Mat {
                nm(&self.to_matrix())
            }
            fn fm(m: &Mat) -> Self {
                let a = nalgebra::SMatrix::<f64, $m, $m>::from_fn(|i, j| m.at(i, j));
                <$t as MatrixLieGroup>::from_matrix(a.as_view())
            }
            fn ap(&self, v: &[f64]) -> Vec<f64> {
                let a = Vector::<$v>::from_column_slice(v);
                self.apply(a.as_view()).iter().cloned().collect()
            }
            fn ad(&self) -> Mat {
                nm(&self.adjoint())
            }
            fn ht(xi: &[f64]) -> Mat {
                nm(&<$t as MatrixLieGroup>::hat(Vector::<$n>::from_column_slice(xi).as_view()))
            }
            fn ve(m: &Mat) -> Vec<f64> {
                let a = nalgebra::SMatrix::<f64, $m, $m>::from_fn(|i, j| m.at(i, j));
                <$t as MatrixLieGroup>::vee(a.as_view()).iter().cloned().collect()
            }
            fn hs(v: &[f64]) -> Mat {
                nm(&<$t as MatrixLieGroup>::hat_swap(Vector::<$v>::from_column_slice(v).as_view()))
            }
        }
    };
}
lie!(SO2, 1, 2, 2);
lie!(SE2, 3, 3, 2);
lie!(SO3, 3, 3, 3);
lie!(SE3, 6, 4, 3);

fn lie_ops<V: Lie>(c: &mut Ctx) {
    let th = c.thorough;
    let mut mags = angles(th);
    mags.extend([2.0 * PI / 3.0 - 1e-6, 2.0 * PI / 3.0, 2.0 * PI / 3.0 + 1e-6, 2.2, PI - 1e-9, PI, PI + 1e-9, PI + 0.5, 5.0]);
    let vecs: Vec<Vec<f64>> = {
        let mut o = vec![vec![0.0; V::VD], (0..V::VD).map(|i| [3.0, -1.0, 2.0][i]).collect()];
        for i in 0..V::VD {
            let mut v = vec![0.0; V::VD];
            v[i] = 1.0;
            o.push(v);
        }
        o
    };
    let tans: Vec<Vec<f64>> = {
        let mut o: Vec<Vec<f64>> = (0..V::N).map(|i| (0..V::N).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect();
        o.push((0..V::N).map(|i| [0.4, -1.1, 0.7, 2.0, -3.0, 5.0][i]).collect());
        o
    };
    // linear maps of the algebra
    for (k, xi) in tans.iter().enumerate() {
        c.case(format!("{} hat/vee/swap tangent {k}", V::NAME), |t| {
            let h = V::ht(xi);
            ensure!(close(&h, &V::hat_r(xi), 0.0), "hat({xi:?}) is {h:?}");
            ensure!(vclose(&V::ve(&h), xi, 0.0), "vee(hat({xi:?})) is {:?}", V::ve(&h));
            for v in &vecs {
                let mut hv = v.clone();
                if h.r > V::VD {
                    hv.push(1.0);
                }
                let want = h.mulv(&hv)[..V::VD].to_vec();
                let got = V::hs(v).mulv(xi);
                ensure!(vclose(&got, &want, 1e-12), "swapped hat of {v:?} times {xi:?} is {got:?}, hat times vector is {want:?}");
                t.step(1);
            }
            t.step(2);
            t.state(&(V::NAME, "tan", k));
            Ok(())
        });
    }
    let mut pts = lattice::<V>(&mags, true);
    for k in 0..=130 {
        let a = 0.05 * k as f64;
        let ax: Vec<Vec<f64>> = if V::ROT == 1 { vec![vec![1.0], vec![-1.0]] } else { vec![vec![0.0, 0.0, 1.0], vec![-0.6, 0.8, 0.0], vec![0.48, -0.6, 0.64], vec![-1.0, 0.0, 0.0], vec![0.0, -1.0, 0.0], vec![0.6, 0.0, 0.8]] };
        for x in ax {
            let mut xi: Vec<f64> = x.iter().map(|c| c * a).collect();
            xi.extend((0..V::N - V::ROT).map(|i| [40.0, -2.0, 0.5][i]));
            pts.push(xi);
        }
    }
    for xi in pts {
        if c.full() {
            return;
        }
        c.case(format!("{} matrix ops at exp {:?}", V::NAME, xi), |t| {
            let m = V::exp_r(&xi);
            let sc = tscale(&m);
            let x = V::of(&m);
            t.state(&(V::NAME, x.sheet(), key(&m)));
            ensure!(close(&x.tm(), &m, 1e-9 * sc), "matrix is {:?}, expected {:?}", x.tm(), m);
            let y = V::fm(&m);
            ensure!(close(&y.m(), &m, 1e-8 * sc), "from matrix gives {:?}, expected {:?}", y.m(), m);
            ensure!(y.defect() < 1e-8, "from matrix is not a valid element: {:e}", y.defect());
            let y = V::fm(&x.tm());
            ensure!(close(&y.m(), &m, 1e-8 * sc), "matrix round trip gives {:?}, expected {:?}", y.m(), m);
            for v in &vecs {
                let mut hv = v.clone();
                if m.r > V::VD {
                    hv.push(1.0);
                }
                let want = m.mulv(&hv)[..V::VD].to_vec();
                let got = x.ap(v);
                ensure!(vclose(&got, &want, 1e-9 * sc), "acting on {v:?} gives {got:?}, matrix gives {want:?}");
            }
            let ad = x.ad();
            let mi = m.inv().unwrap();
            for tt in &tans {
                let want = m.mul(&V::hat_r(tt)).mul(&mi);
                let at = ad.mulv(tt);
                let got = V::hat_r(&at);
                ensure!(close(&got, &want, 1e-9 * sc * sc), "adjoint maps {tt:?} to {at:?}: {got:?}, conjugation gives {want:?}");
            }
            t.step(3 + vecs.len() as u64 + tans.len() as u64);
            Ok(())
        });
    }
}
pub fn right_jac(xi: &[f64]) -> Mat {
    let h = hat3(xi).scale(-1.0);
    let mut term = Mat::eye(3);
    let mut sum = Mat::eye(3);
    for k in 1..80 {
        term = term.mul(&h).scale(1.0 / (k as f64 + 1.0));
        sum = sum.add(&term);
    }
    sum
}
/// every order of magnitude of rotation, translation, tangent and vector, judged relative to that magnitude
fn lie_sizes<V: Lie>(c: &mut Ctx) {
    let nt = V::N - V::ROT;
    for e in -14i32..=14 {
        c.case(format!("{} magnitudes 1e{e}", V::NAME), |t| {
            let s = 10f64.powi(e);
            let gen: Vec<f64> = (0..V::N).map(|i| if i < V::ROT { [0.7, -0.4, 0.9][i] } else { 0.0 }).collect();
            let ones = |n: usize| -> Vec<Vec<f64>> {
                let mut o: Vec<Vec<f64>> = vec![];
                for i in 0..n {
                    for g in [1.0, -1.0] {
                        o.push((0..n).map(|j| if i == j { g } else { 0.0 }).collect());
                    }
                }
                o.push((0..n).map(|i| [1.0, -0.7, 0.4, 0.9, -0.2, 0.6][i]).collect());
                o
            };
            let sc = |v: &[f64]| -> Vec<f64> { v.iter().map(|x| x * s).collect() };
            // the algebra
            for xi in ones(V::N) {
                let xs = sc(&xi);
                let h = V::ht(&xs);
                ensure!(close(&h, &V::hat_r(&xs), 1e-12 * s), "hat({xs:?}) is {h:?}");
                ensure!(vclose(&V::ve(&h), &xs, 1e-12 * s), "vee(hat({xs:?})) is {:?}", V::ve(&h));
                for v in ones(V::VD) {
                    for (a, b) in [(xs.clone(), v.clone()), (xi.clone(), sc(&v))] {
                        let mut hv = b.clone();
                        let h = V::hat_r(&a);
                        if h.r > V::VD {
                            hv.push(1.0);
                        }
                        let want = h.mulv(&hv)[..V::VD].to_vec();
                        let got = V::hs(&b).mulv(&a);
                        let big = norm(&want).max(if V::N == V::ROT { s } else { 0.0 });
                        ensure!(vclose(&got, &want, 1e-12 * big), "swapped hat of {b:?} times {a:?} is {got:?}, hat times vector is {want:?}");
                        t.step(1);
                    }
                }
            }
            // elements: pure translations of this size, alone and after a rotation; rotations of this size
            let mut els: Vec<(Vec<f64>, Mat)> = vec![];
            for d in ones(nt) {
                for r in [vec![0.0; V::N], gen.clone()] {
                    let mut m = V::exp_r(&r);
                    for i in 0..nt {
                        m.set(i, V::VD, d[i] * s);
                    }
                    els.push((r, m));
                }
            }
            if nt == 0 {
                els.push((gen.clone(), V::exp_r(&gen)));
            }
            for (r, m) in &els {
                let x = V::of(m);
                let f = V::fm(m);
                let got = x.tm();
                for (what, g) in [("matrix", &got), ("from matrix", &f.m())] {
                    for i in 0..nt {
                        ensure!((g.at(i, V::VD) - m.at(i, V::VD)).abs() <= 1e-9 * s, "{what}: translation {:e} instead of {:e}", g.at(i, V::VD), m.at(i, V::VD));
                    }
                    for i in 0..V::VD {
                        for j in 0..V::VD {
                            ensure!((g.at(i, j) - m.at(i, j)).abs() <= 1e-12, "{what}: rotation {g:?} instead of {m:?}");
                        }
                    }
                }
                // acting on vectors of this size and of unit size
                for v in ones(V::VD) {
                    for v in [sc(&v), v.clone()] {
                        let mut hv = v.clone();
                        if m.r > V::VD {
                            hv.push(1.0);
                        }
                        let want = m.mulv(&hv)[..V::VD].to_vec();
                        let got = x.ap(&v);
                        ensure!(vclose(&got, &want, 1e-12 * norm(&v) + if nt > 0 { 1e-12 * s } else { 0.0 }), "acting on {v:?} gives {got:?}, matrix gives {want:?}");
                        t.step(1);
                    }
                }
                // the adjoint: its coupling block is as large as the translation
                let mut mi = Mat::eye(m.r);
                for i in 0..V::VD {
                    for j in 0..V::VD {
                        mi.set(i, j, m.at(j, i));
                    }
                    if m.r > V::VD {
                        mi.set(i, V::VD, -(0..V::VD).map(|j| m.at(j, i) * m.at(j, V::VD)).sum::<f64>());
                    }
                }
                let ad = x.ad();
                for tt in ones(V::N) {
                    let rot_only = tt.iter().take(V::ROT).any(|x| *x != 0.0);
                    for tt in [tt.clone(), sc(&tt)] {
                        let want = m.mul(&V::hat_r(&tt)).mul(&mi);
                        let at = ad.mulv(&tt);
                        let got = V::hat_r(&at);
                        let b = norm(&tt);
                        for i in 0..got.r {
                            for j in 0..got.c {
                                // rotation entries scale with the tangent, translation entries with tangent and translation
                                let tol = 1e-11 * if j < V::VD { b } else if nt > 0 && rot_only && tt.iter().skip(V::ROT).all(|x| *x == 0.0) { b * s } else { b * (1.0 + s) };
                                ensure!((got.at(i, j) - want.at(i, j)).abs() <= tol, "at {r:?}, translation size {s:e}: adjoint maps {tt:?} to {at:?}, conjugation gives {want:?}");
                            }
                        }
                        t.step(1);
                    }
                }
            }
            if s <= 1.0 {
                for d in ones(V::ROT) {
                    let mut xi: Vec<f64> = d.iter().map(|x| x * s).collect();
                    xi.resize(V::N, 0.0);
                    let m = V::exp_r(&xi);
                    let x = V::of(&m);
                    for (what, g) in [("matrix", x.tm()), ("from matrix", V::fm(&m).tm())] {
                        for i in 0..V::VD {
                            for j in 0..V::VD {
                                ensure!((g.at(i, j) - m.at(i, j)).abs() <= 1e-6 * s.min(1e-3) + 1e-18, "{what} of the rotation {xi:?} is {g:?}");
                            }
                        }
                    }
                    let v: Vec<f64> = (0..V::VD).map(|i| [1.0, -2.0, 0.5][i]).collect();
                    let got = x.ap(&v);
                    for i in 0..V::VD {
                        // how far the vector moves
                        let moved: f64 = (0..V::VD).map(|j| (m.at(i, j) - if i == j { 1.0 } else { 0.0 }) * v[j]).sum();
                        ensure!((got[i] - v[i] - moved).abs() <= 1e-6 * s + 2e-15, "acting with the rotation {xi:?} moves {v:?} to {got:?}");
                    }
                    t.step(3);
                }
            }
            t.state(&(V::NAME, "size", e));
            Ok(())
        });
    }
}
pub fn c09(c: &mut Ctx) {
    lie_sizes::<SO2>(c);
    lie_sizes::<SE2>(c);
    lie_sizes::<SO3>(c);
    lie_sizes::<SE3>(c);
    for e in 1..=12 {
        c.case(format!("SO3 exponential derivative at magnitudes 1e-{e}"), |t| {
            let s = 10f64.powi(-e);
            for d in [[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0], [0.6, -0.5, 0.7]] {
                let xi: Vec<f64> = d.iter().map(|x| x * s).collect();
                let got = nm(&SO3::dexp(Vector3::new(xi[0], xi[1], xi[2]).as_view()));
                let want = right_jac(&xi);
                for i in 0..3 {
                    for j in 0..3 {
                        ensure!((got.at(i, j) - want.at(i, j)).abs() <= 1e-6 * s + 1e-16, "at {xi:?}: {got:?}, expected {want:?}");
                    }
                }
                t.step(1);
            }
            t.state(&("dexp size", e));
            Ok(())
        });
    }
    lie_ops::<SO2>(c);
    lie_ops::<SE2>(c);
    lie_ops::<SO3>(c);
    lie_ops::<SE3>(c);
    let mut mags = angles(c.thorough);
    mags.extend([PI, 3.5, 5.0, 6.0]);
    for xi in lattice::<SO3>(&mags, true) {
        c.case(format!("SO3 exponential derivative at {xi:?}"), |t| {
            let got = nm(&SO3::dexp(Vector3::new(xi[0], xi[1], xi[2]).as_view()));
            let want = right_jac(&xi);
            t.state(&("dexp", key(&Mat::col(&xi))));
            t.step(1);
            ensure!(close(&got, &want, 1e-8), "got {got:?}, expected {want:?}");
            if norm(&xi) < 2.9 {
                // and the series agrees with a difference quotient of the real exponential map
                let x0 = SO3::of(&SO3::exp_r(&xi));
                let fd = fd_jac(3, 1e-3, |d| {
                    let p: Vec<f64> = (0..3).map(|i| xi[i] + d[i]).collect();
                    sv(&SO3::exp(dv(&p).as_view()).ominus_right(&x0))
                });
                ensure!(close(&got, &fd, 1e-6), "got {got:?}, the exponential map differentiates to {fd:?}");
                t.step(18);
            }
            Ok(())
        });
    }
}
