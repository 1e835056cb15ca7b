//! C06 derivatives: forward mode and numerical, against finite differences of the reference matrices.
use crate::ensure;
use crate::fw::*;
use crate::refm::*;
use crate::vars::*;
use factrs::linalg::{forward_prop_derivative, numerical_derivative, Const, Diff, ForwardProp, MatrixX, Numeric, NumericalDiff, Vector, VectorX};
use factrs::variables::*;

pub const KINDS: usize = 7;
/// Generic differentiable features of a variable and the same features of its reference matrix.
pub trait Feat: RV {
    fn feat<T: Numeric>(k: usize, x: &<Self as Variable>::Alias<T>) -> Vec<T>;
    fn feat_r(k: usize, m: &Mat) -> Vec<f64>;
    fn g() -> Mat {
        Self::exp_r(&gens::<Self>()[0])
    }
    /// can this feature be differentiated at m (away from the half-turn cut of the logarithm)?
    fn smooth(k: usize, m: &Mat) -> bool {
        let cut = |m: &Mat| norm(&Self::log_r(m)[..Self::ROT]) > PI - 0.02;
        match k {
            1 | 5 => !cut(m),
            3 => !cut(&{ let i = m.inv().unwrap(); if LEFT { Self::g().mul(&i) } else { i.mul(&Self::g()) } }),
            6 => !cut(&Self::g().mul(m).mul(&Self::g())),
            _ => true,
        }
    }
}
fn v0(n: usize) -> Vec<f64> {
    [0.7, -1.3, 0.4][..n].to_vec()
}
const D4: [f64; 6] = [0.3, -0.2, 0.5, 1.0, -0.7, 0.2];
macro_rules! feat_lie {
    ($($t:ident $n:literal $v:literal $hom:literal),*) => { $(
        impl Feat for $t {
            fn feat<T: Numeric>(k: usize, x: &$t<T>) -> Vec<T> {
                let p = Vector::<$v, T>::from_fn(|i, _| T::from(v0($v)[i]));
                let g: $t<T> = <$t as Variable>::dual_convert::<T>(&Self::of(&Self::g()));
                let d = VectorX::<T>::from_fn($n, |i, _| T::from(D4[i]));
                let act = |y: &$t<T>| -> Vec<T> { MatrixLieGroup::<T>::apply(y, p.as_view()).iter().copied().collect() };
                match k {
                    0 => act(x),
                    1 => x.log().iter().copied().collect(),
                    2 => act(&x.inverse()),
                    3 => g.ominus(x).iter().copied().collect(),
                    4 => act(&g.compose(x).oplus(d.as_view())),
                    5 => { let h = x.log() * T::from(0.5); act(&<$t<T> as Variable<T>>::exp(h.as_view())) }
                    _ => g.compose(x).compose(&g).log().iter().copied().collect(),
                }
            }
            fn feat_r(k: usize, m: &Mat) -> Vec<f64> {
                let g = Self::g();
                let act = |m: &Mat| -> Vec<f64> {
                    if $hom {
                        let mut p = v0($v);
                        p.push(1.0);
                        m.mulv(&p)[..$v].to_vec()
                    } else {
                        m.mulv(&v0($v))
                    }
                };
                match k {
                    0 => act(m),
                    1 => Self::log_r(m),
                    2 => act(&m.inv().unwrap()),
                    3 => ominus_r::<Self>(&g, m),
                    4 => act(&oplus_r::<Self>(&g.mul(m), &D4[..$n])),
                    5 => act(&Self::exp_r(&Self::log_r(m).iter().map(|x| x * 0.5).collect::<Vec<_>>())),
                    _ => Self::log_r(&g.mul(m).mul(&g)),
                }
            }
        }
    )* };
}
feat_lie!(SO2 1 2 false, SE2 3 2 true, SO3 3 3 false, SE3 6 3 true);
macro_rules! feat_vec {
    ($($t:ident $n:literal),*) => { $(
        impl Feat for $t {
            fn feat<T: Numeric>(k: usize, x: &$t<T>) -> Vec<T> {
                let g: $t<T> = <$t as Variable>::dual_convert::<T>(&Self::of(&Self::g()));
                let d = VectorX::<T>::from_fn($n, |i, _| T::from(D4[i]));
                let sq = |y: &$t<T>| -> Vec<T> { y.log().iter().map(|a| *a * *a + *a).collect() };
                match k {
                    0 => sq(x),
                    1 => x.log().iter().copied().collect(),
                    2 => sq(&x.inverse()),
                    3 => g.ominus(x).iter().copied().collect(),
                    4 => sq(&g.compose(x).oplus(d.as_view())),
                    5 => { let h = x.log() * T::from(0.5); sq(&<$t<T> as Variable<T>>::exp(h.as_view())) }
                    _ => sq(&g.compose(x).compose(&g)),
                }
            }
            fn feat_r(k: usize, m: &Mat) -> Vec<f64> {
                let g = Self::g();
                let sq = |m: &Mat| -> Vec<f64> { Self::log_r(m).iter().map(|a| a * a + a).collect() };
                match k {
                    0 => sq(m),
                    1 => Self::log_r(m),
                    2 => sq(&m.inv().unwrap()),
                    3 => ominus_r::<Self>(&g, m),
                    4 => sq(&oplus_r::<Self>(&g.mul(m), &D4[..$n])),
                    5 => sq(&Self::exp_r(&Self::log_r(m).iter().map(|x| x * 0.5).collect::<Vec<_>>())),
                    _ => sq(&g.mul(m).mul(&g)),
                }
            }
        }
    )* };
}
feat_vec!(VectorVar1 1, VectorVar2 2, VectorVar3 3, VectorVar4 4, VectorVar5 5, VectorVar6 6, ImuBias 6);

/// mixes the features of all arguments so that every argument enters every output differently
fn mix<T: Numeric>(fs: &[Vec<T>], out: usize) -> VectorX<T> {
    VectorX::from_fn(out, |r, _| {
        let mut s = T::from(0.1 * r as f64);
        for (i, f) in fs.iter().enumerate() {
            for (k, x) in f.iter().enumerate() {
                s += *x * T::from(0.5 + ((r * 7 + i * 3 + k * 5) % 11) as f64 * 0.25 - 1.0);
            }
        }
        // pairwise products couple the arguments
        for i in 1..fs.len() {
            s += fs[i - 1][0] * fs[i][fs[i].len() - 1] * T::from(0.3 * (r as f64 + 1.0));
        }
        s
    })
}
fn scalar<T: Numeric>(fs: &[Vec<T>]) -> T {
    let y = mix(fs, 3);
    y[0] * y[1] + y[2] * y[2] * T::from(0.25)
}
fn tol(j: &Mat) -> f64 {
    1.0 + j.maxabs()
}
pub fn pts<V: RV>(rich: bool, th: bool) -> Vec<Mat> {
    let mut xs: Vec<Vec<f64>> = vec![];
    let mags: &[f64] = if rich { if th { &[0.0, 1e-9, 1e-7, 1e-6, 0.8e-5, 1.2e-5, 1e-4, 0.9e-3, 1.1e-3, 2.2e-3, 3.1e-3, 3.3e-3, 0.01, 0.1, 0.5, 1.0, 1.6, 2.0, 2.5, 3.0, PI - 0.03, 3.3, 4.0] } else { &[0.0, 1e-7, 1e-4, 2.2e-3, 0.01, 0.5, 1.6, 2.5, 3.0] } } else { &[0.0, 1e-6, 0.7, 2.4] };
    let ax: Vec<Vec<f64>> = match V::ROT {
        0 => vec![vec![]],
        1 => vec![vec![1.0], vec![-1.0]],
        _ => if rich { axes(th) } else { vec![vec![0.48, -0.6, 0.64], vec![0.0, 0.0, 1.0]] },
    };
    for &m in mags {
        for (i, a) in ax.iter().enumerate() {
            if V::ROT > 0 && m == 0.0 && i > 0 {
                continue;
            }
            let mut x: Vec<f64> = a.iter().map(|c| c * m).collect();
            for k in 0..V::N - V::ROT {
                x.push(if m == 0.0 { 0.0 } else { [1.5, -0.5, 2.0, 0.25, -3.0, 1.0][(k + i) % 6] * if V::ROT == 0 { m } else { 1.0 } });
            }
            xs.push(x);
        }
    }
    if rich {
        // far away, and very close to the origin
        for s in [1e-6, 1e2, 1e4] {
            for a in &ax {
                let mut x: Vec<f64> = a.iter().map(|c| c * 0.9).collect();
                for k in 0..V::N - V::ROT {
                    x.push(s * [1.5, -0.5, 2.0, 0.25, -3.0, 1.0][k]);
                }
                xs.push(x);
            }
        }
    }
    xs.iter().map(|x| V::exp_r(x)).collect()
}
fn check_jac(what: &str, got: &MatrixX, want: &Mat, t: f64) -> CaseResult {
    let g = nm(got);
    ensure!(g.r == want.r && g.c == want.c, "{what} has shape {}x{} instead of {}x{}", g.r, g.c, want.r, want.c);
    for j in 0..g.c {
        // every column by its own size: a large one does not hide the others
        let col = want.block(0, j, want.r, 1).maxabs();
        for i in 0..g.r {
            ensure!((g.at(i, j) - want.at(i, j)).abs() <= t * (1.0 + col + 1e-3 * want.maxabs()), "{what} entry ({i},{j}) is {}, true derivative is {}", g.at(i, j), want.at(i, j));
        }
    }
    Ok(())
}
/// functions that are a multiple of another, arguments that enter by very different amounts
fn scaled<V: Feat, FD1: Diff, FD2: Diff>(c: &mut Ctx) {
    let ps = pts::<V>(false, false);
    for e in (-14i32..=14).step_by(if c.thorough { 1 } else { 2 }) {
        for k in [0usize, 1, 3] {
            for (pi, m) in ps.iter().enumerate() {
                c.case(format!("{} feature {k} times 1e{e} point {pi}", V::NAME), |t| {
                    if !V::smooth(k, m) {
                        return Ok(());
                    }
                    let s = 10f64.powi(e);
                    let l = if band::<V>(m) { 20.0 } else { 1.0 };
                    let x = V::of(m);
                    let y = V::of(&ps[(pi + 1) % ps.len()]);
                    let fr = |d: &[f64]| V::feat_r(k, &oplus_r::<V>(m, d));
                    let y0 = fr(&vec![0.0; V::N]);
                    let j = fd_jac(V::N, 1e-3, fr);
                    let big = j.maxabs() + norm(&y0);
                    let rel = |what: &str, got: &MatrixX, at: usize, s: f64, tl: f64, noise: f64| -> CaseResult {
                        for r in 0..j.r {
                            for q in 0..j.c {
                                let (g, w) = (got[(r, at + q)], s * j.at(r, q));
                                ensure!((g - w).abs() <= tl * l * s * big + noise, "{what} entry ({r},{q}) is {g:e}, true derivative is {w:e}");
                            }
                        }
                        Ok(())
                    };
                    // one argument
                    let r = FD1::jacobian_1(|x: V::Alias<FD1::T>| VectorX::from_vec(V::feat::<FD1::T>(k, &x).into_iter().map(|a| a * FD1::T::from(s)).collect()), &x);
                    rel("forward Jacobian", &r.diff, 0, s, TF, 0.0)?;
                    for i in 0..y0.len() {
                        ensure!((r.value[i] - s * y0[i]).abs() <= 1e-7 * s * big, "forward value {:e} instead of {:e}", r.value[i], s * y0[i]);
                    }
                    let n = NumericalDiff::<6>::jacobian_1(|x: V| VectorX::from_vec(V::feat::<f64>(k, &x).into_iter().map(|a| a * s).collect()), &x);
                    rel("numerical Jacobian", &n.diff, 0, s, TN, 0.0)?;
                    let last = y0.len() - 1;
                    let r = FD1::gradient_1(|x: V::Alias<FD1::T>| V::feat::<FD1::T>(k, &x)[last] * FD1::T::from(s), &x);
                    let n = NumericalDiff::<6>::gradient_1(|x: V| V::feat::<f64>(k, &x)[last] * s, &x);
                    for q in 0..V::N {
                        let w = s * j.at(last, q);
                        ensure!((r.diff[q] - w).abs() <= TF * l * s * big, "forward gradient entry {q} is {:e} instead of {w:e}", r.diff[q]);
                        ensure!((n.diff[q] - w).abs() <= TN * l * s * big, "numerical gradient entry {q} is {:e} instead of {w:e}", n.diff[q]);
                    }
                    // two arguments, one of them entering by this factor
                    let o = V::feat_r(k, &ps[(pi + 1) % ps.len()]);
                    let noise = 1e-9 * (norm(&o) + s * norm(&y0));
                    for first in [true, false] {
                        let sum = |a: Vec<FD2::T>, b: Vec<FD2::T>| VectorX::from_vec(a.into_iter().zip(b).map(|(a, b)| a * FD2::T::from(s) + b).collect());
                        let sumr = |a: Vec<f64>, b: Vec<f64>| VectorX::from_vec(a.into_iter().zip(b).map(|(a, b)| a * s + b).collect());
                        let (r, n) = if first {
                            (
                                FD2::jacobian_2(|x: V::Alias<FD2::T>, y: V::Alias<FD2::T>| sum(V::feat::<FD2::T>(k, &x), V::feat::<FD2::T>(k, &y)), &x, &y),
                                NumericalDiff::<6>::jacobian_2(|x: V, y: V| sumr(V::feat::<f64>(k, &x), V::feat::<f64>(k, &y)), &x, &y),
                            )
                        } else {
                            (
                                FD2::jacobian_2(|y: V::Alias<FD2::T>, x: V::Alias<FD2::T>| sum(V::feat::<FD2::T>(k, &x), V::feat::<FD2::T>(k, &y)), &y, &x),
                                NumericalDiff::<6>::jacobian_2(|y: V, x: V| sumr(V::feat::<f64>(k, &x), V::feat::<f64>(k, &y)), &y, &x),
                            )
                        };
                        let at = if first { 0 } else { V::N };
                        rel("forward Jacobian of two", &r.diff, at, s, TF, 0.0)?;
                        rel("numerical Jacobian of two", &n.diff, at, s, TN, noise)?;
                    }
                    t.step(8);
                    t.state(&(V::NAME, e, k, pi));
                    Ok(())
                });
            }
        }
    }
}
fn check_val(what: &str, got: &[f64], want: &[f64], l: f64) -> CaseResult {
    let s = 1.0 + want.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    ensure!(vclose(got, want, 1e-8 * s * l), "{what} value {got:?}, function value {want:?}");
    Ok(())
}
/// tolerances: forward mode, numerical
const TF: f64 = 2e-6;
const TN: f64 = 1e-5;

fn band<V: RV>(m: &Mat) -> bool {
    let a = norm(&V::log_r(m)[..V::ROT]);
    V::ROT > 0 && a > 1e-7 && a < 4e-3
}
macro_rules! arity {
    ($fname:ident, $n:literal, $fst:ident, $( ($i:tt $v:ident $a:ident $m:ident $k:ident) ),*) => { paste::paste! {
        #[allow(non_snake_case)]
        fn $fname<$($v: Feat,)* FD: Diff>(c: &mut Ctx, names: &str, kinds: &[[usize; $n]], points: &[[usize; $n]], rich: bool)
        {
            let th = c.thorough;
            $( let $m = pts::<$v>(rich, th); )*
            for kd in kinds {
                for p in points {
                    c.case(format!("{names} features {kd:?} point {p:?}"), |t| {
                        $( let $m = &$m[p[$i] % $m.len()]; let $a = $v::of($m); )*
                        if ! ($( $v::smooth(kd[$i], $m) )&&*) { t.count("at a cut, skipped", 1); return Ok(()); }
                        let out = 4;
                        // inside the maps' own small-angle series the neglected terms are of this order
                        let l = if [$( band::<$v>($m) ),*].contains(&true) { 20.0 } else { 1.0 };
                        let f = |$($a: $v),*| -> VectorX { mix(&[$( $v::feat::<f64>(kd[$i], &$a) ),*], out) };
                        let s = |$($a: $v),*| -> f64 { scalar(&[$( $v::feat::<f64>(kd[$i], &$a) ),*]) };
                        // reference: finite differences over the reference matrices
                        let dims = [$( $v::N ),*];
                        let total: usize = dims.iter().sum();
                        let fr = |d: &[f64]| -> (Vec<f64>, f64) {
                            let mut at = 0;
                            $( let $k = $v::feat_r(kd[$i], &oplus_r::<$v>($m, &d[at..at + $v::N])); at += $v::N; )*
                            let _ = at;
                            let fs = [$( $k ),*];
                            (mix(&fs, out).iter().copied().collect(), scalar(&fs))
                        };
                        let jr = fd_jac(total, 1e-3, |d| fr(d).0);
                        let gr = fd_jac(total, 1e-3, |d| vec![fr(d).1]).t();
                        let (y, sy) = fr(&vec![0.0; total]);
                        // forward mode
                        let r = FD::[<jacobian_ $n>](|$($a: $v::Alias<FD::T>),*| mix(&[$( $v::feat::<FD::T>(kd[$i], &$a) ),*], out), $( &$a ),*);
                        check_val("forward Jacobian", r.value.as_slice(), &y, l)?;
                        check_jac("forward Jacobian", &r.diff, &jr, TF * l)?;
                        let r = FD::[<gradient_ $n>](|$($a: $v::Alias<FD::T>),*| scalar(&[$( $v::feat::<FD::T>(kd[$i], &$a) ),*]), $( &$a ),*);
                        check_val("forward gradient", &[r.value], &[sy], l)?;
                        ensure!(r.diff.len() == total && close(&nm(&r.diff), &gr, TF * l * tol(&gr)), "forward gradient is {:?}, true gradient {:?}", nm(&r.diff), gr);
                        // numerical
                        let r = NumericalDiff::<6>::[<jacobian_ $n>](f, $( &$a ),*);
                        check_val("numerical Jacobian", r.value.as_slice(), &y, l)?;
                        let rough = 1.0 + 1e-3 * y.iter().fold(0.0f64, |a, b| a.max(b.abs()));
                        check_jac("numerical Jacobian", &r.diff, &jr, TN * l * rough)?;
                        let r = NumericalDiff::<4>::[<jacobian_ $n>](f, $( &$a ),*);
                        check_jac("numerical Jacobian (step 1e-4)", &r.diff, &jr, TN * l * rough)?;
                        let r = NumericalDiff::<6>::[<gradient_ $n>](s, $( &$a ),*);
                        check_val("numerical gradient", &[r.value], &[sy], l)?;
                        ensure!(close(&nm(&r.diff), &gr, TN * l * tol(&gr)), "numerical gradient is {:?}, true gradient {:?}", nm(&r.diff), gr);
                        // variable-valued: the first argument moved by a tangent built from all features
                        let fv = |$($a: $v),*| -> V1 {
                            let d = mix(&[$( $v::feat::<f64>(kd[$i], &$a) ),*], V1::N) * 0.1;
                            $fst.oplus_right(d.as_view())
                        };
                        // numbers of this size carry this much rounding through the difference quotient
                        if y.iter().any(|x| x.abs() > 50.0) {
                            t.state(&(names, kd, p));
                            t.step(7);
                            return Ok(());
                        }
                        let m1 = [$( $m ),*][0];
                        let fvr = |d: &[f64]| -> Mat {
                            let mut at = 0;
                            $( let $k = $v::feat_r(kd[$i], &oplus_r::<$v>($m, &d[at..at + $v::N])); at += $v::N; )*
                            let _ = at;
                            let x: Vec<f64> = mix(&[$( $k ),*], V1::N).iter().map(|x| x * 0.1).collect();
                            oplus_r::<V1>(m1, &d[..V1::N]).mul(&V1::exp_r(&x))
                        };
                        let o0 = fvr(&vec![0.0; total]);
                        let jv = fd_jac(total, 1e-3, |d| ominus_r::<V1>(&fvr(d), &o0));
                        let r = NumericalDiff::<6>::[<jacobian_variable_ $n>](fv, $( &$a ),*);
                        ensure!(close(&r.value.m(), &o0, 1e-8 * l * (1.0 + o0.maxabs())), "variable-valued function value differs");
                        check_jac("variable-valued Jacobian", &r.diff, &jv, TN * 10.0 * l)?;
                        t.state(&(names, kd, p));
                        t.step(8);
                        Ok(())
                    });
                    if c.full() { return; }
                }
            }
        }
    } };
}
arity!(a1, 1, v1, (0 V1 v1 m1 k1));
arity!(a2, 2, v1, (0 V1 v1 m1 k1), (1 V2 v2 m2 k2));
arity!(a3, 3, v1, (0 V1 v1 m1 k1), (1 V2 v2 m2 k2), (2 V3 v3 m3 k3));
arity!(a4, 4, v1, (0 V1 v1 m1 k1), (1 V2 v2 m2 k2), (2 V3 v3 m3 k3), (3 V4 v4 m4 k4));
arity!(a5, 5, v1, (0 V1 v1 m1 k1), (1 V2 v2 m2 k2), (2 V3 v3 m3 k3), (3 V4 v4 m4 k4), (4 V5 v5 m5 k5));
arity!(a6, 6, v1, (0 V1 v1 m1 k1), (1 V2 v2 m2 k2), (2 V3 v3 m3 k3), (3 V4 v4 m4 k4), (4 V5 v5 m5 k5), (5 V6 v6 m6 k6));

macro_rules! one {
    ($c:ident, $kinds:expr, $($t:ident)*) => { $(
        let n = pts::<$t>(true, $c.thorough).len();
        let p: Vec<[usize; 1]> = (0..n).map(|i| [i]).collect();
        a1::<$t, ForwardProp<Const<{ <$t as RV>::N }>>>($c, stringify!($t), &$kinds, &p, true);
    )* };
}
macro_rules! two {
    ($c:ident, $kinds:expr, $pts:expr, $($a:ident $b:ident),*) => { $(
        a2::<$a, $b, ForwardProp<Const<{ <$a as RV>::N + <$b as RV>::N }>>>($c, concat!(stringify!($a), " ", stringify!($b)), &$kinds, &$pts, false);
    )* };
}
macro_rules! three {
    ($c:ident, $kinds:expr, $pts:expr, $($a:ident $b:ident $d:ident),*) => { $(
        a3::<$a, $b, $d, ForwardProp<Const<{ <$a as RV>::N + <$b as RV>::N + <$d as RV>::N }>>>($c, concat!(stringify!($a), " ", stringify!($b), " ", stringify!($d)), &$kinds, &$pts, false);
    )* };
}
fn arr<const N: usize>(v: Vec<Vec<usize>>) -> Vec<[usize; N]> {
    v.into_iter().map(|x| x.try_into().unwrap()).collect()
}
fn poly<T: Numeric>(k: usize, x: T) -> T {
    match k {
        0 => x,
        1 => x * x,
        2 => x * x * x - x * T::from(2.0) + T::from(7.0),
        3 => x.sin(),
        4 => x.cos() * x,
        5 => (x * T::from(0.5)).exp(),
        6 => T::from(3.0),
        7 => (x * x + T::from(1.0)).sqrt(),
        8 => T::from(1.0) / (x * x + T::from(2.0)),
        9 => x.sin() * (x * x) + x.cos().exp(),
        _ => x.atan(),
    }
}
fn dpoly(k: usize, x: f64) -> f64 {
    match k {
        0 => 1.0,
        1 => 2.0 * x,
        2 => 3.0 * x * x - 2.0,
        3 => x.cos(),
        4 => x.cos() - x * x.sin(),
        5 => 0.5 * (x * 0.5).exp(),
        6 => 0.0,
        7 => x / (x * x + 1.0).sqrt(),
        8 => -2.0 * x / (x * x + 2.0).powi(2),
        9 => x.cos() * x * x + 2.0 * x * x.sin() - x.sin() * x.cos().exp(),
        _ => 1.0 / (1.0 + x * x),
    }
}
pub fn c06(c: &mut Ctx) {
    let th = c.thorough;
    // scalar helpers
    for k in 0..11 {
        for x in [0.0, 1.0, -1.0, 0.5, -0.3, 2.0, -2.5, 3.7, 1e-4, -6.0] {
            c.case(format!("scalar function {k} at {x}"), |t| {
                let d = dpoly(k, x);
                let r = forward_prop_derivative(|y| poly(k, y), x);
                check_val("forward scalar", &[r.value], &[poly(k, x)], 1.0)?;
                ensure!((r.diff - d).abs() < 1e-9 * (1.0 + d.abs()), "forward derivative {} instead of {d}", r.diff);
                for e in [1e-6, 1e-5, 1e-4] {
                    let r = numerical_derivative(|y| poly(k, y), x, e);
                    check_val("numerical scalar", &[r.value], &[poly(k, x)], 1.0)?;
                    ensure!((r.diff - d).abs() < 1e-6 * (1.0 + d.abs()), "numerical derivative {} instead of {d} (step {e})", r.diff);
                    t.step(1);
                }
                t.step(1);
                t.state(&("scalar", k, x.to_bits()));
                Ok(())
            });
        }
    }
    macro_rules! sc { ($($t:ident)*) => { $( scaled::<$t, ForwardProp<Const<{ <$t as RV>::N }>>, ForwardProp<Const<{ 2 * <$t as RV>::N }>>>(c); )* } }
    sc!(SO2 SE2 SO3 SE3 VectorVar1 VectorVar3 VectorVar6 ImuBias);
    for k in 0..11 {
        for e in -14..=14 {
            c.case(format!("scalar function {k} times 1e{e}"), |t| {
                let s = 10f64.powi(e);
                for x in [0.5, -1.3, 2.0] {
                    let (d, y) = (s * dpoly(k, x), s * poly(k, x));
                    let r = forward_prop_derivative(|v| poly(k, v) * s, x);
                    ensure!((r.diff - d).abs() <= 1e-9 * d.abs() && (r.value - y).abs() <= 1e-12 * y.abs(), "forward derivative {:e} instead of {d:e}, value {:e} instead of {y:e}", r.diff, r.value);
                    let r = numerical_derivative(|v| poly(k, v) * s, x, 1e-5);
                    ensure!((r.diff - d).abs() <= 1e-6 * (d.abs() + s) && (r.value - y).abs() <= 1e-12 * y.abs(), "numerical derivative {:e} instead of {d:e}, value {:e} instead of {y:e}", r.diff, r.value);
                    t.step(2);
                }
                t.state(&("scalar scaled", k, e));
                Ok(())
            });
        }
    }
    for k in 0..11 {
        for e in -12..=12 {
            c.case(format!("scalar function {k} at points of size 1e{e}"), |t| {
                for g in [1.0, -1.0, 0.37] {
                    let x = g * 10f64.powi(e);
                    if k == 5 && x > 100.0 {
                        continue;
                    }
                    let (d, y) = (dpoly(k, x), poly(k, x));
                    let r = forward_prop_derivative(|v| poly(k, v), x);
                    // x^2 sin x and the like cancel nothing; the reciprocal loses digits to the square
                    ensure!((r.diff - d).abs() <= 1e-9 * d.abs() + 1e-15 * (1.0 + x.abs()) * y.abs() && (r.value - y).abs() <= 1e-12 * y.abs(), "at {x:e}: forward derivative {:e} instead of {d:e}, value {:e} instead of {y:e}", r.diff, r.value);
                    t.step(1);
                }
                t.state(&("scalar at", k, e));
                Ok(())
            });
        }
    }
    let k1: Vec<[usize; 1]> = (0..KINDS).map(|k| [k]).collect();
    one!(c, k1, SO2 SE2 SO3 SE3 VectorVar1 VectorVar2 VectorVar3 VectorVar4 VectorVar5 VectorVar6 ImuBias);
    // features of the arguments of multi-argument functions: every kind occurs in every position
    let k2: Vec<[usize; 2]> = if th { arr(tuples(KINDS, 2)) } else { (0..KINDS).map(|k| [k, (k + 3) % KINDS]).collect() };
    let p2: Vec<[usize; 2]> = if th { arr(tuples(7, 2)) } else { (0..7).map(|k| [k, (k * 3 + 1) % 7]).collect() };
    two!(c, k2, p2, SO2 SO2, SO2 SE2, SO2 SO3, SO2 SE3, SO2 VectorVar2, SE2 SO2, SE2 SE2, SE2 SO3, SE2 SE3, SE2 VectorVar2, SO3 SO2, SO3 SE2, SO3 SO3, SO3 SE3, SO3 VectorVar2,
        SE3 SO2, SE3 SE2, SE3 SO3, SE3 SE3, SE3 VectorVar2, VectorVar2 SO2, VectorVar2 SE2, VectorVar2 SO3, VectorVar2 SE3, VectorVar2 VectorVar2, SE3 ImuBias, VectorVar3 VectorVar1);
    let k3: Vec<[usize; 3]> = (0..KINDS).map(|k| [k, (k + 3) % KINDS, (k * 2 + 1) % KINDS]).collect();
    let p3: Vec<[usize; 3]> = if th { arr(tuples(4, 3)) } else { (0..5).map(|k| [k, (k * 3 + 1) % 7, (k * 2) % 7]).collect() };
    three!(c, k3, p3, SE2 SE2 SE2, SE2 SE2 SO3, SE2 SE2 VectorVar1, SE2 SO3 SE2, SE2 SO3 SO3, SE2 SO3 VectorVar1, SE2 VectorVar1 SE2, SE2 VectorVar1 SO3, SE2 VectorVar1 VectorVar1,
        SO3 SE2 SE2, SO3 SE2 SO3, SO3 SE2 VectorVar1, SO3 SO3 SE2, SO3 SO3 SO3, SO3 SO3 VectorVar1, SO3 VectorVar1 SE2, SO3 VectorVar1 SO3, SO3 VectorVar1 VectorVar1,
        VectorVar1 SE2 SE2, VectorVar1 SE2 SO3, VectorVar1 SE2 VectorVar1, VectorVar1 SO3 SE2, VectorVar1 SO3 SO3, VectorVar1 SO3 VectorVar1, VectorVar1 VectorVar1 SE2, VectorVar1 VectorVar1 SO3, VectorVar1 VectorVar1 VectorVar1);
    let k4: Vec<[usize; 4]> = (0..KINDS).map(|k| [k, (k + 3) % KINDS, (k * 2 + 1) % KINDS, (k + 5) % KINDS]).collect();
    let p4: Vec<[usize; 4]> = if th { arr(tuples(3, 4)) } else { (0..4).map(|k| [k, k + 2, k + 4, k + 1]).collect() };
    a4::<SO2, SE2, VectorVar1, SO3, ForwardProp<Const<8>>>(c, "SO2 SE2 VectorVar1 SO3", &k4, &p4, false);
    a4::<SO3, VectorVar3, SO2, SO2, ForwardProp<Const<8>>>(c, "SO3 VectorVar3 SO2 SO2", &k4, &p4, false);
    a4::<VectorVar1, SO2, SE3, SE2, ForwardProp<Const<11>>>(c, "VectorVar1 SO2 SE3 SE2", &k4, &p4, false);
    let k5: Vec<[usize; 5]> = (0..KINDS).map(|k| [k, (k + 3) % KINDS, (k * 2 + 1) % KINDS, (k + 5) % KINDS, (k * 3) % KINDS]).collect();
    let p5: Vec<[usize; 5]> = if th { arr(tuples(2, 5)).into_iter().map(|x: [usize; 5]| x.map(|k| k * 2 + 1)).collect() } else { (0..3).map(|k| [k, k + 2, k + 4, k + 1, k + 3]).collect() };
    a5::<SO2, VectorVar2, SE2, SO2, SO3, ForwardProp<Const<10>>>(c, "SO2 VectorVar2 SE2 SO2 SO3", &k5, &p5, false);
    a5::<SE3, VectorVar1, SO2, SE2, VectorVar3, ForwardProp<Const<14>>>(c, "SE3 VectorVar1 SO2 SE2 VectorVar3", &k5, &p5, false);
    let k6: Vec<[usize; 6]> = (0..KINDS).map(|k| [k, (k + 3) % KINDS, (k * 2 + 1) % KINDS, (k + 5) % KINDS, (k * 3) % KINDS, (k * 4 + 2) % KINDS]).collect();
    let p6: Vec<[usize; 6]> = if th { arr(tuples(2, 6)).into_iter().map(|x: [usize; 6]| x.map(|k| k * 2 + 1)).collect() } else { (0..3).map(|k| [k, k + 2, k + 4, k + 1, k + 3, k]).collect() };
    a6::<SO2, VectorVar1, SE2, VectorVar2, SO2, SO3, ForwardProp<Const<11>>>(c, "SO2 VectorVar1 SE2 VectorVar2 SO2 SO3", &k6, &p6, false);
    a6::<SE3, VectorVar3, ImuBias, SE3, VectorVar3, ImuBias, ForwardProp<Const<30>>>(c, "SE3 VectorVar3 ImuBias SE3 VectorVar3 ImuBias", &k6, &p6, false);
}
