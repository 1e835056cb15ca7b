//! Reference view of every variable type as a matrix group, independent of the code under test.
use crate::refm::*;
use factrs::linalg::{Vector, Vector3, VectorX};
use factrs::residuals::{Accel, Gyro};
use factrs::dtype;
use factrs::traits::Variable;
use factrs::variables::*;

pub const LEFT: bool = cfg!(feature = "left");
pub const FAKE: bool = cfg!(feature = "fake_exp");
pub const PI: f64 = std::f64::consts::PI;

pub trait RV: VariableUmbrella + Clone + 'static {
    const NAME: &'static str;
    const N: usize;
    /// number of leading tangent entries that are a rotation
    const ROT: usize;
    /// read the element's reference matrix
    fn m(&self) -> Mat;
    /// build an element from a reference matrix with elementary constructors only
    fn of(m: &Mat) -> Self;
    fn hat_r(xi: &[f64]) -> Mat;
    fn exp_r(xi: &[f64]) -> Mat;
    fn log_r(m: &Mat) -> Vec<f64>;
    /// deviation from the group's manifold (unit quaternion etc.)
    fn defect(&self) -> f64 {
        0.0
    }
    /// which of several representations of the same element this is (quaternion double cover)
    fn sheet(&self) -> i8 {
        0
    }
}
pub fn oplus_r<V: RV>(m: &Mat, xi: &[f64]) -> Mat {
    if LEFT {
        V::exp_r(xi).mul(m)
    } else {
        m.mul(&V::exp_r(xi))
    }
}
pub fn ominus_r<V: RV>(x: &Mat, y: &Mat) -> Vec<f64> {
    let yi = y.inv().unwrap();
    V::log_r(&if LEFT { x.mul(&yi) } else { yi.mul(x) })
}
pub fn dv(xi: &[f64]) -> VectorX {
    VectorX::from_iterator(xi.len(), xi.iter().map(|x| *x as dtype))
}
pub fn sv(x: &VectorX) -> Vec<f64> {
    x.iter().map(|x| *x as f64).collect()
}
pub fn nm<R: nalgebra::Dim, C: nalgebra::Dim, S: nalgebra::RawStorage<dtype, R, C>>(m: &nalgebra::Matrix<dtype, R, C, S>) -> Mat {
    let mut o = Mat::zeros(m.nrows(), m.ncols());
    for i in 0..m.nrows() {
        for j in 0..m.ncols() {
            o.set(i, j, m[(i, j)] as f64);
        }
    }
    o
}

// ---- rotations
pub fn hat3(w: &[f64]) -> Mat {
    Mat::from_rows(&[vec![0.0, -w[2], w[1]], vec![w[2], 0.0, -w[0]], vec![-w[1], w[0], 0.0]])
}
pub fn quat_m(q: &[f64]) -> Mat {
    let (x, y, z, w) = (q[0], q[1], q[2], q[3]);
    Mat::from_rows(&[
        vec![w * w + x * x - y * y - z * z, 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)],
        vec![2.0 * (x * y + w * z), w * w - x * x + y * y - z * z, 2.0 * (y * z - w * x)],
        vec![2.0 * (x * z - w * y), 2.0 * (y * z + w * x), w * w - x * x - y * y + z * z],
    ])
}
pub fn log_so3(r: &Mat) -> Vec<f64> {
    let v = [(r.at(2, 1) - r.at(1, 2)) / 2.0, (r.at(0, 2) - r.at(2, 0)) / 2.0, (r.at(1, 0) - r.at(0, 1)) / 2.0];
    let s = norm(&v);
    let c = (r.at(0, 0) + r.at(1, 1) + r.at(2, 2) - 1.0) / 2.0;
    let th = s.atan2(c);
    if th < 1.0 {
        let f = if s < 1e-9 { 1.0 } else { th / s };
        return v.iter().map(|x| x * f).collect();
    }
    // aa^T = (sym(R) - cos I) / (1 - cos)
    let ct = th.cos();
    let mut best = 0;
    let aat = |i: usize, j: usize| ((r.at(i, j) + r.at(j, i)) / 2.0 - if i == j { ct } else { 0.0 }) / (1.0 - ct);
    for i in 1..3 {
        if aat(i, i) > aat(best, best) {
            best = i;
        }
    }
    let a: Vec<f64> = (0..3).map(|j| aat(best, j)).collect();
    let n = norm(&a);
    let sgn = if a.iter().zip(&v).map(|(x, y)| x * y).sum::<f64>() < 0.0 { -1.0 } else { 1.0 };
    a.iter().map(|x| x / n * sgn * th).collect()
}
pub fn q_of(r: &Mat) -> Vec<f64> {
    let w = log_so3(r);
    let th = norm(&w);
    let k = if th < 1e-12 { 0.5 } else { (th / 2.0).sin() / th };
    vec![w[0] * k, w[1] * k, w[2] * k, (th / 2.0).cos()]
}
fn hom(r: &Mat, t: &[f64]) -> Mat {
    let n = r.r;
    let mut m = Mat::eye(n + 1);
    m.put(0, 0, r);
    for i in 0..n {
        m.set(i, n, t[i]);
    }
    m
}
/// log of a rigid motion given the log of its rotation: solve V rho = t, V read off the exponential of unit motions
fn rigid_log<V: RV>(m: &Mat, w: Vec<f64>, n: usize) -> Vec<f64> {
    let t: Vec<f64> = (0..n).map(|i| m.at(i, n)).collect();
    let rho = if FAKE {
        t
    } else {
        let mut v = Mat::zeros(n, n);
        for j in 0..n {
            let mut xi = w.clone();
            xi.extend((0..n).map(|i| if i == j { 1.0 } else { 0.0 }));
            let e = V::hat_r(&xi).expm();
            for i in 0..n {
                v.set(i, j, e.at(i, n));
            }
        }
        v.solve(&Mat::col(&t)).expect("V singular").d
    };
    let mut o = w;
    o.extend(rho);
    o
}

impl RV for SO2 {
    const NAME: &'static str = "SO2";
    const N: usize = 1;
    const ROT: usize = 1;
    fn m(&self) -> Mat {
        nm(&factrs::variables::MatrixLieGroup::to_matrix(self))
    }
    fn of(m: &Mat) -> Self {
        SO2::from_theta(m.at(1, 0).atan2(m.at(0, 0)) as dtype)
    }
    fn hat_r(xi: &[f64]) -> Mat {
        Mat::from_rows(&[vec![0.0, -xi[0]], vec![xi[0], 0.0]])
    }
    fn exp_r(xi: &[f64]) -> Mat {
        Self::hat_r(xi).expm()
    }
    fn log_r(m: &Mat) -> Vec<f64> {
        vec![m.at(1, 0).atan2(m.at(0, 0))]
    }
    fn defect(&self) -> f64 {
        let m = self.m();
        (m.det() - 1.0).abs().max((m.at(0, 0) - m.at(1, 1)).abs()).max((m.at(0, 1) + m.at(1, 0)).abs())
    }
}
impl RV for SE2 {
    const NAME: &'static str = "SE2";
    const N: usize = 3;
    const ROT: usize = 1;
    fn m(&self) -> Mat {
        hom(&self.rot().m(), &[self.x() as f64, self.y() as f64])
    }
    fn of(m: &Mat) -> Self {
        SE2::new(m.at(1, 0).atan2(m.at(0, 0)) as dtype, m.at(0, 2) as dtype, m.at(1, 2) as dtype)
    }
    fn hat_r(xi: &[f64]) -> Mat {
        Mat::from_rows(&[vec![0.0, -xi[0], xi[1]], vec![xi[0], 0.0, xi[2]], vec![0.0, 0.0, 0.0]])
    }
    fn exp_r(xi: &[f64]) -> Mat {
        if FAKE {
            hom(&SO2::exp_r(&xi[0..1]), &xi[1..3])
        } else {
            Self::hat_r(xi).expm()
        }
    }
    fn log_r(m: &Mat) -> Vec<f64> {
        rigid_log::<SE2>(m, SO2::log_r(m), 2)
    }
    fn defect(&self) -> f64 {
        self.rot().defect()
    }
}
impl RV for SO3 {
    const NAME: &'static str = "SO3";
    const N: usize = 3;
    const ROT: usize = 3;
    fn m(&self) -> Mat {
        quat_m(&self.xyzw.iter().map(|x| *x as f64).collect::<Vec<_>>())
    }
    fn of(m: &Mat) -> Self {
        let q = q_of(m);
        SO3::from_xyzw(q[0] as dtype, q[1] as dtype, q[2] as dtype, q[3] as dtype)
    }
    fn hat_r(xi: &[f64]) -> Mat {
        hat3(xi)
    }
    fn exp_r(xi: &[f64]) -> Mat {
        hat3(xi).expm()
    }
    fn log_r(m: &Mat) -> Vec<f64> {
        log_so3(m)
    }
    fn defect(&self) -> f64 {
        (self.xyzw.norm() as f64 - 1.0).abs()
    }
    fn sheet(&self) -> i8 {
        if self.xyzw[3] < 0.0 { -1 } else { 1 }
    }
}
impl RV for SE3 {
    const NAME: &'static str = "SE3";
    const N: usize = 6;
    const ROT: usize = 3;
    fn m(&self) -> Mat {
        let t = self.xyz();
        hom(&self.rot().m(), &[t[0] as f64, t[1] as f64, t[2] as f64])
    }
    fn of(m: &Mat) -> Self {
        SE3::from_rot_trans(SO3::of(&m.block(0, 0, 3, 3)), Vector3::new(m.at(0, 3) as dtype, m.at(1, 3) as dtype, m.at(2, 3) as dtype))
    }
    fn hat_r(xi: &[f64]) -> Mat {
        let mut m = Mat::zeros(4, 4);
        m.put(0, 0, &hat3(xi));
        for i in 0..3 {
            m.set(i, 3, xi[3 + i]);
        }
        m
    }
    fn exp_r(xi: &[f64]) -> Mat {
        if FAKE {
            hom(&hat3(xi).expm(), &xi[3..6])
        } else {
            Self::hat_r(xi).expm()
        }
    }
    fn log_r(m: &Mat) -> Vec<f64> {
        rigid_log::<SE3>(m, log_so3(&m.block(0, 0, 3, 3)), 3)
    }
    fn defect(&self) -> f64 {
        self.rot().defect()
    }
    fn sheet(&self) -> i8 {
        self.rot().sheet()
    }
}
macro_rules! vecrv {
    ($($n:literal $t:ident),*) => {$(
        impl RV for $t {
            const NAME: &'static str = stringify!($t);
            const N: usize = $n;
            const ROT: usize = 0;
            fn m(&self) -> Mat { hom(&Mat::eye($n), &self.0.iter().map(|x| *x as f64).collect::<Vec<_>>()) }
            fn of(m: &Mat) -> Self { VectorVar(Vector::<$n>::from_fn(|i, _| m.at(i, $n) as dtype)) }
            fn hat_r(xi: &[f64]) -> Mat { let mut m = hom(&Mat::eye($n), xi); for i in 0..=$n { m.set(i, i, 0.0); } m }
            fn exp_r(xi: &[f64]) -> Mat { hom(&Mat::eye($n), xi) }
            fn log_r(m: &Mat) -> Vec<f64> { (0..$n).map(|i| m.at(i, $n)).collect() }
        }
    )*};
}
vecrv!(1 VectorVar1, 2 VectorVar2, 3 VectorVar3, 4 VectorVar4, 5 VectorVar5, 6 VectorVar6, 9 VectorVar9);
pub type VectorVar9 = VectorVar<9>;
impl RV for ImuBias {
    const NAME: &'static str = "ImuBias";
    const N: usize = 6;
    const ROT: usize = 0;
    fn m(&self) -> Mat {
        let (g, a) = (self.gyro(), self.accel());
        hom(&Mat::eye(6), &[g[0] as f64, g[1] as f64, g[2] as f64, a[0] as f64, a[1] as f64, a[2] as f64])
    }
    fn of(m: &Mat) -> Self {
        let v: Vec<dtype> = (0..6).map(|i| m.at(i, 6) as dtype).collect();
        ImuBias::new(Gyro::new(v[0], v[1], v[2]), Accel::new(v[3], v[4], v[5]))
    }
    fn hat_r(xi: &[f64]) -> Mat {
        VectorVar6::hat_r(xi)
    }
    fn exp_r(xi: &[f64]) -> Mat {
        VectorVar6::exp_r(xi)
    }
    fn log_r(m: &Mat) -> Vec<f64> {
        VectorVar6::log_r(m)
    }
}

// ---- enumerations of tangents
/// Signed rotation magnitudes at and around every branch the maps have or could have.
pub fn angles(thorough: bool) -> Vec<f64> {
    let mut a = vec![
        0.0, 1e-9, 1e-7, 3e-6, 0.9e-5, 1.1e-5, 1e-4, 0.9e-3, 1.1e-3, 2.1e-3, 3.1e-3, 3.3e-3, 0.01, 0.1, 0.7, 1.2, PI / 2.0, 1.9, 2.5, 3.0, PI - 1e-3, PI - 1e-5,
    ];
    if thorough {
        a.extend([1e-12, 1e-8, 1e-6, 1e-5, 2e-5, 3e-5, 9.9e-4, 1e-3, 1.9e-3, 2e-3, 0.0031622, 0.0031623, 0.03, 0.3, 0.5, 1.0, 1.5, PI / 3.0, 2.0, 2.2, 2.8, 3.1, PI - 1e-2, PI - 1e-4, PI - 1e-7]);
    }
    a
}
/// Magnitudes of a half turn and more (exponential only).
pub fn big_angles() -> Vec<f64> {
    vec![PI, PI + 1e-6, PI + 1e-3, 3.5, 4.5, 2.0 * PI - 1e-3, 2.0 * PI, 2.0 * PI + 1e-3, 7.0, 3.0 * PI, 10.0, 12.5, 13.0, 20.0]
}
pub fn axes(thorough: bool) -> Vec<Vec<f64>> {
    let mut o: Vec<Vec<f64>> = vec![];
    for t in crate::fw::tuples(3, 3) {
        let v: Vec<f64> = t.iter().map(|&x| x as f64 - 1.0).collect();
        let n = norm(&v);
        if n > 0.0 {
            o.push(v.iter().map(|x| x / n).collect());
        }
    }
    let extra: &[[f64; 3]] = &[[0.48, -0.6, 0.64], [0.9, 0.3, -0.316227766], [1e-3, 1.0, 2e-4]];
    for e in extra {
        let n = norm(e);
        o.push(e.iter().map(|x| x / n).collect());
    }
    if !thorough {
        // keep the coordinate axes, the diagonals and the generic ones, both signs represented
        o = o.into_iter().enumerate().filter(|(i, v)| i % 2 == 0 || v.iter().filter(|x| x.abs() > 1e-9).count() == 1 || *i >= 26).map(|(_, v)| v).collect();
    }
    o
}
/// Rotation tangents of a type (lists of length ROT) for the given magnitudes.
pub fn rots<V: RV>(mags: &[f64], thorough: bool) -> Vec<Vec<f64>> {
    match V::ROT {
        0 => vec![vec![]],
        1 => {
            let mut o = vec![];
            for &a in mags {
                o.push(vec![a]);
                if a != 0.0 {
                    o.push(vec![-a]);
                }
            }
            o
        }
        _ => {
            let mut o = vec![];
            for &a in mags {
                if a == 0.0 {
                    o.push(vec![0.0; 3]);
                    continue;
                }
                for x in axes(thorough) {
                    o.push(x.iter().map(|c| c * a).collect());
                }
            }
            o
        }
    }
}
/// Translation parts.
pub fn trans<V: RV>(thorough: bool) -> Vec<Vec<f64>> {
    let n = V::N - V::ROT;
    if n == 0 {
        return vec![vec![]];
    }
    let mut o = vec![vec![0.0; n]];
    o.push((0..n).map(|i| [1.0, -2.0, 0.5, 3.0, -0.25, 1.5][i]).collect());
    if V::ROT == 0 {
        for i in 0..n {
            for s in [1.0, -1.0, 100.0] {
                let mut v = vec![0.0; n];
                v[i] = s;
                o.push(v);
            }
        }
        o.push((0..n).map(|i| [-1e-6, 2e-6, 3e-7, -4e-8, 1e-9, 5e-6][i]).collect());
    } else {
        o.push((0..n).map(|i| [-30.0, 20.0, 70.0][i]).collect());
        if thorough {
            for i in 0..n {
                for s in [1.0, -1.0] {
                    let mut v = vec![0.0; n];
                    v[i] = s;
                    o.push(v);
                }
            }
        }
    }
    o
}
pub fn lattice<V: RV>(mags: &[f64], thorough: bool) -> Vec<Vec<f64>> {
    let mut o = vec![];
    for r in rots::<V>(mags, thorough) {
        for t in trans::<V>(thorough) {
            let mut x = r.clone();
            x.extend(&t);
            o.push(x);
        }
    }
    o
}
/// A small set of generators per type for word exploration.
pub fn gens<V: RV>() -> Vec<Vec<f64>> {
    let rot: Vec<Vec<f64>> = match V::ROT {
        0 => vec![vec![]; 4],
        1 => vec![vec![0.3], vec![-2.0], vec![PI / 2.0], vec![3e-6], vec![PI - 1e-3], vec![-0.8]],
        _ => vec![
            vec![0.3, -0.1, 0.2],
            vec![0.0, 0.0, PI / 2.0],
            vec![PI, 0.0, 0.0],
            vec![-1.0, 1.2, 0.9],
            vec![1e-4, -2e-4, 3e-4],
            vec![0.0, 2.8, 0.0],
        ],
    };
    let n = V::N - V::ROT;
    rot.into_iter()
        .enumerate()
        .map(|(k, mut r)| {
            for i in 0..n {
                r.push([[1.0, 2.0, 3.0, -1.0, 0.5, 4.0], [0.0, 0.0, 0.0, 0.0, 0.0, 0.0], [-5.0, 0.25, 0.0, 7.0, 1.0, -1.0], [0.1, -0.2, 0.3, 0.4, -0.5, 0.6], [10.0, 20.0, -30.0, 5.0, 5.0, 5.0], [0.0, 1.0, 0.0, 0.0, 0.0, 1.0]][k][i]);
            }
            r
        })
        .collect()
}
