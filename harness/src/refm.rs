//! Independent dense reference linear algebra (no nalgebra / faer).
use std::fmt;
#[derive(Clone, PartialEq)]
pub struct Mat {
    pub r: usize,
    pub c: usize,
    pub d: Vec<f64>,
}
impl fmt::Debug for Mat {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "[")?;
        for i in 0..self.r {
            for j in 0..self.c {
                write!(f, "{:.9}{}", self.at(i, j), if j + 1 < self.c { " " } else { "" })?;
            }
            if i + 1 < self.r {
                write!(f, "; ")?;
            }
        }
        write!(f, "]")
    }
}
impl Mat {
    pub fn zeros(r: usize, c: usize) -> Mat {
        Mat { r, c, d: vec![0.0; r * c] }
    }
    pub fn eye(n: usize) -> Mat {
        let mut m = Mat::zeros(n, n);
        for i in 0..n {
            m.set(i, i, 1.0);
        }
        m
    }
    pub fn from_rows(rows: &[Vec<f64>]) -> Mat {
        let (r, c) = (rows.len(), rows[0].len());
        Mat { r, c, d: rows.iter().flat_map(|x| x.iter().cloned()).collect() }
    }
    pub fn col(v: &[f64]) -> Mat {
        Mat { r: v.len(), c: 1, d: v.to_vec() }
    }
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.d[i * self.c + j]
    }
    pub fn set(&mut self, i: usize, j: usize, v: f64) {
        self.d[i * self.c + j] = v;
    }
    pub fn add_at(&mut self, i: usize, j: usize, v: f64) {
        self.d[i * self.c + j] += v;
    }
    pub fn mul(&self, o: &Mat) -> Mat {
        assert_eq!(self.c, o.r);
        let mut m = Mat::zeros(self.r, o.c);
        for i in 0..self.r {
            for k in 0..self.c {
                let a = self.at(i, k);
                if a != 0.0 {
                    for j in 0..o.c {
                        m.d[i * o.c + j] += a * o.at(k, j);
                    }
                }
            }
        }
        m
    }
    pub fn mulv(&self, v: &[f64]) -> Vec<f64> {
        assert_eq!(self.c, v.len());
        (0..self.r).map(|i| (0..self.c).map(|j| self.at(i, j) * v[j]).sum()).collect()
    }
    pub fn t(&self) -> Mat {
        let mut m = Mat::zeros(self.c, self.r);
        for i in 0..self.r {
            for j in 0..self.c {
                m.set(j, i, self.at(i, j));
            }
        }
        m
    }
    pub fn add(&self, o: &Mat) -> Mat {
        assert_eq!((self.r, self.c), (o.r, o.c));
        Mat { r: self.r, c: self.c, d: self.d.iter().zip(&o.d).map(|(a, b)| a + b).collect() }
    }
    pub fn sub(&self, o: &Mat) -> Mat {
        self.add(&o.scale(-1.0))
    }
    pub fn scale(&self, s: f64) -> Mat {
        Mat { r: self.r, c: self.c, d: self.d.iter().map(|a| a * s).collect() }
    }
    pub fn maxabs(&self) -> f64 {
        self.d.iter().fold(0.0, |m, x| if x.is_nan() { f64::NAN } else { f64::max(m, x.abs()) })
    }
    pub fn block(&self, i0: usize, j0: usize, r: usize, c: usize) -> Mat {
        let mut m = Mat::zeros(r, c);
        for i in 0..r {
            for j in 0..c {
                m.set(i, j, self.at(i0 + i, j0 + j));
            }
        }
        m
    }
    pub fn put(&mut self, i0: usize, j0: usize, b: &Mat) {
        for i in 0..b.r {
            for j in 0..b.c {
                self.set(i0 + i, j0 + j, b.at(i, j));
            }
        }
    }
    /// Solve self * X = B by Gauss elimination with full row pivoting; None if singular.
    pub fn solve(&self, b: &Mat) -> Option<Mat> {
        assert_eq!(self.r, self.c);
        let n = self.r;
        let mut a = self.clone();
        let mut x = b.clone();
        let scale = self.maxabs().max(1e-300);
        for k in 0..n {
            let p = (k..n).max_by(|&i, &j| a.at(i, k).abs().total_cmp(&a.at(j, k).abs()))?;
            if a.at(p, k).abs() < 1e-13 * scale {
                return None;
            }
            for j in 0..n {
                a.d.swap(k * n + j, p * n + j);
            }
            for j in 0..x.c {
                let c = x.c;
                x.d.swap(k * c + j, p * c + j);
            }
            for i in 0..n {
                if i != k {
                    let f = a.at(i, k) / a.at(k, k);
                    if f != 0.0 {
                        for j in k..n {
                            let v = a.at(k, j);
                            a.add_at(i, j, -f * v);
                        }
                        for j in 0..x.c {
                            let v = x.at(k, j);
                            x.add_at(i, j, -f * v);
                        }
                    }
                }
            }
        }
        for i in 0..n {
            for j in 0..x.c {
                let v = x.at(i, j) / a.at(i, i);
                x.set(i, j, v);
            }
        }
        Some(x)
    }
    pub fn inv(&self) -> Option<Mat> {
        self.solve(&Mat::eye(self.r))
    }
    pub fn det(&self) -> f64 {
        let n = self.r;
        let mut a = self.clone();
        let mut d = 1.0;
        for k in 0..n {
            let p = (k..n).max_by(|&i, &j| a.at(i, k).abs().total_cmp(&a.at(j, k).abs())).unwrap();
            if a.at(p, k) == 0.0 {
                return 0.0;
            }
            if p != k {
                d = -d;
                for j in 0..n {
                    a.d.swap(k * n + j, p * n + j);
                }
            }
            d *= a.at(k, k);
            for i in k + 1..n {
                let f = a.at(i, k) / a.at(k, k);
                for j in k..n {
                    let v = a.at(k, j);
                    a.add_at(i, j, -f * v);
                }
            }
        }
        d
    }
    /// Matrix exponential: scaling and squaring of the Taylor series.
    pub fn expm(&self) -> Mat {
        let n = self.r;
        let nrm = self.maxabs() * n as f64;
        let mut s = 0;
        while nrm / f64::powi(2.0, s) > 0.25 {
            s += 1;
        }
        let a = self.scale(f64::powi(0.5, s));
        let mut term = Mat::eye(n);
        let mut sum = Mat::eye(n);
        for k in 1..20 {
            term = term.mul(&a).scale(1.0 / k as f64);
            sum = sum.add(&term);
        }
        for _ in 0..s {
            sum = sum.mul(&sum);
        }
        sum
    }
}
pub fn close(a: &Mat, b: &Mat, tol: f64) -> bool {
    a.r == b.r && a.c == b.c && a.sub(b).maxabs() <= tol
}
pub fn vclose(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol)
}
pub fn norm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
/// Derivative of a vector function along each coordinate at 0 by a 7-point central stencil.
pub fn fd_jac(n: usize, h: f64, f: impl Fn(&[f64]) -> Vec<f64>) -> Mat {
    let m = f(&vec![0.0; n]).len();
    let mut j = Mat::zeros(m, n);
    for k in 0..n {
        let ev = |s: f64| {
            let mut x = vec![0.0; n];
            x[k] = s * h;
            f(&x)
        };
        let (p1, m1, p2, m2, p3, m3) = (ev(1.0), ev(-1.0), ev(2.0), ev(-2.0), ev(3.0), ev(-3.0));
        for i in 0..m {
            let d = (45.0 * (p1[i] - m1[i]) - 9.0 * (p2[i] - m2[i]) + (p3[i] - m3[i])) / (60.0 * h);
            j.set(i, k, d);
        }
    }
    j
}
