//! Estimation problems with an independent reference (matrices and finite differences) and their execution on the library.
use crate::factors::{finish, ref_cov, Pick, KERNS};
use crate::fw::*;
use crate::kern::Kern;
use crate::refm::*;
use crate::vars::*;
use factrs::containers::{Factor, FactorBuilder, Graph, Key, Values};
use factrs::linalg::{Const, ForwardProp, Numeric, Vector2, Vector3, VectorX};
use factrs::linear::{CholeskySolver, LUSolver, LinearSolver, QRSolver};
use factrs::optimizers::*;
use factrs::residuals::*;
use factrs::variables::*;
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

pub struct Node {
    pub n: usize,
    pub name: &'static str,
    pub truth: Mat,
    pub put: fn(&mut Values, Key, &Mat),
    pub read: fn(&Values, Key) -> Option<Mat>,
    pub oplus: fn(&Mat, &[f64]) -> Mat,
    pub ominus: fn(&Mat, &Mat) -> Vec<f64>,
}
pub fn node<V: RV>(truth: Mat) -> Node {
    Node {
        n: V::N,
        name: V::NAME,
        truth,
        put: |v, k, m| {
            v.insert_unchecked(k, V::of(m));
        },
        read: |v, k| v.get_unchecked::<_, V>(k).map(|x| x.m()),
        oplus: |m, d| oplus_r::<V>(m, d),
        ominus: |x, y| ominus_r::<V>(x, y),
    }
}
pub struct Fac {
    pub nodes: Vec<usize>,
    pub res: Box<dyn Fn(&[&Mat]) -> Vec<f64>>,
    pub cov: Mat,
    pub kern: Kern,
    pub mk: Box<dyn Fn(&[Key]) -> Factor>,
    pub desc: String,
}
pub fn prior<V: RV + Pick>(i: usize, z: Mat, noise: usize, kern: usize) -> Fac {
    let z2 = z.clone();
    Fac {
        nodes: vec![i],
        res: Box::new(move |m| ominus_r::<V>(&z, m[0])),
        cov: ref_cov(noise, V::N),
        kern: KERNS[kern].1.unwrap_or(Kern::L2),
        mk: Box::new(move |k| V::prior(V::of(&z2), k[0], noise, kern)),
        desc: format!("prior({i})"),
    }
}
pub fn between<V: RV + Pick>(i: usize, j: usize, z: Mat, noise: usize, kern: usize) -> Fac {
    let z2 = z.clone();
    Fac {
        nodes: vec![i, j],
        res: Box::new(move |m| ominus_r::<V>(&m[0].mul(&z), m[1])),
        cov: ref_cov(noise, V::N),
        kern: KERNS[kern].1.unwrap_or(Kern::L2),
        mk: Box::new(move |k| V::between(V::of(&z2), k[0], k[1], noise, kern)),
        desc: format!("between({i},{j})"),
    }
}
/// user-defined residuals: a point seen from a pose
macro_rules! obs {
    ($name:ident, $pose:ident, $pt:ident, $vec:ident, $i:literal, $o:literal) => {
        #[derive(Clone, Debug)]
        pub struct $name(pub $vec);
        impl fmt::Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, stringify!($name))
            }
        }
        #[factrs::mark]
        impl Residual2 for $name {
            type Differ = ForwardProp<<Self as Residual2>::DimIn>;
            type DimIn = Const<$i>;
            type DimOut = Const<$o>;
            type V1 = $pose;
            type V2 = $pt;
            fn residual2<T: Numeric>(&self, p: $pose<T>, l: $pt<T>) -> VectorX<T> {
                let v = MatrixLieGroup::<T>::apply(&p.inverse(), l.0.as_view());
                VectorX::from_fn($o, |i, _| v[i] - T::from(self.0[i]))
            }
        }
        impl $name {
            pub fn fac(i: usize, j: usize, z: Vec<f64>, noise: usize, kern: usize) -> Fac {
                let z2 = z.clone();
                Fac {
                    nodes: vec![i, j],
                    res: Box::new(move |m| {
                        let l = <$pt as RV>::log_r(m[1]);
                        let mut h = l.clone();
                        h.push(1.0);
                        let v = m[0].inv().unwrap().mulv(&h);
                        (0..$o).map(|i| v[i] - z[i]).collect()
                    }),
                    cov: ref_cov(noise, $o),
                    kern: KERNS[kern].1.unwrap_or(Kern::L2),
                    mk: Box::new(move |k| finish::<$o>(FactorBuilder::new2_unchecked($name($vec::from_column_slice(&z2)), k[0], k[1]), noise, kern, false)),
                    desc: format!("obs({i},{j})"),
                }
            }
        }
    };
}
obs!(Obs2, SE2, VectorVar2, Vector2, 5, 2);
obs!(Obs3, SE3, VectorVar3, Vector3, 9, 3);

pub struct Prob {
    pub nodes: Vec<Node>,
    pub facs: Vec<Fac>,
}
impl Prob {
    pub fn dims(&self) -> usize {
        self.nodes.iter().map(|n| n.n).sum()
    }
    pub fn graph(&self, keys: &[Key], order: &[usize]) -> Graph {
        let mut g = Graph::new();
        for &f in order {
            let f = &self.facs[f];
            g.add_factor((f.mk)(&f.nodes.iter().map(|&i| keys[i]).collect::<Vec<_>>()));
        }
        g
    }
    pub fn values(&self, keys: &[Key], ms: &[Mat], order: &[usize]) -> Values {
        let mut v = Values::new();
        for &i in order {
            (self.nodes[i].put)(&mut v, keys[i], &ms[i]);
        }
        v
    }
    pub fn truth(&self) -> Vec<Mat> {
        self.nodes.iter().map(|n| n.truth.clone()).collect()
    }
    /// the truth moved by an offset pattern of the given size
    pub fn start(&self, k: usize, size: f64) -> Vec<Mat> {
        self.nodes
            .iter()
            .enumerate()
            .map(|(i, n)| {
                let d: Vec<f64> = (0..n.n).map(|j| size * [0.8, -1.0, 0.5, 1.0, -0.6, 0.3, -0.9][(i * 3 + j * (k + 1) + k * 2) % 7]).collect();
                (n.oplus)(&n.truth, &d)
            })
            .collect()
    }
    pub fn residual(&self, ms: &[Mat], f: &Fac) -> Vec<f64> {
        (f.res)(&f.nodes.iter().map(|&i| &ms[i]).collect::<Vec<_>>())
    }
    pub fn cost(&self, ms: &[Mat]) -> f64 {
        self.facs
            .iter()
            .map(|f| {
                let r = Mat::col(&self.residual(ms, f));
                let d2 = r.t().mul(&f.cov.inv().unwrap()).mul(&r).at(0, 0).max(0.0);
                f.kern.rho(d2.sqrt())
            })
            .sum()
    }
    pub fn moved(&self, ms: &[Mat], d: &[f64]) -> Vec<Mat> {
        let mut at = 0;
        self.nodes
            .iter()
            .zip(ms)
            .map(|(n, m)| {
                let o = (n.oplus)(m, &d[at..at + n.n]);
                at += n.n;
                o
            })
            .collect()
    }
    /// reference normal equations (H, g): the step that a weighted Gauss-Newton iteration would still take is H^-1 g
    pub fn normal(&self, ms: &[Mat]) -> (Mat, Mat) {
        let n = self.dims();
        let off: Vec<usize> = self.nodes.iter().scan(0, |a, x| { let o = *a; *a += x.n; Some(o) }).collect();
        let (mut h, mut g) = (Mat::zeros(n, n), Mat::zeros(n, 1));
        for f in &self.facs {
            let r = Mat::col(&self.residual(ms, f));
            let fd: usize = f.nodes.iter().map(|&i| self.nodes[i].n).sum();
            let j = fd_jac(fd, 1e-3, |d| {
                let mut at = 0;
                let mut mm: Vec<Mat> = vec![];
                for &i in &f.nodes {
                    let k = self.nodes[i].n;
                    mm.push((self.nodes[i].oplus)(&ms[i], &d[at..at + k]));
                    at += k;
                }
                (f.res)(&mm.iter().collect::<Vec<_>>())
            });
            let inf = f.cov.inv().unwrap();
            let d2 = r.t().mul(&inf).mul(&r).at(0, 0).max(0.0);
            let w = f.kern.w(d2.sqrt().max(1e-12));
            let hf = j.t().mul(&inf).mul(&j).scale(w);
            let gf = j.t().mul(&inf).mul(&r).scale(-w);
            let cols: Vec<usize> = f.nodes.iter().flat_map(|&i| (0..self.nodes[i].n).map(move |k| (i, k))).map(|(i, k)| off[i] + k).collect();
            for (a, &ca) in cols.iter().enumerate() {
                g.add_at(ca, 0, gf.at(a, 0));
                for (b, &cb) in cols.iter().enumerate() {
                    h.add_at(ca, cb, hf.at(a, b));
                }
            }
        }
        (h, g)
    }
    pub fn step(&self, ms: &[Mat]) -> Option<Vec<f64>> {
        let (h, g) = self.normal(ms);
        h.solve(&g).map(|x| x.d)
    }
    /// keys of the problem, by naming scheme
    pub fn keys(&self, scheme: usize) -> Vec<Key> {
        (0..self.nodes.len())
            .map(|i| match scheme {
                0 => factrs::symbols::X(i as u64).into(),
                1 => factrs::symbols::L((10 - i) as u64).into(),
                _ => match i % 3 {
                    0 => factrs::symbols::B(7 + i as u64).into(),
                    1 => factrs::symbols::A(7 + i as u64).into(),
                    _ => factrs::symbols::X(i as u64 * 1000).into(),
                },
            })
            .collect()
    }
    pub fn read(&self, keys: &[Key], v: &Values) -> Result<Vec<Mat>, String> {
        self.read_from(keys, v, 0)
    }
    pub fn read_from(&self, keys: &[Key], v: &Values, extra: usize) -> Result<Vec<Mat>, String> {
        if v.len() != keys.len() + extra {
            return Err(format!("result holds {} variables, {} were passed in", v.len(), keys.len() + extra));
        }
        self.nodes.iter().zip(keys).map(|(n, k)| (n.read)(v, *k).ok_or_else(|| format!("variable {k:?} is missing from the result or changed type"))).collect()
    }
    /// distance between two assignments, in tangent space
    pub fn dist(&self, a: &[Mat], b: &[Mat]) -> f64 {
        self.nodes.iter().zip(a.iter().zip(b)).map(|(n, (x, y))| (n.ominus)(x, y).iter().fold(0.0f64, |m, e| if e.is_nan() { f64::INFINITY } else { m.max(e.abs()) })).fold(0.0, f64::max)
    }
    pub fn orders(&self, keys: &[Key], ms: &[Mat]) -> Vec<Values> {
        let n = keys.len();
        all_orders(n, 4000, || self.values(keys, ms, &(0..n).collect::<Vec<_>>()), |v| v.iter().map(|(k, _)| k.0).collect())
    }
}

// ---------------------------------------------------------------- running the optimisers
pub const SOLVERS: [&str; 3] = ["Cholesky", "QR", "LU"];
pub const OPTS: [&str; 3] = ["GN", "LM", "LM-identity"];
/// an optimiser with any solver behind one face
pub enum Any<S: LinearSolver> {
    G(GaussNewton<S>),
    L(LevenMarquardt<S>),
}
impl<S: LinearSolver> Any<S> {
    pub fn new(kind: usize, g: Graph, p: &OptParams) -> Self {
        match kind {
            0 => {
                let mut o = GaussNewton::<S>::new(g);
                o.params = p.clone();
                Any::G(o)
            }
            k => {
                let mut o = LevenMarquardt::<S>::new(g);
                o.params_base = p.clone();
                o.params_leven.diagonal_damping = k == 1;
                Any::L(o)
            }
        }
    }
    pub fn optimize(&mut self, v: Values) -> OptResult<Values> {
        match self {
            Any::G(o) => o.optimize(v),
            Any::L(o) => o.optimize(v),
        }
    }
    pub fn params(&mut self) -> &mut OptParams {
        match self {
            Any::G(o) => &mut o.params,
            Any::L(o) => &mut o.params_base,
        }
    }
    pub fn graph(&self) -> &Graph {
        match self {
            Any::G(o) => o.graph(),
            Any::L(o) => o.graph(),
        }
    }
    pub fn observe(&mut self, ob: impl OptObserver<Input = Values> + 'static) {
        match self {
            Any::G(o) => o.observers.add(ob),
            Any::L(o) => o.observers.add(ob),
        }
    }
}
/// the values an optimiser last notified its observers of
#[derive(Clone, Default)]
pub struct Last(pub Rc<RefCell<Option<Values>>>);
impl OptObserver for Last {
    type Input = Values;
    fn on_step(&self, values: &Values, _time: f64) {
        *self.0.borrow_mut() = Some(values.clone());
    }
}
pub fn run_opt(kind: usize, solver: usize, g: Graph, p: &OptParams, v: Values) -> (OptResult<Values>, Option<Values>) {
    fn go<S: LinearSolver>(kind: usize, g: Graph, p: &OptParams, v: Values) -> (OptResult<Values>, Option<Values>) {
        let mut o = Any::<S>::new(kind, g, p);
        let last = Last::default();
        o.observe(last.clone());
        let r = o.optimize(v);
        let l = last.0.borrow().clone();
        (r, l)
    }
    match solver {
        0 => go::<CholeskySolver>(kind, g, p, v),
        1 => go::<QRSolver>(kind, g, p, v),
        _ => go::<LUSolver>(kind, g, p, v),
    }
}
pub fn tight() -> OptParams {
    OptParams { max_iterations: 200, error_tol_relative: 1e-10, error_tol_absolute: 1e-12, error_tol: 1e-18 }
}

// ---------------------------------------------------------------- topologies
#[derive(Clone, Debug)]
pub struct Topo {
    pub n: usize,
    pub priors: Vec<usize>,
    pub edges: Vec<(usize, usize)>,
}
impl Topo {
    pub fn well_posed(&self) -> bool {
        let mut ok: Vec<bool> = (0..self.n).map(|i| self.priors.contains(&i)).collect();
        for _ in 0..self.n {
            for &(a, b) in &self.edges {
                if ok[a] || ok[b] {
                    ok[a] = true;
                    ok[b] = true;
                }
            }
        }
        ok.iter().all(|x| *x)
    }
    /// every labelled topology on n nodes: prior sets x edge sets (edge direction alternates with the mask)
    pub fn all(n: usize) -> Vec<Topo> {
        let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..i).map(move |j| (j, i))).collect();
        let mut o = vec![];
        for p in 1..1 << n {
            for e in 0..1usize << pairs.len() {
                let t = Topo {
                    n,
                    priors: (0..n).filter(|i| p >> i & 1 == 1).collect(),
                    edges: pairs.iter().enumerate().filter(|(k, _)| e >> k & 1 == 1).map(|(k, &(a, b))| if (e ^ p ^ k) & 1 == 0 { (a, b) } else { (b, a) }).collect(),
                };
                if t.well_posed() {
                    o.push(t);
                }
            }
        }
        o
    }
}
pub fn truth_of<V: RV>(i: usize) -> Mat {
    let g = gens::<V>();
    let a: Vec<f64> = g[i % g.len()].iter().map(|x| x * 0.4).collect();
    let b: Vec<f64> = g[(i + 3) % g.len()].iter().map(|x| x * 0.3).collect();
    V::exp_r(&a).mul(&V::exp_r(&b))
}
fn bump<V: RV>(k: usize, s: f64) -> Mat {
    V::exp_r(&(0..V::N).map(|j| s * [1.0, -0.5, 0.7, -1.0, 0.2][(k * 2 + j) % 5]).collect::<Vec<_>>())
}
/// `err`: size of the inconsistency of the measurements; `noise`: 0..=4 fixed kind, 9 = a different one per factor
pub fn pose_prob<V: RV + Pick>(t: &Topo, err: f64, noise: usize, kern: usize, dup: bool) -> Prob {
    let truth: Vec<Mat> = (0..t.n).map(|i| truth_of::<V>(i)).collect();
    let mut facs = vec![];
    for rep in 0..if dup { 2 } else { 1 } {
        for &p in &t.priors {
            let k = facs.len();
            let z = truth[p].mul(&bump::<V>(k + rep, err));
            facs.push(prior::<V>(p, z, if noise == 9 { k % 5 } else { noise }, kern));
        }
        for &(a, b) in &t.edges {
            let k = facs.len();
            let z = truth[a].inv().unwrap().mul(&truth[b]).mul(&bump::<V>(k + rep, err));
            facs.push(between::<V>(a, b, z, if noise == 9 { (k * 2 + 1) % 5 } else { noise }, kern));
        }
    }
    Prob { nodes: truth.into_iter().map(|m| node::<V>(m)).collect(), facs }
}
