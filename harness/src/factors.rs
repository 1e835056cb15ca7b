//! C04 assembly of the linear system, C05 cost and linearisation of factors and graphs.
use crate::ensure;
use crate::fw::*;
use crate::kern::Kern;
use crate::refm::*;
use crate::vars::*;
use factrs::assign_symbols;
use factrs::containers::{Factor, FactorBuilder, Graph, GraphOrder, Idx, Key, Values, ValuesOrder};
use factrs::linalg::{Const, DiffResult, ForwardProp, Matrix, MatrixBlock, MatrixX, Numeric, Vector, VectorX};
use factrs::linear::{LinearFactor, LinearGraph, LinearValues};
use factrs::noise::{GaussianNoise, NoiseModel, UnitNoise};
use factrs::residuals::*;
use factrs::robust::*;
use factrs::variables::*;
use std::fmt;

// ------------------------------------------------------------------ C04
/// A residual with a hand-written Jacobian: r = c + s*1, J_i = M_i + s (s: a number read from the first variable).
#[derive(Debug, Clone)]
struct Dyn<const O: usize> {
    mats: Vec<Mat>,
    c: Vec<f64>,
}
impl<const O: usize> fmt::Display for Dyn<O> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Dyn")
    }
}
/// the payload of a stored variable (small integer)
fn payload(v: &Values, k: Key) -> f64 {
    if let Some(x) = v.get_unchecked::<_, VectorVar1>(k) {
        return x.0[0];
    }
    if let Some(x) = v.get_unchecked::<_, VectorVar2>(k) {
        return x.0[0];
    }
    if let Some(x) = v.get_unchecked::<_, VectorVar3>(k) {
        return x.0[0];
    }
    v.get_unchecked::<_, SE2>(k).expect("variable missing").x()
}
impl<const O: usize> Residual for Dyn<O> {
    fn dim_in(&self) -> usize {
        self.mats.iter().map(|m| m.c).sum()
    }
    fn dim_out(&self) -> usize {
        O
    }
    fn residual(&self, values: &Values, keys: &[Key]) -> VectorX {
        let s = payload(values, keys[0]);
        VectorX::from_fn(O, |i, _| self.c[i] + s)
    }
    fn residual_jacobian(&self, values: &Values, keys: &[Key]) -> DiffResult<VectorX, MatrixX> {
        let s = payload(values, keys[0]);
        let mut j = MatrixX::zeros(O, self.dim_in());
        let mut at = 0;
        for m in &self.mats {
            for i in 0..O {
                for k in 0..m.c {
                    let e = m.at(i, k);
                    j[(i, at + k)] = if e == 0.0 { 0.0 } else { e + s };
                }
            }
            at += m.c;
        }
        DiffResult { value: self.residual(values, keys), diff: j }
    }
}
macro_rules! dummy {
    ($($n:literal: $($v:ident $a:ident),*);*) => { paste::paste! { $(
        impl<const O: usize> [<Residual $n>] for Dyn<O> {
            type Differ = ForwardProp<Const<1>>;
            type DimIn = Const<1>;
            type DimOut = Const<O>;
            $( type $v = VectorVar1; )*
            fn [<residual $n>]<T: Numeric>(&self, $($a: VectorVar1<T>),*) -> VectorX<T> {
                let _ = ($($a,)*);
                unreachable!()
            }
        }
    )* } };
}
dummy!(1: V1 a; 2: V1 a, V2 b; 3: V1 a, V2 b, V3 c; 4: V1 a, V2 b, V3 c, V4 d; 5: V1 a, V2 b, V3 c, V4 d, V5 e; 6: V1 a, V2 b, V3 c, V4 d, V5 e, V6 f);

const DIMS: [usize; 6] = [2, 1, 3, 3, 1, 2];
fn store(n: usize, pay: i32) -> Values {
    let mut v = Values::new();
    for k in 0..n {
        let p = ((k as i32 * 3 + pay * 5) % 7 - 3) as f64;
        let key = fkey(k);
        match k {
            0 | 5 => v.insert_unchecked(key, VectorVar2::new(p, 9.0)),
            1 | 4 => v.insert_unchecked(key, VectorVar1::new(p)),
            2 => v.insert_unchecked(key, VectorVar3::new(p, 1.0, 2.0)),
            _ => v.insert_unchecked(key, SE2::new(0.3, p, 4.0)),
        };
    }
    v
}
fn fkey(k: usize) -> Key {
    use factrs::symbols::{B, X};
    [X(0).into(), X(1).into(), B(0).into(), X(2).into(), Key(5), Key(u64::MAX)][k]
}
#[derive(Clone, Debug)]
struct Spec {
    keys: Vec<usize>,
    o: usize,
    tag: usize,
}
impl Spec {
    fn mats(&self) -> Vec<Mat> {
        self.keys
            .iter()
            .enumerate()
            .map(|(b, &k)| {
                let mut m = Mat::zeros(self.o, DIMS[k]);
                for i in 0..self.o {
                    for j in 0..DIMS[k] {
                        // distinct nonzero integers, with one structural zero per block of more than one entry
                        let e = (1000 * (self.tag + 1) + 100 * b + 10 * i + j + 11) as f64;
                        m.set(i, j, if (i + j + b) % 4 == 3 { 0.0 } else { e });
                    }
                }
                m
            })
            .collect()
    }
    fn c(&self) -> Vec<f64> {
        (0..self.o).map(|i| (self.tag * 7 + i * 3) as f64 - 4.0).collect()
    }
    fn factor(&self) -> Factor {
        let k: Vec<Key> = self.keys.iter().map(|&k| fkey(k)).collect();
        macro_rules! go { ($o:literal) => {{
            let r = Dyn::<$o> { mats: self.mats(), c: self.c() };
            match k.len() {
                1 => FactorBuilder::new1_unchecked(r, k[0]).build(),
                2 => FactorBuilder::new2_unchecked(r, k[0], k[1]).build(),
                3 => FactorBuilder::new3_unchecked(r, k[0], k[1], k[2]).build(),
                4 => FactorBuilder::new4_unchecked(r, k[0], k[1], k[2], k[3]).build(),
                5 => FactorBuilder::new5_unchecked(r, k[0], k[1], k[2], k[3], k[4]).build(),
                _ => FactorBuilder::new6_unchecked(r, k[0], k[1], k[2], k[3], k[4], k[5]).build(),
            }
        }}; }
        match self.o {
            1 => go!(1),
            2 => go!(2),
            3 => go!(3),
            _ => go!(4),
        }
    }
}
fn layout(perm: &[usize]) -> (ValuesOrder, Vec<usize>, usize) {
    let mut map: ahash::HashMap<Key, Idx> = Default::default();
    let mut start = vec![0; perm.len()];
    let mut at = 0;
    for &k in perm {
        map.insert(fkey(k), Idx { idx: at, dim: DIMS[k] });
        start[k] = at;
        at += DIMS[k];
    }
    (ValuesOrder::new(map), start, at)
}
fn expected(specs: &[Spec], v: &Values, start: &[usize], cols: usize) -> (Mat, Vec<f64>) {
    let rows = specs.iter().map(|s| s.o).sum();
    let mut a = Mat::zeros(rows, cols);
    let mut b = vec![];
    let mut r = 0;
    for s in specs {
        let p = payload(v, fkey(s.keys[0]));
        for (m, &k) in s.mats().iter().zip(&s.keys) {
            for i in 0..s.o {
                for j in 0..DIMS[k] {
                    let e = m.at(i, j);
                    if e != 0.0 {
                        a.add_at(r + i, start[k] + j, e + p);
                    }
                }
            }
        }
        b.extend(s.c().iter().map(|c| -(c + p)));
        r += s.o;
    }
    (a, b)
}
fn check_system(g: &LinearGraph, go: &GraphOrder, want: &(Mat, Vec<f64>)) -> CaseResult {
    let DiffResult { value, diff } = g.residual_jacobian(go);
    let (a, b) = want;
    ensure!(value.nrows() == a.r && value.ncols() == 1, "right-hand side has shape {}x{}", value.nrows(), value.ncols());
    for i in 0..a.r {
        ensure!(value.read(i, 0) == b[i], "right-hand side row {i} is {} instead of {}", value.read(i, 0), b[i]);
    }
    ensure!(diff.nrows() == a.r && diff.ncols() == a.c, "Jacobian has shape {}x{} instead of {}x{}", diff.nrows(), diff.ncols(), a.r, a.c);
    let d = diff.to_dense();
    for i in 0..a.r {
        for j in 0..a.c {
            ensure!(d.read(i, j) == a.at(i, j), "Jacobian entry ({i},{j}) is {} instead of {}", d.read(i, j), a.at(i, j));
        }
    }
    Ok(())
}
fn lin_error(a: &Mat, b: &[f64], x: &[f64]) -> f64 {
    a.mulv(x).iter().zip(b).map(|(p, q)| (p - q) * (p - q)).sum::<f64>() / 2.0
}
fn run_graph(t: &mut Tally, specs: &[Spec], n: usize, perms: &[Vec<usize>]) -> CaseResult {
    let v1 = store(n, 0);
    let v2 = store(n, 1);
    let mut g = Graph::new();
    for s in specs {
        g.add_factor(s.factor());
    }
    let (l1, l2) = (g.linearize(&v1), g.linearize(&v2));
    // the same linear factors, by hand
    let mut hand = LinearGraph::new();
    for s in specs {
        let p = payload(&v1, fkey(s.keys[0]));
        let ms = s.mats();
        let mut m = MatrixX::zeros(s.o, ms.iter().map(|m| m.c).sum());
        let (mut at, mut idx) = (0, vec![]);
        for b in &ms {
            idx.push(at);
            for i in 0..s.o {
                for j in 0..b.c {
                    m[(i, at + j)] = if b.at(i, j) == 0.0 { 0.0 } else { b.at(i, j) + p };
                }
            }
            at += b.c;
        }
        let b = VectorX::from_vec(s.c().iter().map(|c| -(c + p)).collect());
        hand.add_factor(LinearFactor::new(s.keys.iter().map(|&k| fkey(k)).collect(), MatrixBlock::new(m, idx), b));
    }
    for p in perms {
        let (order, start, cols) = layout(p);
        let (w1, w2) = (expected(specs, &v1, &start, cols), expected(specs, &v2, &start, cols));
        let go = g.sparsity_pattern(order.clone());
        check_system(&l1, &go, &w1).map_err(|e| format!("layout {p:?}: {e}"))?;
        check_system(&l2, &go, &w2).map_err(|e| format!("layout {p:?}, pattern reused for other values: {e}"))?;
        let go2 = l1.sparsity_pattern(order.clone());
        check_system(&l2, &go2, &w2).map_err(|e| format!("layout {p:?}, pattern of the linear graph: {e}"))?;
        check_system(&hand, &go2, &w1).map_err(|e| format!("layout {p:?}, hand-made linear graph: {e}"))?;
        let xs: Vec<Vec<f64>> = vec![vec![0.0; cols], (0..cols).map(|i| i as f64 - 2.0).collect(), (0..cols).map(|i| if i == cols / 2 { 3.0 } else { 0.0 }).collect()];
        for x in xs {
            let lv = LinearValues::from_order_and_vector(order.clone(), VectorX::from_vec(x.clone()));
            let want = lin_error(&w1.0, &w1.1, &x);
            for (what, l) in [("linearised", &l1), ("hand-made", &hand)] {
                let got = l.error(&lv);
                ensure!((got - want).abs() <= 1e-9 * (1.0 + want), "layout {p:?}: {what} cost at {x:?} is {got} instead of {want}");
            }
        }
        t.state(&(format!("{:?}", specs.iter().map(|s| (&s.keys, s.o)).collect::<Vec<_>>()), p));
        t.step(10);
    }
    Ok(())
}
fn arrangements(n: usize, k: usize) -> Vec<Vec<usize>> {
    tuples(n, k).into_iter().filter(|t| { let mut s = t.clone(); s.sort(); s.dedup(); s.len() == k }).collect()
}
pub fn c04(c: &mut Ctx) {
    let th = c.thorough;
    let all4 = permutations(4);
    let mut alpha: Vec<Vec<usize>> = vec![];
    for k in 1..=4 {
        alpha.extend(arrangements(4, k));
    }
    alpha.extend([vec![0, 0], vec![2, 2], vec![1, 2, 1], vec![3, 0, 0], vec![0, 1, 0, 1]]);
    let dims = |w: &[usize], i: usize| 1 + (w.iter().sum::<usize>() + i) % 4;
    let spec = |w: &[usize], pos: usize, a: &Vec<usize>| Spec { keys: a.clone(), o: dims(w, pos), tag: pos };
    let mut words: Vec<Vec<usize>> = tuples(alpha.len(), 1);
    words.extend(tuples(alpha.len(), 2));
    for w in words {
        let specs: Vec<Spec> = w.iter().enumerate().map(|(i, &x)| spec(&w, i, &alpha[x])).collect();
        c.case(format!("factors {:?}", specs.iter().map(|s| (s.keys.clone(), s.o)).collect::<Vec<_>>()), |t| run_graph(t, &specs, 4, &all4));
        if c.full() {
            return;
        }
    }
    // one factor: every output dimension
    for a in &alpha {
        for o in 1..=4 {
            let s = Spec { keys: a.clone(), o, tag: 2 };
            c.case(format!("single {a:?} rows {o}"), |t| run_graph(t, &[s], 4, &all4));
        }
    }
    // three and four factors, unary and binary
    let small: Vec<Vec<usize>> = alpha.iter().filter(|a| a.len() <= 2).cloned().collect();
    let some: Vec<Vec<usize>> = if th { all4.clone() } else { all4.iter().step_by(5).cloned().collect() };
    for w in tuples(small.len(), 3) {
        let specs: Vec<Spec> = w.iter().enumerate().map(|(i, &x)| spec(&w, i, &small[x])).collect();
        c.case(format!("factors {:?}", specs.iter().map(|s| (s.keys.clone(), s.o)).collect::<Vec<_>>()), |t| run_graph(t, &specs, 4, &some));
        if c.full() {
            return;
        }
    }
    if th {
        for w in tuples(small.len(), 4) {
            let specs: Vec<Spec> = w.iter().enumerate().map(|(i, &x)| spec(&w, i, &small[x])).collect();
            c.case(format!("factors {:?}", specs.iter().map(|s| (s.keys.clone(), s.o)).collect::<Vec<_>>()), |t| run_graph(t, &specs, 4, &all4[..3]));
        }
    }
    // arities 5 and 6 over six variables
    let p6 = permutations(6);
    for k in 5..=6 {
        for (i, a) in arrangements(6, k).into_iter().enumerate() {
            let ls: Vec<Vec<usize>> = p6.iter().skip(i % 7).step_by(if th { 5 } else { 61 }).cloned().collect();
            let specs = [Spec { keys: vec![a[1]], o: 2, tag: 0 }, Spec { keys: a.clone(), o: 1 + i % 4, tag: 1 }, Spec { keys: vec![a[4], a[0]], o: 1, tag: 2 }];
            c.case(format!("wide {a:?}"), |t| run_graph(t, &specs, 6, &ls));
            if c.full() {
                return;
            }
        }
    }
    // every layout of six variables with one fixed graph per arity
    for k in 1..=6 {
        let a: Vec<usize> = [4, 2, 5, 0, 3, 1][..k].to_vec();
        for (i, ch) in p6.chunks(60).enumerate() {
            let specs = [Spec { keys: a.clone(), o: 3, tag: 0 }, Spec { keys: vec![1], o: 2, tag: 1 }];
            c.case(format!("all layouts, arity {k}, part {i}"), |t| run_graph(t, &specs, 6, ch));
        }
    }
    for (n, nf) in [(6, 12), (17, 40), (40, 90), (70, 150)] {
        for lay in 0..4 {
            for style in 0..3 {
                c.case(format!("large graph, {n} variables, {nf} factors, layout {lay} style {style}"), |t| big(t, n, nf, lay, style));
            }
        }
    }
    // the library's own ordering, under every hash order
    for w in tuples(small.len(), 2) {
        let specs: Vec<Spec> = w.iter().enumerate().map(|(i, &x)| spec(&w, i, &small[x])).collect();
        c.case(format!("own ordering, factors {:?}", specs.iter().map(|s| s.keys.clone()).collect::<Vec<_>>()), |t| {
            let mut g = Graph::with_capacity(2);
            for s in &specs {
                g.add_factor(s.factor());
            }
            for s in 0..if th { 64 } else { 12 } {
                hash_seed(s * 31);
                let v = store(4, 0);
                let order = ValuesOrder::from_values(&v);
                let start: Vec<usize> = (0..4).map(|k| order.get(fkey(k)).unwrap().idx).collect();
                let want = expected(&specs, &v, &start, 9);
                let go = g.sparsity_pattern(order);
                check_system(&g.linearize(&v), &go, &want)?;
                t.step(1);
                t.state(&(format!("{:?}", specs), start));
            }
            Ok(())
        });
    }
}

/// large graphs: n variables of mixed dimensions, nf factors of arity 1-6 and up to 15 rows, entries from tiny to huge
fn big(t: &mut Tally, n: usize, nf: usize, lay: usize, style: usize) -> CaseResult {
    const D: [usize; 5] = [2, 1, 3, 3, 6];
    hash_seed(n * 7 + lay);
    let key = |k: usize| -> Key { if style % 2 == 0 { factrs::symbols::X(k as u64).into() } else { Key((k as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)) } };
    let mut v = Values::new();
    for k in 0..n {
        match k % 5 {
            0 => v.insert_unchecked(key(k), VectorVar2::new(1.0, 2.0)),
            1 => v.insert_unchecked(key(k), VectorVar1::new(1.0)),
            2 => v.insert_unchecked(key(k), VectorVar3::new(1.0, 2.0, 3.0)),
            3 => v.insert_unchecked(key(k), SE2::new(0.1, 1.0, 2.0)),
            _ => v.insert_unchecked(key(k), SE3::identity()),
        };
    }
    let (order, start) = if lay == 0 {
        let o = ValuesOrder::from_values(&v);
        let st: Vec<usize> = (0..n).map(|k| o.get(key(k)).unwrap().idx).collect();
        (o, st)
    } else {
        let perm: Vec<usize> = match lay { 1 => (0..n).collect(), 2 => (0..n).rev().collect(), _ => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect() };
        let mut map: ahash::HashMap<Key, Idx> = Default::default();
        let (mut st, mut at) = (vec![0; n], 0);
        for &k in &perm {
            map.insert(key(k), Idx { idx: at, dim: D[k % 5] });
            st[k] = at;
            at += D[k % 5];
        }
        (ValuesOrder::new(map), st)
    };
    let cols = order.dim();
    let mut specs: Vec<(Vec<usize>, Vec<Mat>, Vec<f64>)> = vec![];
    let rows = [1usize, 3, 6, 2, 15, 9, 4];
    for f in 0..nf {
        let ar = 1 + (f * 5 + style) % 6;
        let mut ks: Vec<usize> = vec![];
        for a in 0..ar {
            let mut k = match style { 0 => f + a, 1 => f * 7 + a * (a + 3), _ => (n * 8 - f * 3 - a * 5 % n) + f / n } % n;
            while ks.contains(&k) {
                k = (k + 1) % n;
            }
            ks.push(k);
        }
        let o = rows[(f + style) % rows.len()];
        let scale = [1.0, 2f64.powi(-60), 2f64.powi(-40), -1.0, 2f64.powi(50), 2f64.powi(-20)][f % 6];
        let ms: Vec<Mat> = ks.iter().enumerate().map(|(b, &k)| {
            let mut m = Mat::zeros(o, D[k % 5]);
            for i in 0..o {
                for j in 0..m.c {
                    m.set(i, j, if f % 11 == 10 || (i * 3 + j + b) % 5 == 4 { 0.0 } else { scale * (1 + (f * 131 + b * 37 + i * 11 + j * 3) % 1000) as f64 });
                }
            }
            m
        }).collect();
        let c: Vec<f64> = (0..o).map(|i| if f % 9 == 8 { 0.0 } else { scale * ((f * 3 + i) % 17) as f64 - (f % 3) as f64 }).collect();
        specs.push((ks, ms, c));
    }
    let mut a = Mat::zeros(specs.iter().map(|s| s.2.len()).sum(), cols);
    let mut b = vec![];
    let mut hand = LinearGraph::new();
    let mut vec = vec![];
    for (ks, ms, c) in &specs {
        let mut at = 0;
        let mut idx = vec![];
        let mut m = MatrixX::zeros(c.len(), ms.iter().map(|m| m.c).sum());
        for (k, blk) in ks.iter().zip(ms) {
            idx.push(at);
            for i in 0..blk.r {
                for j in 0..blk.c {
                    a.set(b.len() + i, start[*k] + j, blk.at(i, j));
                    m[(i, at + j)] = blk.at(i, j);
                }
            }
            at += blk.c;
        }
        let f = || LinearFactor::new(ks.iter().map(|&k| key(k)).collect(), MatrixBlock::new(m.clone(), idx.clone()), VectorX::from_vec(c.clone()));
        hand.add_factor(f());
        vec.push(f());
        b.extend(c);
    }
    let want = (a, b);
    let go = hand.sparsity_pattern(order.clone());
    check_system(&hand, &go, &want)?;
    let x: Vec<f64> = (0..cols).map(|i| ((i * 7) % 13) as f64 - 6.0).collect();
    let lv = LinearValues::from_order_and_vector(order.clone(), VectorX::from_vec(x.clone()));
    let e = lin_error(&want.0, &want.1, &x);
    let got = hand.error(&lv);
    ensure!((got - e).abs() <= 1e-9 * (1.0 + e), "linear cost {got} instead of {e}");
    let all = LinearGraph::from_vec(vec);
    check_system(&all, &all.sparsity_pattern(order), &want)?;
    t.state(&(n, nf, lay, style));
    t.step(nf as u64);
    Ok(())
}

// ------------------------------------------------------------------ C05
assign_symbols!(X: VectorVar1, VectorVar2, VectorVar3, SO2, SE2, SO3, SE3; L: VectorVar1, VectorVar2, VectorVar3, SO2, SE2, SO3, SE3);

/// r = c + M x + q (u.x)^2 over the concatenated vector x of all arguments
#[derive(Clone, Debug)]
struct Poly {
    m: Mat,
    c: Vec<f64>,
    q: Vec<f64>,
    u: Vec<f64>,
}
impl Poly {
    fn new(o: usize, n: usize, q: f64) -> Poly {
        let mut m = Mat::zeros(o, n);
        for i in 0..o {
            for j in 0..n {
                m.set(i, j, ((i * 5 + j * 3 + 1) % 7) as f64 * 0.5 - 1.0);
            }
        }
        Poly { m, c: (0..o).map(|i| 0.5 - i as f64).collect(), q: (0..o).map(|i| q * (1.0 + i as f64)).collect(), u: (0..n).map(|j| if j % 2 == 0 { 0.5 } else { -0.75 }).collect() }
    }
    fn eval<T: Numeric>(&self, x: &[T]) -> VectorX<T> {
        let mut s = T::from(0.0);
        for (j, xi) in x.iter().enumerate() {
            s += *xi * T::from(self.u[j]);
        }
        VectorX::from_fn(self.m.r, |i, _| {
            let mut r = T::from(self.c[i]) + s * s * T::from(self.q[i]);
            for (j, xi) in x.iter().enumerate() {
                r += *xi * T::from(self.m.at(i, j));
            }
            r
        })
    }
    fn r(&self, x: &[f64]) -> Vec<f64> {
        let s: f64 = x.iter().zip(&self.u).map(|(a, b)| a * b).sum();
        (0..self.m.r).map(|i| self.c[i] + self.q[i] * s * s + (0..x.len()).map(|j| self.m.at(i, j) * x[j]).sum::<f64>()).collect()
    }
    fn j(&self, x: &[f64]) -> Mat {
        let s: f64 = x.iter().zip(&self.u).map(|(a, b)| a * b).sum();
        let mut m = self.m.clone();
        for i in 0..m.r {
            for j in 0..m.c {
                m.add_at(i, j, 2.0 * self.q[i] * s * self.u[j]);
            }
        }
        m
    }
}
macro_rules! polys {
    ($($name:ident, $n:literal, $i:literal, $o:literal, $( ($v:ident, $a:ident, $t:ident) ),*);* $(;)?) => { paste::paste! { $(
        #[derive(Clone, Debug)]
        struct $name(Poly);
        impl fmt::Display for $name { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, stringify!($name)) } }
        #[factrs::mark]
        impl [<Residual $n>] for $name {
            type Differ = ForwardProp<<Self as [<Residual $n>]>::DimIn>;
            type DimIn = Const<$i>;
            type DimOut = Const<$o>;
            $( type $v = $t; )*
            fn [<residual $n>]<T: Numeric>(&self, $($a: $t<T>),*) -> VectorX<T> {
                let mut x: Vec<T> = vec![];
                $( x.extend($a.0.iter().copied()); )*
                self.0.eval(&x)
            }
        }
    )* } };
}
polys! {
    P1, 1, 2, 3, (V1, a, VectorVar2);
    P2, 2, 5, 2, (V1, a, VectorVar3), (V2, b, VectorVar2);
    P3, 3, 6, 4, (V1, a, VectorVar1), (V2, b, VectorVar3), (V3, c, VectorVar2);
    P4, 4, 7, 3, (V1, a, VectorVar2), (V2, b, VectorVar1), (V3, c, VectorVar3), (V4, d, VectorVar1);
    P5, 5, 9, 1, (V1, a, VectorVar1), (V2, b, VectorVar2), (V3, c, VectorVar1), (V4, d, VectorVar3), (V5, e, VectorVar2);
    P6, 6, 11, 2, (V1, a, VectorVar3), (V2, b, VectorVar1), (V3, c, VectorVar2), (V4, d, VectorVar2), (V5, e, VectorVar1), (V6, f, VectorVar2);
}
type W7<T = f64> = factrs::variables::VectorVar<7, T>;
type W8<T = f64> = factrs::variables::VectorVar<8, T>;
type W10<T = f64> = factrs::variables::VectorVar<10, T>;
type W12<T = f64> = factrs::variables::VectorVar<12, T>;
polys! {
    Q1, 1, 12, 9, (V1, a, W12);
    Q2, 2, 9, 2, (V1, a, W8), (V2, b, VectorVar1);
    Q3, 3, 19, 7, (V1, a, VectorVar2), (V2, b, W10), (V3, c, W7);
    Q4, 4, 26, 3, (V1, a, W7), (V2, b, VectorVar1), (V3, c, W8), (V4, d, W10);
}
/// large variables and large residuals
fn wide(c: &mut Ctx) {
    for noise in 0..NOISE {
        for kern in 0..KERNS.len() {
            for q in [0.0, 0.0625] {
                for arity in 1..=4usize {
                    for rev in [false, true] {
                        c.case(format!("wide arity {arity} q={q} noise={noise} kernel={} reversed keys {rev}", KERNS[kern].0), |t| {
                            let dims: &[usize] = [&[12][..], &[8, 1], &[2, 10, 7], &[7, 1, 8, 10]][arity - 1];
                            let (o, n) = ([9, 2, 7, 3][arity - 1], dims.iter().sum::<usize>());
                            let p = Poly::new(o, n, q);
                            let keys: Vec<Key> = (0..arity).map(|i| X(if rev { 9 - i as u64 } else { i as u64 }).into()).collect();
                            let f = match arity {
                                1 => finish::<9>(FactorBuilder::new1_unchecked(Q1(p.clone()), keys[0]), noise, kern, false),
                                2 => finish::<2>(FactorBuilder::new2_unchecked(Q2(p.clone()), keys[0], keys[1]), noise, kern, true),
                                3 => finish::<7>(FactorBuilder::new3_unchecked(Q3(p.clone()), keys[0], keys[1], keys[2]), noise, kern, false),
                                _ => finish::<3>(FactorBuilder::new4_unchecked(Q4(p.clone()), keys[0], keys[1], keys[2], keys[3]), noise, kern, true),
                            };
                            for (pi, x) in points(n).iter().enumerate() {
                                let mut v = Values::new();
                                let mut at = 0;
                                for (i, &d) in dims.iter().enumerate() {
                                    put_vec(&mut v, keys[i], &x[at..at + d]);
                                    at += d;
                                }
                                let (r, j) = (p.r(x), p.j(x));
                                let w = |m: &Mat| match o { 9 => whiten::<9>(noise, m), 2 => whiten::<2>(noise, m), 7 => whiten::<7>(noise, m), _ => whiten::<3>(noise, m) };
                                let (wj, wr) = (w(&j), w(&Mat::col(&r)).d);
                                check_factor(&f, &v, &keys, dims, &r, &j, &ref_cov(noise, o), KERNS[kern].1, Some((&wj, &wr)), 1e-9).map_err(|e| format!("point {pi}: {e}"))?;
                                // and in a graph, with a layout
                                let mut g = Graph::new();
                                g.add_factor(match arity { 1 => finish::<9>(FactorBuilder::new1_unchecked(Q1(p.clone()), keys[0]), noise, kern, false), _ => continue });
                                ensure!((g.error(&v) - f.error(&v)).abs() <= 1e-9 * (1.0 + f.error(&v)), "graph of one factor costs {}", g.error(&v));
                                t.step(8);
                            }
                            t.state(&(arity, noise, kern, q.to_bits(), rev));
                            Ok(())
                        });
                    }
                }
            }
        }
    }
}
const ARGD: [&[usize]; 6] = [&[2], &[3, 2], &[1, 3, 2], &[2, 1, 3, 1], &[1, 2, 1, 3, 2], &[3, 1, 2, 2, 1, 2]];
const OUTD: [usize; 6] = [3, 2, 4, 3, 1, 2];

/// noise models by number: (name, covariance)
pub fn cov(kind: usize, n: usize) -> Mat {
    let mut m = Mat::eye(n);
    match kind {
        0 | 1 => {}
        2 => m = m.scale(0.25),
        3 => for i in 0..n { m.set(i, i, [0.25, 4.0, 1.0, 0.01][i % 4]); },
        // any order of magnitude: of all coordinates, or of every second one
        100..=300 => m = m.scale(10f64.powi(kind as i32 - 200)),
        400..=600 => for i in (0..n).step_by(2) { m.set(i, i, 10f64.powi(kind as i32 - 500)); },
        _ => {
            for i in 0..n {
                for j in 0..n {
                    m.set(i, j, if i == j { 2.0 + i as f64 } else { 0.4 - 0.1 * (i + j) as f64 });
                }
            }
        }
    }
    m
}
pub fn na_mat<const N: usize>(m: &Mat) -> Matrix<N, N> {
    Matrix::<N, N>::from_fn(|i, j| m.at(i, j))
}
fn mk_noise<const N: usize>(kind: usize) -> GaussianNoise<N> {
    let c = cov(kind, N);
    match kind {
        2 => GaussianNoise::from_scalar_sigma(0.5),
        3 | 100..=600 => { let s = Vector::<N>::from_fn(|i, _| c.at(i, i)); GaussianNoise::from_vec_cov(s.as_view()) }
        _ => GaussianNoise::from_matrix_cov(na_mat::<N>(&c).as_view()),
    }
}
/// a user-defined kernel and noise model
#[derive(Debug, Clone)]
struct MyKern;
#[factrs::mark]
impl RobustCost for MyKern {
    fn loss(&self, d2: f64) -> f64 {
        Kern::Cauchy(0.7).rho(d2.sqrt())
    }
    fn weight(&self, d2: f64) -> f64 {
        Kern::Cauchy(0.7).w(d2.sqrt())
    }
}
#[derive(Debug, Clone)]
struct MyNoise<const N: usize>;
impl<const N: usize> fmt::Display for MyNoise<N> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "MyNoise")
    }
}
#[factrs::mark]
impl<const N: usize> NoiseModel for MyNoise<N> {
    type Dim = Const<N>;
    fn whiten_vec(&self, v: VectorX) -> VectorX {
        v * 3.0
    }
    fn whiten_mat(&self, m: MatrixX) -> MatrixX {
        m * 3.0
    }
}
pub const NOISE: usize = 6; // none, unit, scalar, diagonal, full, user
pub const KERNS: [(&str, Option<Kern>); 12] = [
    ("none", None),
    ("L2", Some(Kern::L2)),
    ("L1", Some(Kern::L1)),
    ("Huber", Some(Kern::Huber(1.345))),
    ("Fair", Some(Kern::Fair(1.3998))),
    ("Cauchy", Some(Kern::Cauchy(2.3849))),
    ("GemanMcClure", Some(Kern::Geman(1.3998))),
    ("Welsch", Some(Kern::Welsch(2.9846))),
    ("Tukey", Some(Kern::Tukey(4.6851))),
    ("Huber(0.3)", Some(Kern::Huber(0.3))),
    ("user", Some(Kern::Cauchy(0.7))),
    ("Tukey(0.8)", Some(Kern::Tukey(0.8))),
];
pub fn ref_cov(noise: usize, n: usize) -> Mat {
    if noise == 5 {
        Mat::eye(n).scale(1.0 / 9.0)
    } else {
        cov(noise, n)
    }
}
/// the whitening the factor is documented to apply, through the same noise model
fn whiten<const O: usize>(noise: usize, m: &Mat) -> Mat {
    let x = MatrixX::from_fn(m.r, m.c, |i, j| m.at(i, j));
    nm(&match noise {
        0 => x,
        1 => UnitNoise::<O>.whiten_mat(x),
        5 => MyNoise::<O>.whiten_mat(x),
        k => mk_noise::<O>(k).whiten_mat(x),
    })
}
macro_rules! robust_arm {
    ($b:expr, $k:expr) => {
        match $k {
            0 => $b.build(),
            1 => $b.robust(L2).build(),
            2 => $b.robust(L1).build(),
            3 => $b.robust(Huber::default()).build(),
            4 => $b.robust(Fair::default()).build(),
            5 => $b.robust(Cauchy::default()).build(),
            6 => $b.robust(GemanMcClure::default()).build(),
            7 => $b.robust(Welsch::default()).build(),
            8 => $b.robust(Tukey::default()).build(),
            9 => $b.robust(Huber::new(0.3)).build(),
            10 => $b.robust(MyKern).build(),
            _ => $b.robust(Tukey::new(0.8)).build(),
        }
    };
}
pub fn finish<const O: usize>(b: FactorBuilder<O>, noise: usize, kern: usize, robust_first: bool) -> Factor {
    let _ = robust_first;
    match noise {
        0 => robust_arm!(b, kern),
        1 => robust_arm!(b.noise(UnitNoise::<O>), kern),
        5 => robust_arm!(b.noise(MyNoise::<O>), kern),
        k => {
            if robust_first {
                // the other call order of the builder
                let n = mk_noise::<O>(k);
                match kern {
                    3 => b.robust(Huber::default()).noise(n).build(),
                    8 => b.robust(Tukey::default()).noise(n).build(),
                    _ => robust_arm!(b.noise(n), kern),
                }
            } else {
                robust_arm!(b.noise(mk_noise::<O>(k)), kern)
            }
        }
    }
}
macro_rules! fac_forms {
    ($r:expr, $o:literal, $noise:expr, $kern:expr, [$($k:expr),*], $br:expr) => {{
        let n = |k: usize| mk_noise::<$o>(k);
        if $br {
            match ($noise, $kern) {
                (0, 0) => Some(factrs::fac![$r, [$($k),*]]),
                (1, 0) => Some(factrs::fac![$r, [$($k),*], UnitNoise::<$o>]),
                (5, 0) => Some(factrs::fac![$r, [$($k),*], MyNoise::<$o>]),
                (_, 0) => Some(factrs::fac![$r, [$($k),*], n($noise)]),
                (1, 3) => Some(factrs::fac![$r, [$($k),*], UnitNoise::<$o>, Huber::default()]),
                (2..=4, 3) => Some(factrs::fac![$r, [$($k),*], n($noise), Huber::default()]),
                (2..=4, 6) => Some(factrs::fac![$r, [$($k),*], n($noise), GemanMcClure::default()]),
                (2..=4, 10) => Some(factrs::fac![$r, [$($k),*], n($noise), MyKern]),
                _ => None,
            }
        } else {
            match ($noise, $kern) {
                (0, 0) => Some(factrs::fac![$r, ($($k,)*)]),
                (1, 0) => Some(factrs::fac![$r, ($($k,)*), UnitNoise::<$o>]),
                (2..=4, 0) => Some(factrs::fac![$r, ($($k,)*), n($noise)]),
                (2..=4, 5) => Some(factrs::fac![$r, ($($k,)*), n($noise), Cauchy::default()]),
                (2..=4, 11) => Some(factrs::fac![$r, ($($k,)*), n($noise), Tukey::new(0.8)]),
                _ => None,
            }
        }
    }};
}
const FORMS: [&str; 6] = ["builder", "builder unchecked", "macro brackets", "macro tuple", "builder robust first", "macro single key"];
/// (typed symbol letter is_x, index) of each argument
fn key_assign(arity: usize, ka: usize) -> Vec<(bool, u64)> {
    (0..arity)
        .map(|i| match ka {
            0 => (true, i as u64),
            1 => (i % 2 == 1, (10 - i) as u64),
            _ => (false, [7u64, 3, 0xffff_ffff, 0, 5, 2][i]),
        })
        .collect()
}
fn build_poly(arity: usize, q: f64, noise: usize, kern: usize, form: usize, ka: usize) -> Option<Factor> {
    let s = |i: usize| -> X { let a = key_assign(arity, ka)[i]; X(a.1) };
    let l = |i: usize| -> L { let a = key_assign(arity, ka)[i]; L(a.1) };
    // the assignment's letters per position, as typed symbols (assignment 0: all X, 1: alternating, 2: all L)
    macro_rules! forms { ($p:ident, $new:ident, $newu:ident, $o:literal, $ind:literal, [$($k:expr),*]) => {{
        let r = $p(Poly::new($o, $ind, q));
        match form {
            0 => Some(finish::<$o>(FactorBuilder::$new(r, $($k),*), noise, kern, false)),
            1 => Some(finish::<$o>(FactorBuilder::$newu(r, $(Key::from($k)),*), noise, kern, false)),
            2 => fac_forms!(r, $o, noise, kern, [$($k),*], true),
            3 => fac_forms!(r, $o, noise, kern, [$($k),*], false),
            4 => Some(finish::<$o>(FactorBuilder::$newu(r, $($k),*), noise, kern, true)),
            _ => None,
        }
    }}; }
    if arity == 1 && form == 5 {
        let r = P1(Poly::new(3, 2, q));
        let key = s(0);
        return match (ka, noise, kern) {
            (0, 0, 0) => Some(factrs::fac![r, X(0)]),
            (0, 2, 0) => Some(factrs::fac![r, X(0), mk_noise::<3>(2)]),
            (0, 4, 3) => Some(factrs::fac![r, X(0), mk_noise::<3>(4), Huber::default()]),
            (1, 0, 0) => { let key = L(10); Some(factrs::fac![r, key]) }
            (0, 3, 4) => Some(factrs::fac![r, key, mk_noise::<3>(3), Fair::default()]),
            _ => None,
        };
    }
    match (arity, ka) {
        (1, 0) => forms!(P1, new1, new1_unchecked, 3, 2, [s(0)]),
        (1, _) => forms!(P1, new1, new1_unchecked, 3, 2, [l(0)]),
        (2, 0) => forms!(P2, new2, new2_unchecked, 2, 5, [s(0), s(1)]),
        (2, 1) => forms!(P2, new2, new2_unchecked, 2, 5, [l(0), s(1)]),
        (2, _) => forms!(P2, new2, new2_unchecked, 2, 5, [l(0), l(1)]),
        (3, 0) => forms!(P3, new3, new3_unchecked, 4, 6, [s(0), s(1), s(2)]),
        (3, 1) => forms!(P3, new3, new3_unchecked, 4, 6, [l(0), s(1), l(2)]),
        (3, _) => forms!(P3, new3, new3_unchecked, 4, 6, [l(0), l(1), l(2)]),
        (4, 0) => forms!(P4, new4, new4_unchecked, 3, 7, [s(0), s(1), s(2), s(3)]),
        (4, 1) => forms!(P4, new4, new4_unchecked, 3, 7, [l(0), s(1), l(2), s(3)]),
        (4, _) => forms!(P4, new4, new4_unchecked, 3, 7, [l(0), l(1), l(2), l(3)]),
        (5, 0) => forms!(P5, new5, new5_unchecked, 1, 9, [s(0), s(1), s(2), s(3), s(4)]),
        (5, 1) => forms!(P5, new5, new5_unchecked, 1, 9, [l(0), s(1), l(2), s(3), l(4)]),
        (5, _) => forms!(P5, new5, new5_unchecked, 1, 9, [l(0), l(1), l(2), l(3), l(4)]),
        (6, 0) => forms!(P6, new6, new6_unchecked, 2, 11, [s(0), s(1), s(2), s(3), s(4), s(5)]),
        (6, 1) => forms!(P6, new6, new6_unchecked, 2, 11, [l(0), s(1), l(2), s(3), l(4), s(5)]),
        _ => forms!(P6, new6, new6_unchecked, 2, 11, [l(0), l(1), l(2), l(3), l(4), l(5)]),
    }
}
fn keys_of(arity: usize, ka: usize) -> Vec<Key> {
    key_assign(arity, ka).iter().map(|&(x, i)| if x { X(i).into() } else { L(i).into() }).collect()
}
fn points(n: usize) -> Vec<Vec<f64>> {
    vec![
        vec![0.0; n],
        (0..n).map(|i| 0.25 * (i as f64) - 0.5).collect(),
        (0..n).map(|i| if i % 3 == 0 { 3.0 } else { -2.0 }).collect(),
        (0..n).map(|i| if i == n - 1 { 40.0 } else { 0.125 }).collect(),
    ]
}
fn put_vec(v: &mut Values, k: Key, x: &[f64]) {
    match x.len() {
        1 => v.insert_unchecked(k, VectorVar1::new(x[0])),
        2 => v.insert_unchecked(k, VectorVar2::new(x[0], x[1])),
        7 => v.insert_unchecked(k, factrs::variables::VectorVar::<7>(Vector::from_column_slice(x))),
        8 => v.insert_unchecked(k, factrs::variables::VectorVar::<8>(Vector::from_column_slice(x))),
        10 => v.insert_unchecked(k, factrs::variables::VectorVar::<10>(Vector::from_column_slice(x))),
        12 => v.insert_unchecked(k, factrs::variables::VectorVar::<12>(Vector::from_column_slice(x))),
        _ => v.insert_unchecked(k, VectorVar3::new(x[0], x[1], x[2])),
    };
}
/// everything the property says about one factor at one point
fn check_factor(f: &Factor, v: &Values, keys: &[Key], dims: &[usize], r: &[f64], j: &Mat, cv: &Mat, k: Option<Kern>, wh: Option<(&Mat, &[f64])>, tol: f64) -> CaseResult {
    let k = k.unwrap_or(Kern::L2);
    ensure!(f.keys() == keys, "keys are {:?}, given {:?}", f.keys(), keys);
    ensure!(f.dim_out() == r.len(), "output dimension {}", f.dim_out());
    let om = cv.inv().unwrap();
    let rr = Mat::col(r);
    let d2 = rr.t().mul(&om).mul(&rr).at(0, 0).max(0.0);
    let d = d2.sqrt();
    let want = k.rho(d);
    let got = f.error(v);
    ensure!((got - want).abs() <= tol * (1.0 + want), "cost is {got}, kernel of the whitened residual is {want}");
    let lf = f.linearize(v);
    let n: usize = dims.iter().sum();
    ensure!(lf.keys == keys, "linear factor has keys {:?}", lf.keys);
    ensure!(lf.dim_out() == r.len() && lf.b.len() == r.len() && lf.a.mat().nrows() == r.len() && lf.a.mat().ncols() == n, "linear factor has shape {}x{}", lf.a.mat().nrows(), lf.a.mat().ncols());
    let a = nm(&lf.a.mat());
    let b: Vec<f64> = lf.b.iter().copied().collect();
    // one block per key, in key order
    let mut at = 0;
    for (i, &dk) in dims.iter().enumerate() {
        let blk = nm(&lf.a.get_block(i));
        ensure!(close(&blk, &a.block(0, at, a.r, dk), 0.0), "block {i} is not the columns of key {i}");
        at += dk;
    }
    if !k.w_specified(d) {
        return Ok(());
    }
    let near = k.threshold().is_some_and(|t| (d - t).abs() < 1e-9 * t);
    let w = k.w(d);
    let jt = j.t().mul(&om);
    let sc = 1.0 + jt.mul(j).maxabs() + jt.mul(&rr).maxabs() + d2;
    ensure!(close(&a.t().mul(&a), &jt.mul(j).scale(w), tol * sc), "A'A is {:?}, weighted information is {:?}", a.t().mul(&a), jt.mul(j).scale(w));
    let bm = Mat::col(&b);
    ensure!(close(&a.t().mul(&bm), &jt.mul(&rr).scale(-w), tol * sc), "A'b is {:?}, minus the weighted gradient is {:?}", a.t().mul(&bm), jt.mul(&rr).scale(-w));
    ensure!((norm(&b).powi(2) - w * d2).abs() <= tol * (1.0 + d2), "|b|^2 is {}, expected {}", norm(&b).powi(2), w * d2);
    if let (Some((wj, wr)), false) = (wh, near) {
        ensure!(close(&a, &wj.scale(w.sqrt()), tol * sc), "A is {a:?}, scaled whitened Jacobian is {:?}", wj.scale(w.sqrt()));
        let mb: Vec<f64> = wr.iter().map(|x| -x * w.sqrt()).collect();
        ensure!(vclose(&b, &mb, tol * sc), "b is {b:?}, negated scaled whitened residual is {mb:?}");
    }
    Ok(())
}
fn whiten_dyn(o: usize, noise: usize, m: &Mat) -> Mat {
    match o {
        1 => whiten::<1>(noise, m),
        2 => whiten::<2>(noise, m),
        3 => whiten::<3>(noise, m),
        _ => whiten::<4>(noise, m),
    }
}
/// library residuals on manifold types, Jacobian from the reference matrices
fn lie_factors<V: RV>(c: &mut Ctx)
where
    PriorResidual<V>: Residual1<V1 = V, DimOut = <V as Variable>::Dim> + Residual + 'static,
    BetweenResidual<V>: Residual2<V1 = V, V2 = V, DimOut = <V as Variable>::Dim> + Residual + 'static,
    V: Pick,
{
    let gs: Vec<Vec<f64>> = gens::<V>().into_iter().filter(|g| norm(&g[..V::ROT]) < 3.0).collect();
    for noise in 0..NOISE {
        for kern in 0..KERNS.len() {
            for (zi, z) in gs.iter().enumerate() {
                for (xi, x) in gs.iter().enumerate() {
                    c.case(format!("{} prior/between noise={noise} kernel={} z={zi} x={xi}", V::NAME, KERNS[kern].0), |t| {
                        let (zm, xm) = (V::exp_r(z), V::exp_r(x));
                        let ym = V::exp_r(&gs[(xi + zi + 1) % gs.len()]);
                        let mut v = Values::new();
                        let (k1, k2): (Key, Key) = (X(4).into(), L(1).into());
                        v.insert_unchecked(k2, V::of(&ym));
                        v.insert_unchecked(k1, V::of(&xm));
                        let cv = ref_cov(noise, V::N);
                        let r = ominus_r::<V>(&zm, &xm);
                        if norm(&r[..V::ROT]) < PI - 0.05 {
                            let j = fd_jac(V::N, 1e-3, |d| ominus_r::<V>(&zm, &oplus_r::<V>(&xm, d)));
                            let f = V::prior(V::of(&zm), k1, noise, kern);
                            check_factor(&f, &v, &[k1], &[V::N], &r, &j, &cv, KERNS[kern].1, None, 1e-6).map_err(|e| format!("prior: {e}"))?;
                            t.step(1);
                        }
                        let r = ominus_r::<V>(&xm.mul(&zm), &ym);
                        if norm(&r[..V::ROT]) < PI - 0.05 {
                            let j = fd_jac(2 * V::N, 1e-3, |d| ominus_r::<V>(&oplus_r::<V>(&xm, &d[..V::N]).mul(&zm), &oplus_r::<V>(&ym, &d[V::N..])));
                            let f = V::between(V::of(&zm), k1, k2, noise, kern);
                            check_factor(&f, &v, &[k1, k2], &[V::N, V::N], &r, &j, &cv, KERNS[kern].1, None, 1e-6).map_err(|e| format!("between: {e}"))?;
                            t.step(1);
                        }
                        t.state(&(V::NAME, noise, kern, zi, xi));
                        Ok(())
                    });
                }
            }
        }
    }
}
use factrs::variables::Variable;
pub trait Pick: Sized {
    fn prior(z: Self, k: Key, noise: usize, kern: usize) -> Factor;
    fn between(z: Self, a: Key, b: Key, noise: usize, kern: usize) -> Factor;
}
macro_rules! pick { ($($t:ident $n:literal),*) => { $( impl Pick for $t {
    fn prior(z: Self, k: Key, noise: usize, kern: usize) -> Factor { finish::<$n>(FactorBuilder::new1_unchecked(PriorResidual::new(z), k), noise, kern, false) }
    fn between(z: Self, a: Key, b: Key, noise: usize, kern: usize) -> Factor { finish::<$n>(FactorBuilder::new2_unchecked(BetweenResidual::new(z), a, b), noise, kern, false) }
} )* } }
pick!(SO2 1, SE2 3, SO3 3, SE3 6, VectorVar1 1, VectorVar2 2, VectorVar3 3, VectorVar4 4, VectorVar5 5, VectorVar6 6, ImuBias 6);

/// residuals from 1e-12 to 1e8, cost and right-hand side judged relative to their own size
fn magnitudes(c: &mut Ctx) {
    for noise in 0..NOISE {
        for kern in 0..KERNS.len() {
            for e in [-60, -30].into_iter().chain(-15..=12).chain([30, 60]) {
                c.case(format!("residual magnitude 1e{e} noise={noise} kernel={}", KERNS[kern].0), |t| {
                    let s = 10f64.powi(e);
                    for dir in [[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.6, 0.0, -0.8], [-0.3, 0.5, 0.7], [0.0, 0.0, 1.0]] {
                        let x: Vec<f64> = dir.iter().map(|d| d * s).collect();
                        let mut v = Values::new();
                        let k: Key = X(0).into();
                        put_vec(&mut v, k, &x);
                        let f = VectorVar3::prior(VectorVar3::new(0.0, 0.0, 0.0), k, noise, kern);
                        let r: Vec<f64> = ominus_r::<VectorVar3>(&VectorVar3::exp_r(&[0.0; 3]), &VectorVar3::exp_r(&dir)).iter().map(|y| y * s).collect();
                        let wr = whiten::<3>(noise, &Mat::col(&r)).d;
                        let kn = KERNS[kern].1.unwrap_or(Kern::L2);
                        let d = norm(&wr);
                        let (want, got) = (kn.rho(d), f.error(&v));
                        ensure!((got - want).abs() <= 1e-9 * want + if matches!(kn, Kern::L2 | Kern::L1 | Kern::Huber(_) | Kern::Geman(_)) { 0.0 } else { 1e-14 }, "cost {got:e} instead of {want:e}");
                        let lf = f.linearize(&v);
                        let j = if r.iter().zip(&x).map(|(a, b)| a * b).sum::<f64>() < 0.0 { Mat::eye(3).scale(-1.0) } else { Mat::eye(3) };
                        if kn.w_specified(d) && kn.threshold().is_none_or(|t| (d - t).abs() > 1e-9 * t) {
                            let w = kn.w(d).sqrt();
                            for i in 0..3 {
                                ensure!((lf.b[i] + w * wr[i]).abs() <= 1e-9 * w * d, "right-hand side {:e} instead of {:e}", lf.b[i], -w * wr[i]);
                            }
                            let wj = whiten::<3>(noise, &j);
                            for i in 0..3 {
                                for q in 0..3 {
                                    ensure!((lf.a.mat()[(i, q)] - w * wj.at(i, q)).abs() <= 1e-9 * w * wj.maxabs(), "Jacobian entry ({i},{q}) is {:e} instead of {:e}", lf.a.mat()[(i, q)], w * wj.at(i, q));
                                }
                            }
                        }
                        t.step(2);
                    }
                    t.state(&(noise, kern, e));
                    Ok(())
                });
            }
        }
    }
}
/// costs beyond the largest number, or of a point that is not a number: no factor drops out of the sum
fn overflow(c: &mut Ctx) {
    for what in 0..3usize {
        for n in 1..=5usize {
            for at in 0..n {
                for kern in 0..KERNS.len() {
                    c.case(format!("graph of {n} factors, factor {at} {} kernel={}", ["overflows", "is infinitely far", "is not a number"][what], KERNS[kern].0), |t| {
                        let mut g = Graph::new();
                        let mut v = Values::new();
                        let (mut sum, mut bad) = (0.0, 0.0);
                        for k in 0..n {
                            let key: Key = X(k as u64).into();
                            let far = [1e200, f64::INFINITY, f64::NAN][what];
                            put_vec(&mut v, key, &if k == at { [0.5, far, -1.0] } else { [0.5 + k as f64, 1.0, -2.0] });
                            let f = VectorVar3::prior(VectorVar3::new(0.0, 0.0, 0.0), key, 0, if k == at { kern } else { 0 });
                            let e = f.error(&v);
                            if k == at {
                                bad = e;
                                // an unbounded kernel costs more than any number; a bounded one may give its limit
                                if KERNS[kern].1.is_none_or(|k| k == Kern::L2) {
                                    ensure!(if what == 2 { e.is_nan() } else { e == f64::INFINITY }, "the squared norm of a residual of {far:e} costs {e:e}");
                                }
                            } else {
                                sum += e;
                            }
                            g.add_factor(f);
                        }
                        let got = g.error(&v);
                        let want = sum + bad;
                        ensure!(got == want || got.is_nan() && want.is_nan() || (got - want).abs() <= 1e-9 * (1.0 + want.abs()), "graph cost {got:e}, sum of factor costs {want:e}");
                        t.step(n as u64);
                        t.state(&(what, n, at, kern));
                        Ok(())
                    });
                }
            }
        }
    }
}
/// graphs of many factors: the cost is the sum, every factor is linearised in its place
fn many(c: &mut Ctx) {
    for n in [1usize, 7, 16, 33, 64, 100, 257, 1000] {
        for step in [1usize, 3] {
            c.case(format!("graph of {n} factors, pattern {step}"), |t| {
                let mut g = Graph::new();
                let mut v = Values::new();
                let nv = n.div_ceil(2);
                for k in 0..nv {
                    put_vec(&mut v, X(k as u64).into(), &[k as f64 * 0.25 - 3.0, 1.0 - 0.5 * (k % 7) as f64]);
                }
                let (mut want, mut rhs) = (0.0, vec![]);
                for i in 0..n {
                    let (a, b) = ((i * step) % nv, (i * step + i / 3 + 1) % nv);
                    let (noise, kern) = (i % NOISE, (i / 2) % KERNS.len());
                    let xa = [a as f64 * 0.25 - 3.0, 1.0 - 0.5 * (a % 7) as f64];
                    let xb = [b as f64 * 0.25 - 3.0, 1.0 - 0.5 * (b % 7) as f64];
                    let z = [0.125 * (i % 5) as f64, 0.25];
                    let r = if i % 3 == 0 {
                        g.add_factor(VectorVar2::prior(VectorVar2::new(z[0], z[1]), X(a as u64).into(), noise, kern));
                        [z[0] - xa[0], z[1] - xa[1]]
                    } else {
                        g.add_factor(VectorVar2::between(VectorVar2::new(z[0], z[1]), X(a as u64).into(), X(b as u64).into(), noise, kern));
                        [xa[0] + z[0] - xb[0], xa[1] + z[1] - xb[1]]
                    };
                    let wr = whiten::<2>(noise, &Mat::col(&r)).d;
                    let kn = KERNS[kern].1.unwrap_or(Kern::L2);
                    want += kn.rho(norm(&wr));
                    let w = if kn.w_specified(norm(&wr)) { Some(kn.w(norm(&wr)).sqrt()) } else { None };
                    rhs.push((w, wr));
                    ensure!(g.len() == i + 1, "graph length {}", g.len());
                }
                let got = g.error(&v);
                ensure!((got - want).abs() <= 1e-9 * (1.0 + want), "graph cost {got}, sum of factor costs {want}");
                let lin = g.linearize(&v);
                let order = ValuesOrder::from_values(&v);
                let sys = lin.residual_jacobian(&g.sparsity_pattern(order));
                ensure!(sys.value.nrows() == 2 * n, "{} rows for {n} factors", sys.value.nrows());
                for (i, (w, wr)) in rhs.iter().enumerate() {
                    if let Some(w) = w {
                        // the sign of a prior residual follows the update convention; its size does not
                        let (p, q) = (sys.value.read(2 * i, 0), sys.value.read(2 * i + 1, 0));
                        let (a, b) = (w * wr[0], w * wr[1]);
                        let tol = 1e-9 * (1.0 + norm(wr));
                        ensure!((p + a).abs() <= tol && (q + b).abs() <= tol, "rows of factor {i} are ({p}, {q}), expected ({}, {})", -a, -b);
                    }
                }
                t.state(&(n, step));
                t.step(n as u64);
                Ok(())
            });
        }
    }
}
pub fn c05(c: &mut Ctx) {
    let th = c.thorough;
    for arity in 1..=6usize {
        let (o, dims) = (OUTD[arity - 1], ARGD[arity - 1]);
        let n: usize = dims.iter().sum();
        for q in [0.0, 0.0625] {
            for noise in 0..NOISE {
                for kern in 0..KERNS.len() {
                    for form in 0..FORMS.len() {
                        for ka in 0..3 {
                            if build_poly(arity, q, noise, kern, form, ka).is_none() {
                                continue;
                            }
                            c.case(format!("arity {arity} q={q} noise={noise} kernel={} {} keys={ka}", KERNS[kern].0, FORMS[form]), |t| {
                                let f = build_poly(arity, q, noise, kern, form, ka).unwrap();
                                let p = Poly::new(o, n, q);
                                let keys = keys_of(arity, ka);
                                let mut pts = points(n);
                                // a point of exactly zero residual does not exist in general; make one small
                                pts.push((0..n).map(|i| 1e-3 * i as f64).collect());
                                if th {
                                    for i in 0..n {
                                        for s in [-1.0, 0.5, 6.0] {
                                            pts.push((0..n).map(|j| if i == j { s } else { 0.0 }).collect());
                                        }
                                    }
                                }
                                for (pi, x) in pts.iter().enumerate() {
                                    let mut v = Values::new();
                                    // unrelated variables in the store
                                    put_vec(&mut v, X(90).into(), &[5.0, 6.0]);
                                    put_vec(&mut v, Key(77), &[-4.0]);
                                    let mut at = 0;
                                    for (i, &d) in dims.iter().enumerate() {
                                        put_vec(&mut v, keys[i], &x[at..at + d]);
                                        at += d;
                                    }
                                    let (r, j) = (p.r(x), p.j(x));
                                    let wj = whiten_dyn(o, noise, &j);
                                    let wr = whiten_dyn(o, noise, &Mat::col(&r)).d;
                                    check_factor(&f, &v, &keys, dims, &r, &j, &ref_cov(noise, o), KERNS[kern].1, Some((&wj, &wr)), 1e-9).map_err(|e| format!("point {pi}: {e}"))?;
                                    t.state(&(arity, noise, kern, pi, q.to_bits()));
                                    t.step(8);
                                }
                                Ok(())
                            });
                            if c.full() {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
    lie_factors::<SO2>(c);
    lie_factors::<SE2>(c);
    lie_factors::<SO3>(c);
    lie_factors::<SE3>(c);
    lie_factors::<VectorVar2>(c);
    overflow(c);
    magnitudes(c);
    wide(c);
    many(c);
    // graphs: all sequences of factors over an alphabet; cost is the sum, linearisation the list
    let menu: Vec<(usize, usize, usize, usize)> = vec![(1, 0, 0, 0), (1, 2, 3, 0), (2, 4, 0, 0), (2, 3, 8, 0), (3, 0, 2, 0), (6, 4, 6, 0)];
    let lens = if th { 4 } else { 3 };
    for len in 0..=lens {
        for w in tuples(menu.len(), len) {
            for pt in 0..2 {
                c.case(format!("graph {w:?} point {pt}"), |t| {
                    let mut v = Values::new();
                    // X0: 2-vector for arity 1... distinct letters per menu entry keep the types apart
                    let mut g = if len % 2 == 0 { Graph::new() } else { Graph::with_capacity(1) };
                    let mut want = 0.0;
                    let mut rows = vec![];
                    ensure!(g.is_empty() && g.len() == 0, "a new graph is not empty");
                    for (pos, &m) in w.iter().enumerate() {
                        let (arity, noise, kern, _) = menu[m];
                        let (o, dims) = (OUTD[arity - 1], ARGD[arity - 1]);
                        let n: usize = dims.iter().sum();
                        let x: Vec<f64> = (0..n).map(|i| 0.5 * ((i + m + pt * 2) % 4) as f64 - 0.5).collect();
                        let keys: Vec<Key> = (0..arity).map(|i| Key((m * 10 + i) as u64)).collect();
                        let mut at = 0;
                        for (i, &d) in dims.iter().enumerate() {
                            put_vec(&mut v, keys[i], &x[at..at + d]);
                            at += d;
                        }
                        macro_rules! f { ($p:ident, $new:ident, $o:literal, $n:literal, $($i:literal),*) => { finish::<$o>(FactorBuilder::$new($p(Poly::new($o, $n, 0.0625)), $(keys[$i]),*), noise, kern, false) } }
                        let f = match arity {
                            1 => f!(P1, new1_unchecked, 3, 2, 0),
                            2 => f!(P2, new2_unchecked, 2, 5, 0, 1),
                            3 => f!(P3, new3_unchecked, 4, 6, 0, 1, 2),
                            _ => f!(P6, new6_unchecked, 2, 11, 0, 1, 2, 3, 4, 5),
                        };
                        let r = Mat::col(&Poly::new(o, n, 0.0625).r(&x));
                        let d2 = r.t().mul(&ref_cov(noise, o).inv().unwrap()).mul(&r).at(0, 0);
                        want += KERNS[kern].1.unwrap_or(Kern::L2).rho(d2.sqrt());
                        rows.push((keys, o, dims.to_vec()));
                        g.add_factor(f);
                        ensure!(g.len() == pos + 1 && !g.is_empty(), "graph length {}", g.len());
                    }
                    let got = g.error(&v);
                    ensure!((got - want).abs() <= 1e-9 * (1.0 + want), "graph cost {got}, sum of factor costs {want}");
                    // gradient of the whole cost through the assembled system
                    if !w.is_empty() {
                        let lin = g.linearize(&v);
                        let order = ValuesOrder::from_values(&v);
                        let go = g.sparsity_pattern(order.clone());
                        let DiffResult { value, diff } = lin.residual_jacobian(&go);
                        ensure!(value.nrows() == rows.iter().map(|r| r.1).sum::<usize>(), "linearised graph has {} rows", value.nrows());
                        let a = diff.to_dense();
                        for (keys, _, dims) in &rows {
                            for (k, d) in keys.iter().zip(dims) {
                                for jj in 0..*d {
                                    let at = order.get(*k).unwrap().idx + jj;
                                    let grad: f64 = (0..a.nrows()).map(|i| -a.read(i, at) * value.read(i, 0)).sum();
                                    let cost = |s: f64| {
                                        let mut e = VectorX::zeros(order.dim());
                                        e[at] = s;
                                        let mut u = v.clone();
                                        u.oplus_mut(&LinearValues::from_order_and_vector(order.clone(), e));
                                        g.error(&u)
                                    };
                                    let h = 1e-3;
                                    let num = (45.0 * (cost(h) - cost(-h)) - 9.0 * (cost(2.0 * h) - cost(-2.0 * h)) + cost(3.0 * h) - cost(-3.0 * h)) / (60.0 * h);
                                    ensure!((grad - num).abs() <= 1e-6 * (1.0 + num.abs() + want), "gradient along {k:?}[{jj}] is {grad}, cost slope {num}");
                                    t.step(1);
                                }
                            }
                        }
                    }
                    t.state(&(w.clone(), pt));
                    Ok(())
                });
            }
        }
    }
}
