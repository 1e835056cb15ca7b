//! C01 variable store, C02 symbols and keys, C03 stacked vectors and orderings.
use crate::ensure;
use crate::fw::*;
use factrs::assign_symbols;
use factrs::containers::{DefaultSymbol, Idx, Key, Symbol, TypedSymbol, Values, ValuesOrder};
use factrs::linalg::VectorX;
use factrs::linear::LinearValues;
use factrs::traits::Variable;
use factrs::variables::*;
use std::collections::{BTreeMap, HashSet, VecDeque};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ty {
    V1,
    V2,
    V3,
    So2,
    Se2,
    So3,
    Se3,
    V4,
    V5,
    V6,
    V9,
    Bias,
}
const TYS: [Ty; 12] = [Ty::V1, Ty::V2, Ty::So2, Ty::Se2, Ty::V3, Ty::So3, Ty::V6, Ty::Se3, Ty::Bias, Ty::V4, Ty::V5, Ty::V9];
/// the types used in products of several variables
const TYS9: [Ty; 9] = [Ty::V1, Ty::V2, Ty::So2, Ty::Se2, Ty::V3, Ty::So3, Ty::V6, Ty::Se3, Ty::Bias];
use crate::refm::{close, Mat};
use crate::vars::{oplus_r, VectorVar9, RV};
macro_rules! by_ty {
    ($ty:expr, $t:ident, $e:expr) => {
        match $ty {
            Ty::V1 => { type $t = VectorVar1; $e }
            Ty::V2 => { type $t = VectorVar2; $e }
            Ty::V3 => { type $t = VectorVar3; $e }
            Ty::So2 => { type $t = SO2; $e }
            Ty::Se2 => { type $t = SE2; $e }
            Ty::So3 => { type $t = SO3; $e }
            Ty::Se3 => { type $t = SE3; $e }
            Ty::V4 => { type $t = VectorVar4; $e }
            Ty::V5 => { type $t = VectorVar5; $e }
            Ty::V9 => { type $t = VectorVar9; $e }
            Ty::V6 => { type $t = VectorVar6; $e }
            Ty::Bias => { type $t = ImuBias; $e }
        }
    };
}

assign_symbols!(A: VectorVar2, VectorVar3, SO2; B: VectorVar2, VectorVar3, SO2);
// a symbol type written by hand: the key is the number itself
#[derive(Clone, Copy, Debug)]
pub struct Raw(pub u64);
impl From<Raw> for Key {
    fn from(r: Raw) -> Key {
        Key(r.0)
    }
}
impl Symbol for Raw {}
impl TypedSymbol<VectorVar2> for Raw {}
impl TypedSymbol<VectorVar3> for Raw {}
impl TypedSymbol<SO2> for Raw {}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum K {
    A(u64),
    B(u64),
    R(u64),
}
macro_rules! with_key {
    ($k:expr, $s:ident, $e:expr) => {
        match $k {
            K::A(i) => { let $s = A(i); $e }
            K::B(i) => { let $s = B(i); $e }
            K::R(i) => { let $s = Raw(i); $e }
        }
    };
}
fn kk(k: K) -> Key {
    with_key!(k, s, s.into())
}
/// A stored value of the model: type 0 = VectorVar2, 1 = VectorVar3, 2 = SO2; payload 0 or 1.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Val {
    ty: u8,
    p: u8,
}
type Model = BTreeMap<usize, Val>;
fn v2(p: u8) -> VectorVar2 {
    VectorVar2::new(1.0 + p as f64, -2.0 + 4.0 * p as f64)
}
fn v3(p: u8) -> VectorVar3 {
    VectorVar3::new(3.0 - p as f64, 5.0, 7.0 + 8.0 * p as f64)
}
fn so(p: u8) -> SO2 {
    SO2::from_theta(0.25 + p as f64)
}
/// tangent taking payload p to 1-p
fn flip(v: Val) -> Vec<f64> {
    let s = if v.p == 0 { 1.0 } else { -1.0 };
    match v.ty {
        0 => vec![s, 4.0 * s],
        1 => vec![-s, 0.0, 8.0 * s],
        _ => vec![s],
    }
}
fn eq2(a: &VectorVar2, p: u8) -> bool {
    a.0 == v2(p).0
}
fn eq3(a: &VectorVar3, p: u8) -> bool {
    a.0 == v3(p).0
}
fn eqs(a: &SO2, p: u8) -> bool {
    (a.to_theta() - so(p).to_theta()).abs() < 1e-9
}
fn is(b: &dyn VariableSafe, v: Val) -> bool {
    match v.ty {
        0 => b.downcast_ref::<VectorVar2>().is_some_and(|x| eq2(x, v.p)),
        1 => b.downcast_ref::<VectorVar3>().is_some_and(|x| eq3(x, v.p)),
        _ => b.downcast_ref::<SO2>().is_some_and(|x| eqs(x, v.p)),
    }
}
const DIM: [usize; 3] = [2, 3, 1];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Insert(usize, Val),
    InsertU(usize, Val),
    Remove(usize),
    RemoveOther(usize),
    Mut(usize),
    MutU(usize),
    Entry(usize, Val),
    EntryMod(usize),
    EntryRemove(usize),
    Plus(u8),
    Snap,
    Swap,
    Restore,
}
fn alphabet(nk: usize, tys: u8) -> Vec<Op> {
    let mut o = vec![];
    for k in 0..nk {
        for ty in 0..tys {
            o.push(Op::Insert(k, Val { ty, p: 0 }));
            o.push(Op::InsertU(k, Val { ty, p: 1 }));
        }
        o.push(Op::Entry(k, Val { ty: 0, p: 1 }));
        o.push(Op::Remove(k));
        o.push(Op::RemoveOther(k));
        o.push(Op::Mut(k));
        o.push(Op::MutU(k));
        o.push(Op::EntryMod(k));
        o.push(Op::EntryRemove(k));
    }
    for m in 1..(1u8 << nk) {
        o.push(Op::Plus(m));
    }
    o.extend([Op::Snap, Op::Swap, Op::Restore]);
    o
}
struct Sys<'a> {
    keys: &'a [K],
    live: Values,
    snap: Values,
    ml: Model,
    ms: Model,
}
impl<'a> Sys<'a> {
    fn new(keys: &'a [K]) -> Self {
        Sys { keys, live: Values::new(), snap: Values::default(), ml: Model::new(), ms: Model::new() }
    }
    fn handed_back(r: Option<Box<dyn VariableSafe>>, old: Option<Val>, what: &str) -> CaseResult {
        match (r, old) {
            (None, None) => Ok(()),
            (Some(b), Some(v)) if is(b.as_ref(), v) => Ok(()),
            (r, o) => Err(format!("{what} handed back {r:?}, previous value was {o:?}")),
        }
    }
    fn apply(&mut self, op: Op) -> CaseResult {
        let l = &mut self.live;
        match op {
            Op::Insert(k, v) => {
                let r = with_key!(self.keys[k], s, match v.ty { 0 => l.insert(s, v2(v.p)), 1 => l.insert(s, v3(v.p)), _ => l.insert(s, so(v.p)) });
                Self::handed_back(r, self.ml.insert(k, v), "insert")?;
            }
            Op::InsertU(k, v) => {
                let r = with_key!(self.keys[k], s, match v.ty { 0 => l.insert_unchecked(s, v2(v.p)), 1 => l.insert_unchecked(s, v3(v.p)), _ => l.insert_unchecked(s, so(v.p)) });
                Self::handed_back(r, self.ml.insert(k, v), "insert_unchecked")?;
            }
            Op::Remove(k) => {
                // with the stored type (or any type if absent)
                let old = self.ml.remove(&k);
                let good = with_key!(self.keys[k], s, match old {
                    Some(Val { ty: 0, p }) => l.remove::<_, VectorVar2>(s).is_some_and(|x| eq2(&x, p)),
                    Some(Val { ty: 1, p }) => l.remove::<_, VectorVar3>(s).is_some_and(|x| eq3(&x, p)),
                    Some(Val { p, .. }) => l.remove::<_, SO2>(s).is_some_and(|x| eqs(&x, p)),
                    None => l.remove::<_, VectorVar2>(s).is_none() && l.remove::<_, SO2>(s).is_none(),
                });
                ensure!(good, "remove did not hand back {old:?}");
            }
            Op::RemoveOther(k) => {
                // asking for another type yields nothing; whether the stored variable goes or stays is left open
                let old = self.ml.get(&k).copied();
                let none = with_key!(self.keys[k], s, match old {
                    Some(Val { ty: 0, .. }) => l.remove::<_, VectorVar3>(s).is_none(),
                    Some(Val { ty: 1, .. }) => l.remove::<_, SO2>(s).is_none(),
                    _ => l.remove::<_, VectorVar2>(s).is_none(),
                });
                ensure!(none, "remove as another type handed back something while {old:?} is stored");
                if !l.iter().any(|(q, _)| *q == kk(self.keys[k])) {
                    self.ml.remove(&k);
                }
            }
            Op::Mut(k) | Op::MutU(k) => {
                let un = matches!(op, Op::MutU(_));
                let old = self.ml.get(&k).copied();
                macro_rules! m { ($s:ident, $t:ident, $f:ident, $eq:ident, $i:literal) => {{
                    let r = if un { l.get_unchecked_mut::<_, $t>($s) } else { l.get_mut::<_, $t>($s) };
                    match (r, old) {
                        (Some(x), Some(v)) if v.ty == $i => { ensure!($eq(x, v.p), "mutable borrow sees {x:?} instead of {v:?}"); *x = $f(1 - v.p); }
                        (Some(x), o) => return Err(format!("mutable borrow as {} gives {x:?} while {o:?} is stored", stringify!($t))),
                        (None, Some(v)) if v.ty == $i => return Err(format!("mutable borrow of {v:?} gives nothing")),
                        _ => {}
                    }
                }}; }
                with_key!(self.keys[k], s, { m!(s, VectorVar2, v2, eq2, 0); m!(s, VectorVar3, v3, eq3, 1); m!(s, SO2, so, eqs, 2); });
                if let Some(v) = self.ml.get_mut(&k) {
                    v.p = 1 - v.p;
                }
            }
            Op::Entry(k, v) => {
                let cur = *self.ml.entry(k).or_insert(v);
                let b: Box<dyn VariableSafe> = match v.ty { 0 => Box::new(v2(v.p)), 1 => Box::new(v3(v.p)), _ => Box::new(so(v.p)) };
                let got = with_key!(self.keys[k], s, l.entry(s).or_insert(b));
                ensure!(is(got.as_ref(), cur), "entry gives {got:?}, expected {cur:?}");
            }
            Op::EntryMod(k) => {
                let nv = self.ml.get(&k).map(|v| Val { ty: v.ty, p: 1 - v.p });
                let nb: Option<Box<dyn VariableSafe>> = nv.map(|v| match v.ty { 0 => Box::new(v2(v.p)) as Box<dyn VariableSafe>, 1 => Box::new(v3(v.p)), _ => Box::new(so(v.p)) });
                let mut ran = false;
                let _ = with_key!(self.keys[k], s, l.entry(s).and_modify(|b| { ran = true; if let Some(n) = &nb { *b = n.clone(); } }));
                ensure!(ran == nv.is_some(), "entry(..).and_modify ran: {ran}, stored: {nv:?}");
                if let Some(v) = nv {
                    self.ml.insert(k, v);
                }
            }
            Op::EntryRemove(k) => {
                let old = self.ml.remove(&k);
                let r = with_key!(self.keys[k], s, match l.entry(s) {
                    std::collections::hash_map::Entry::Occupied(o) => Some(o.remove()),
                    std::collections::hash_map::Entry::Vacant(v) => { ensure!(*v.key() == kk(self.keys[k]), "vacant entry has another key"); None }
                });
                Self::handed_back(r, old, "removing through the entry")?;
            }
            Op::Plus(mask) => {
                // a stacked vector over the masked keys (absent ones carry a dimension too: they must be ignored)
                let mut map: ahash::HashMap<Key, Idx> = Default::default();
                let mut vec = vec![];
                for k in 0..self.keys.len() {
                    if mask & (1 << k) != 0 {
                        let d = match self.ml.get(&k) { Some(v) => flip(*v), None => vec![9.0, 9.0] };
                        map.insert(kk(self.keys[k]), Idx { idx: vec.len(), dim: d.len() });
                        vec.extend(d);
                        if let Some(v) = self.ml.get_mut(&k) {
                            v.p = 1 - v.p;
                        }
                    }
                }
                l.oplus_mut(&LinearValues::from_order_and_vector(ValuesOrder::new(map), VectorX::from_vec(vec)));
            }
            Op::Snap => {
                self.snap = self.live.clone();
                self.ms = self.ml.clone();
            }
            Op::Swap => {
                std::mem::swap(&mut self.snap, &mut self.live);
                std::mem::swap(&mut self.ms, &mut self.ml);
            }
            Op::Restore => {
                self.live = self.snap.clone();
                self.ml = self.ms.clone();
            }
        }
        Ok(())
    }
    fn check(&mut self) -> CaseResult {
        observe(&mut self.live, &self.ml, self.keys).map_err(|e| format!("live: {e}"))?;
        observe(&mut self.snap, &self.ms, self.keys).map_err(|e| format!("clone: {e}"))
    }
}
fn observe(v: &mut Values, m: &Model, keys: &[K]) -> CaseResult {
    ensure!(v.len() == m.len(), "length {} instead of {}", v.len(), m.len());
    ensure!(v.is_empty() == m.is_empty(), "is_empty is {}", v.is_empty());
    for (k, key) in keys.iter().enumerate() {
        let want = m.get(&k).copied();
        macro_rules! g { ($s:ident, $t:ident, $eq:ident, $i:literal) => {{
            let w = want.filter(|x| x.ty == $i);
            let ok = |x: Option<&$t>| match (x, w) { (None, None) => true, (Some(x), Some(w)) => $eq(x, w.p), _ => false };
            ensure!(ok(v.get::<_, $t>($s)), "get {key:?} as {} gives {:?}, stored: {want:?}", stringify!($t), v.get::<_, $t>($s));
            ensure!(ok(v.get_unchecked::<_, $t>($s)), "get_unchecked {key:?} as {} gives {:?}, stored: {want:?}", stringify!($t), v.get_unchecked::<_, $t>($s));
            ensure!(ok(v.get_mut::<_, $t>($s).map(|x| &*x)), "get_mut {key:?} as {} wrong, stored: {want:?}", stringify!($t));
            ensure!(ok(v.get_unchecked_mut::<_, $t>($s).map(|x| &*x)), "get_unchecked_mut {key:?} as {} wrong, stored: {want:?}", stringify!($t));
        }}; }
        with_key!(*key, s, { g!(s, VectorVar2, eq2, 0); g!(s, VectorVar3, eq3, 1); g!(s, SO2, eqs, 2); });
        let k = kk(*key);
        let w = want.filter(|x| x.ty == 0);
        ensure!(v.get_unchecked::<_, VectorVar2>(k).is_some() == w.is_some(), "lookup by the bare key of {key:?}");
    }
    // iteration: exactly the model's content
    let by_key: BTreeMap<u64, Val> = m.iter().map(|(k, x)| (kk(keys[*k]).0, *x)).collect();
    let mut seen = HashSet::new();
    for (k, b) in v.iter() {
        ensure!(seen.insert(k.0), "iteration repeats {k:?}");
        let w = by_key.get(&k.0);
        ensure!(w.is_some_and(|w| is(b.as_ref(), *w) && b.dim() == DIM[w.ty as usize]), "iteration yields {k:?} -> {b:?}, stored {w:?}");
    }
    ensure!(seen.len() == m.len(), "iteration misses elements");
    let mut n = 0;
    for (k, b) in v.clone() {
        n += 1;
        let w = by_key.get(&k.0);
        ensure!(w.is_some_and(|w| is(b.as_ref(), *w)), "consuming iteration yields {k:?} -> {b:?}, stored {w:?}");
    }
    ensure!(n == m.len(), "consuming iteration yields {n} elements");
    let cnt = |ty: u8, p: u8| m.values().filter(|x| x.ty == ty && x.p == p).count();
    for p in 0..2 {
        ensure!(v.filter::<VectorVar2>().filter(|x| eq2(x, p)).count() == cnt(0, p), "filter by VectorVar2");
        ensure!(v.filter::<VectorVar3>().filter(|x| eq3(x, p)).count() == cnt(1, p), "filter by VectorVar3");
        ensure!(v.filter::<SO2>().filter(|x| eqs(x, p)).count() == cnt(2, p), "filter by SO2");
    }
    ensure!(v.filter::<VectorVar2>().count() + v.filter::<VectorVar3>().count() + v.filter::<SO2>().count() == m.len(), "filters do not partition the store");
    ensure!(v.filter::<SE3>().count() == 0, "filter yields a type that is not stored");
    Ok(())
}
fn key_sets() -> Vec<(&'static str, Vec<K>)> {
    vec![
        ("index", vec![K::A(0), K::A(1), K::A(2)]),
        ("letter", vec![K::A(7), K::B(7), K::R(7)]),
        ("mixed", vec![K::A(0), K::B(1), K::A(1)]),
        ("large", vec![K::A(0xffff_ffff), K::B(0xffff_ffff), K::A(0xffff_fffe)]),
        ("bits", vec![K::A(0), K::A(1 << 31), K::B(1 << 31)]),
        ("raw", vec![K::R(0), K::R(u64::MAX), K::R(1 << 63)]),
        ("bytes", vec![K::A(0x100), K::A(0x1_0000), K::B(0x100)]),
        ("hi", vec![K::R(0x61_0000_0000), K::R(0x61), K::A(1)]),
    ]
}
pub fn c01(c: &mut Ctx) {
    let th = c.thorough;
    // (1) breadth-first search over (live, clone) model states, every operation from every state
    for (name, keys) in key_sets() {
        let tys = if th { 3 } else { 2 };
        for nk in [2, 3] {
            if nk == 3 && !th && !matches!(name, "mixed" | "letter") {
                continue;
            }
            let keys = &keys[..nk];
            c.case(format!("bfs keys={name} n={nk}"), |t| {
                let ops = alphabet(nk, tys);
                let mut seen: HashSet<(Model, Model)> = HashSet::new();
                let mut q: VecDeque<Vec<Op>> = VecDeque::new();
                seen.insert(Default::default());
                q.push_back(vec![]);
                while let Some(h) = q.pop_front() {
                    for &op in &ops {
                        let mut s = Sys::new(keys);
                        for &o in &h {
                            s.apply(o).map_err(|e| format!("{h:?}: {e}"))?;
                        }
                        s.apply(op).and_then(|_| s.check()).map_err(|e| format!("after {h:?} then {op:?}: {e}"))?;
                        t.step(1);
                        if seen.insert((s.ml.clone(), s.ms.clone())) {
                            t.state(&(name, nk, s.ml.clone(), s.ms.clone()));
                            let mut g = h.clone();
                            g.push(op);
                            q.push_back(g);
                        }
                    }
                }
                t.count("bfs model states", seen.len() as u64);
                Ok(())
            });
        }
    }
    // (2) every operation sequence (no merging of histories)
    for (name, keys) in key_sets().into_iter().take(if th { 8 } else { 4 }) {
        let keys = &keys[..2];
        let ops = alphabet(2, 2);
        let depth = if th { 5 } else { 4 };
        for (i, &a) in ops.iter().enumerate() {
            for (j, &b) in ops.iter().enumerate() {
                c.case(format!("seq keys={name} starting {i},{j}"), |t| {
                    for w in tuples(ops.len(), depth - 2) {
                        let mut s = Sys::new(keys);
                        let mut run = || -> CaseResult {
                            s.apply(a)?;
                            s.apply(b)?;
                            for &x in &w {
                                s.apply(ops[x])?;
                            }
                            s.check()
                        };
                        run().map_err(|e| format!("after {a:?}, {b:?}, {:?}: {e}", w.iter().map(|&x| ops[x]).collect::<Vec<_>>()))?;
                        t.step(depth as u64);
                    }
                    t.count("histories", (ops.len() as u64).pow(depth as u32 - 2));
                    Ok(())
                });
            }
        }
    }
    // (4) every pair of types under one key
    for a in TYS {
        for b in TYS {
            c.case(format!("types {a:?} and {b:?}"), |t| {
                for (na, nb) in [(0, 0), (0, 1), (3, 2)] {
                    pair(a, b, na, nb)?;
                    t.step(30);
                }
                t.state(&(a as usize, b as usize));
                Ok(())
            });
        }
    }
    // (3) many keys: growth, removal of every stride, reinsertion with other types
    let sizes: &[usize] = if th { &[5, 16, 29, 57, 130, 600] } else { &[5, 16, 29, 57, 130] };
    for &n in sizes {
        for order in 0..4 {
            for stride in 1..5 {
                for shape in 0..4 {
                    c.case(format!("many n={n} order={order} stride={stride} shape={shape}"), |t| {
                        let keys: Vec<K> = (0..n as u64)
                            .map(|i| match shape { 0 => K::A(i), 1 => if i % 2 == 0 { K::A(i / 2) } else { K::B(i / 2) }, 2 => K::A(i << 16), _ => K::R(i << 32 | i) })
                            .collect();
                        let ord: Vec<usize> = match order { 0 => (0..n).collect(), 1 => (0..n).rev().collect(), 2 => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(), _ => (0..n).map(|i| (i * 7 + 3) % n).collect::<Vec<_>>() };
                        let mut s = Sys::new(&keys);
                        for &k in &ord {
                            s.apply(Op::Insert(k, Val { ty: (k % 3) as u8, p: 0 }))?;
                            t.step(1);
                        }
                        s.check()?;
                        s.apply(Op::Snap)?;
                        for k in (0..n).step_by(stride) {
                            s.apply(if k % 2 == 0 { Op::Remove(k) } else { Op::EntryRemove(k) })?;
                            t.step(1);
                        }
                        s.check()?;
                        for &k in &ord {
                            if k % 3 == 0 {
                                s.apply(Op::InsertU(k, Val { ty: ((k + stride) % 3) as u8, p: 1 }))?;
                            } else {
                                s.apply(Op::Mut(k))?;
                            }
                            t.step(1);
                        }
                        t.state(&s.ml);
                        s.check()?;
                        s.apply(Op::Swap)?;
                        s.check()
                    });
                }
            }
        }
    }
}

/// store an `a`, read and replace it as a `b` among other variables
fn pair(a: Ty, b: Ty, na: usize, nb: usize) -> CaseResult {
    let key = Key(0x62_0000_0001);
    let mut v = Values::new();
    for i in 0..na {
        put(&mut v, Key(i as u64), TYS[(i + nb) % TYS.len()], i);
    }
    ensure!(put_back(&mut v, key, a, 5).is_none(), "insert of a new key handed something back");
    for i in 0..nb {
        put(&mut v, Key(100 + i as u64), TYS[(i + na) % TYS.len()], i);
    }
    let total = na + nb + 1;
    let is = |m: Option<Mat>, ty: Ty, k: usize| m.is_some_and(|m| close(&m, &expect(ty, k, &vec![0.0; tdim(ty)]), 1e-12));
    let count = |v: &Values, ty: Ty| by_ty!(ty, V, v.filter::<V>().count());
    let others = |ty: Ty| (0..na).filter(|i| TYS[(i + nb) % TYS.len()] == ty).count() + (0..nb).filter(|i| TYS[(i + na) % TYS.len()] == ty).count();
    let same = a == b;
    ensure!(is(read(&v, key, a), a, 5), "does not read back as {a:?}");
    ensure!(read(&v, key, b).is_some() == same, "reads as {b:?}: {}", !same);
    ensure!(by_ty!(b, V, v.get_unchecked_mut::<_, V>(key).is_some()) == same, "borrows mutably as {b:?}: {}", !same);
    for ty in TYS {
        ensure!(count(&v, ty) == others(ty) + (ty == a) as usize, "filter by {ty:?} yields {}", count(&v, ty));
    }
    let mut w = v.clone();
    let old = put_back(&mut w, key, b, 7);
    ensure!(old.is_some_and(|o| is(by_ty!(a, V, o.downcast_ref::<V>().map(|x| x.m())), a, 5)), "replacing insert does not hand back the stored {a:?}");
    ensure!(is(read(&w, key, b), b, 7) && (same || read(&w, key, a).is_none()), "after the replacement");
    ensure!(is(read(&v, key, a), a, 5), "replacing in a clone changed the original");
    ensure!(v.len() == total && w.len() == total, "length {} {}", v.len(), w.len());
    for ty in TYS {
        ensure!(count(&w, ty) == others(ty) + (ty == b) as usize, "filter by {ty:?} yields {} after the replacement", count(&w, ty));
    }
    // in-place mutation through every way to borrow
    by_ty!(b, V, {
        *w.get_unchecked_mut::<_, V>(key).ok_or("mutable borrow gives nothing")? = V::of(&V::exp_r(&base(b, 8)));
    });
    ensure!(is(read(&w, key, b), b, 8), "mutation lost");
    for (k, x) in w.iter() {
        if *k == key {
            ensure!(x.dim() == tdim(b), "dimension {} of a {b:?}", x.dim());
            ensure!(by_ty!(b, V, x.downcast_ref::<V>().is_some()), "iteration yields another type");
        }
    }
    let d = fill(tdim(b));
    let mut map: ahash::HashMap<Key, Idx> = Default::default();
    map.insert(key, Idx { idx: 0, dim: d.len() });
    w.oplus_mut(&LinearValues::from_order_and_vector(ValuesOrder::new(map), VectorX::from_vec(d.clone())));
    let want = by_ty!(b, V, oplus_r::<V>(&V::exp_r(&base(b, 8)), &d));
    ensure!(read(&w, key, b).is_some_and(|m| close(&m, &want, 1e-9)), "tangent update of a {b:?}");
    for (i, k, ty) in (0..na).map(|i| (i, Key(i as u64), TYS[(i + nb) % TYS.len()])).chain((0..nb).map(|i| (i, Key(100 + i as u64), TYS[(i + na) % TYS.len()]))) {
        ensure!(is(read(&w, k, ty), ty, i) && is(read(&v, k, ty), ty, i), "another variable changed");
    }
    Ok(())
}
fn put_back(v: &mut Values, key: Key, ty: Ty, k: usize) -> Option<Box<dyn VariableSafe>> {
    by_ty!(ty, V, v.insert_unchecked(key, V::of(&V::exp_r(&base(ty, k)))))
}

// ------------------------------------------------------------------ C02
fn idxs(th: bool) -> Vec<u64> {
    let mut o = vec![0, 1, 2, 9, 10, 127, 128, 255, 256, 65535, 65536, 0x00ff_ffff, 0x0100_0000, 0x7fff_ffff, 0x8000_0000, 0xaaaa_aaaa, 0x5555_5555, 0xffff_fffe, 0xffff_ffff];
    if th {
        for i in 0..32 {
            for j in 0..=i {
                o.push((1u64 << i) | (1 << j));
                o.push(0xffff_ffff ^ ((1u64 << i) | (1 << j)));
            }
        }
    } else {
        for i in 0..32 {
            o.push(1u64 << i);
            o.push(0xffff_ffff ^ (1u64 << i));
        }
    }
    o.sort();
    o.dedup();
    o
}
mod user {
    use factrs::variables::*;
    use factrs::assign_symbols;
    assign_symbols!(Pose: SE3, SE2; Landmark: VectorVar3; Zed: VectorVar1);
    assign_symbols!(Untyped, q);
}
macro_rules! lib_syms { ($f:ident, $($n:ident),*) => { $( $f(stringify!($n), &|i| factrs::symbols::$n(i).into(), &|i| format!("{:?}", factrs::symbols::$n(i)), &|i| DefaultSymbol::from(factrs::symbols::$n(i)).into()); )* } }
pub fn c02(c: &mut Ctx) {
    let th = c.thorough;
    let ids = idxs(th);
    // every character x index set: the key decodes to the same symbol, and is the only symbol with that key
    for hi in 0..=0x10ffffu32 / 256 {
        let ids = &ids;
        c.case(format!("chars U+{:04X}..U+{:04X}", hi * 256, hi * 256 + 255), |t| {
            let mut seen = HashSet::new();
            let mut n = 0u64;
            for cp in hi * 256..hi * 256 + 256 {
                let Some(ch) = char::from_u32(cp) else { continue };
                let short: Vec<u64> = if cp < 0x250 { ids.clone() } else { ids.iter().copied().filter(|i| [0u64, 1, 255, 256, 65536, 0x8000_0000, 0xffff_ffff].contains(i)).collect() };
                for i in short {
                    let k: Key = DefaultSymbol::new(ch, i).into();
                    ensure!(seen.insert(k.0), "({ch}, {i}) has the key of another symbol: {k:?}");
                    let back = format!("{:?}", DefaultSymbol::from(k));
                    ensure!(back == format!("({ch}, {i})"), "({ch:?}, {i}) reads back as {back}");
                    let k2: Key = DefaultSymbol::from(k).into();
                    ensure!(k2 == k, "re-encoding ({ch:?}, {i}) changes its key");
                    // characters of another block never share the key
                    for other in [cp ^ 0x100, cp ^ 0x1_0000, cp & 0xff, cp ^ 1] {
                        if other != cp {
                            if let Some(oc) = char::from_u32(other) {
                                ensure!(Key::from(DefaultSymbol::new(oc, i)) != k, "{ch:?} and {oc:?} share key {k:?}");
                            }
                        }
                    }
                    n += 1;
                }
            }
            t.state(&hi);
            t.step(n * 3);
            t.count("symbols", n);
            Ok(())
        });
    }
    // global injectivity of a structured set (all pairs through a set)
    let chars: Vec<char> = ('\u{0}'..='\u{250}').chain(['\u{394}', '\u{3b1}', '\u{416}', '\u{2200}', '\u{4e2d}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}']).collect();
    for ch0 in 0..8usize {
        c.case(format!("injectivity part {ch0}"), |t| {
            // collisions between any two symbols show in the part that holds the smaller index' residue
            let mut map: std::collections::HashMap<u64, (char, u64)> = Default::default();
            for &ch in &chars {
                for &i in ids.iter().filter(|i| (**i % 8) as usize == ch0) {
                    let k: Key = DefaultSymbol::new(ch, i).into();
                    if let Some(o) = map.insert(k.0, (ch, i)) {
                        return Err(format!("{o:?} and {:?} share key {k:?}", (ch, i)));
                    }
                    t.step(1);
                }
            }
            t.state(&("inj", ch0));
            t.count("pairs", (map.len() * (map.len() - 1) / 2) as u64);
            Ok(())
        });
    }
    c.case("all letters, all small indices".into(), |t| {
        let mut map: std::collections::HashMap<u64, (char, u64)> = Default::default();
        for ch in ('a'..='z').chain('A'..='Z').chain("äßλж中".chars()) {
            for i in (0..2000u64).chain(ids.iter().copied().filter(|i| *i >= 2000)) {
                let k: Key = DefaultSymbol::new(ch, i).into();
                if let Some(o) = map.insert(k.0, (ch, i)) {
                    return Err(format!("{o:?} and {:?} share key {k:?}", (ch, i)));
                }
                t.step(1);
            }
        }
        t.count("pairs", (map.len() * (map.len() - 1) / 2) as u64);
        t.state("letters");
        Ok(())
    });
    // every index of one letter (deep level), or all small ones
    for part in 0..if c.deep { 1u64 << 12 } else { 2 } {
        c.case(format!("letter x, indices from {}", part << 20), |t| {
            let mut text = String::new();
            let mut want = String::new();
            for i in part << 20..(part + 1) << 20 {
                use std::fmt::Write;
                let k: Key = DefaultSymbol::new('x', i).into();
                text.clear();
                want.clear();
                let _ = write!(text, "{:?}", DefaultSymbol::from(k));
                let _ = write!(want, "(x, {i})");
                ensure!(text == want, "(x, {i}) reads back as {text}");
                let k2: Key = factrs::symbols::X(i).into();
                ensure!(k == k2, "X({i}) and (x, {i}) have different keys");
            }
            t.state(&("all", part));
            t.step(2 << 20);
            t.count("symbols", 1 << 20);
            Ok(())
        });
    }
    // the library's and user-declared symbols name themselves
    let mut all: Vec<(String, u64, Key, String, Key)> = vec![];
    let mut add = |n: &str, f: &dyn Fn(u64) -> Key, d: &dyn Fn(u64) -> String, g: &dyn Fn(u64) -> Key| {
        for &i in &ids {
            all.push((n.to_string(), i, f(i), d(i), g(i)));
        }
    };
    lib_syms!(add, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X, Y, Z);
    let lib = all.clone();
    all.clear();
    let mut add = |n: &str, f: &dyn Fn(u64) -> Key, d: &dyn Fn(u64) -> String, g: &dyn Fn(u64) -> Key| {
        for &i in &ids {
            all.push((n.to_string(), i, f(i), d(i), g(i)));
        }
    };
    macro_rules! us { ($($n:ident),*) => { $( add(stringify!($n), &|i| user::$n(i).into(), &|i| format!("{:?}", user::$n(i)), &|i| DefaultSymbol::from(user::$n(i)).into()); )* } }
    us!(Pose, Landmark, Zed, Untyped, q);
    for (what, set) in [("library", lib), ("user", all)] {
        let mut seen: std::collections::HashMap<u64, String> = Default::default();
        for (n, i, k, d, k2) in set {
            let first = n.chars().next().unwrap().to_ascii_lowercase();
            let dup = seen.insert(k.0, format!("{n}({i})"));
            c.case(format!("{what} symbol {n}({i})"), |t| {
                let want = format!("({first}, {i})");
                ensure!(d == want, "prints as {d}");
                ensure!(k == k2, "two conversions give {k:?} and {k2:?}");
                ensure!(format!("{:?}", DefaultSymbol::from(k)) == want, "key reads back as {:?}", DefaultSymbol::from(k));
                ensure!(dup.is_none(), "shares its key with {dup:?}");
                ensure!(k == Key::from(DefaultSymbol::new(first, i)), "differs from the default symbol's key");
                t.state(&k.0);
                t.step(5);
                Ok(())
            });
        }
    }
    // the store tells symbols apart, and prints them
    let syms: Vec<(char, u64)> = ["a", "b", "x", "z", "λ", "中"].iter().flat_map(|s| [0u64, 1, 255, 256, 1 << 16, 1 << 31, 0xffff_ffff].map(|i| (s.chars().next().unwrap(), i))).collect();
    for (ai, &a) in syms.iter().enumerate() {
        for &b in syms.iter() {
            c.case(format!("store {a:?} then {b:?}"), |t| {
                let mut v = Values::new();
                v.insert_unchecked(DefaultSymbol::new(a.0, a.1), VectorVar1::new(1.0));
                let prev = v.insert_unchecked(DefaultSymbol::new(b.0, b.1), VectorVar1::new(2.0));
                ensure!(prev.is_some() == (a == b), "second insert replaced the first: {}", prev.is_some());
                ensure!(v.len() == if a == b { 1 } else { 2 }, "store has {} entries", v.len());
                let ga: Option<&VectorVar1> = v.get_unchecked(DefaultSymbol::new(a.0, a.1));
                let gb: Option<&VectorVar1> = v.get_unchecked(DefaultSymbol::new(b.0, b.1));
                ensure!(ga.is_some_and(|x| x.0[0] == if a == b { 2.0 } else { 1.0 }) && gb.is_some_and(|x| x.0[0] == 2.0), "lookup gives {ga:?} {gb:?}");
                for text in [format!("{v}"), format!("{v:#}"), format!("{v:?}"), format!("{v:#?}")] {
                    for s in [a, b] {
                        let name = format!("({}, {}):", s.0, s.1);
                        ensure!(text.matches(&name).count() == 1, "printed store {text:?} does not name {name} once");
                    }
                }
                t.state(&(a, b));
                t.step(8);
                let _ = ai;
                Ok(())
            });
        }
    }
}

// ------------------------------------------------------------------ C03
fn tdim(ty: Ty) -> usize {
    by_ty!(ty, V, <V as RV>::N)
}
fn base(ty: Ty, k: usize) -> Vec<f64> {
    (0..tdim(ty)).map(|i| 0.3 * ((i + 2 * k) % 5) as f64 - 0.5).collect()
}
fn put(v: &mut Values, key: Key, ty: Ty, k: usize) {
    by_ty!(ty, V, { v.insert_unchecked(key, V::of(&V::exp_r(&base(ty, k)))); });
}
fn read(v: &Values, key: Key, ty: Ty) -> Option<Mat> {
    by_ty!(ty, V, v.get_unchecked::<_, V>(key).map(|x| x.m()))
}
fn expect(ty: Ty, k: usize, d: &[f64]) -> Mat {
    by_ty!(ty, V, oplus_r::<V>(&V::exp_r(&base(ty, k)), d))
}
fn keys3(n: usize) -> Vec<Key> {
    use factrs::symbols::{L, X};
    [X(0).into(), L(0).into(), X(1).into(), Key(0xffff_ffff_ffff), Key(3)][..n].to_vec()
}
fn check_order(o: &ValuesOrder, keys: &[Key], tys: &[Ty]) -> Result<Vec<usize>, String> {
    let dims: Vec<usize> = tys.iter().map(|t| tdim(*t)).collect();
    let total: usize = dims.iter().sum();
    if o.dim() != total || o.len() != keys.len() || o.is_empty() != keys.is_empty() {
        return Err(format!("ordering has dimension {} length {}, expected {} {}", o.dim(), o.len(), total, keys.len()));
    }
    let mut owner = vec![usize::MAX; total];
    let mut start = vec![];
    for (k, key) in keys.iter().enumerate() {
        let i = o.get(*key).ok_or(format!("ordering misses key {k}"))?;
        if i.dim != dims[k] {
            return Err(format!("key {k} has dimension {} instead of {}", i.dim, dims[k]));
        }
        for r in i.idx..i.idx + i.dim {
            if r >= total || owner[r] != usize::MAX {
                return Err(format!("slices overlap or leave the vector at row {r}"));
            }
            owner[r] = k;
        }
        start.push(i.idx);
    }
    let mut n = 0;
    for (key, i) in o.iter() {
        n += 1;
        let k = keys.iter().position(|x| x == key).ok_or("ordering has a foreign key")?;
        if i.idx != start[k] || i.dim != dims[k] {
            return Err("iteration and lookup of the ordering differ".into());
        }
    }
    if n != keys.len() || o.get(Key(0x7777)).is_some() {
        return Err("ordering iterates the wrong keys or knows a foreign one".into());
    }
    Ok(start)
}
fn check_linear(lv: &LinearValues, keys: &[Key], tys: &[Ty], start: &[usize], vec: &[f64]) -> CaseResult {
    ensure!(lv.dim() == vec.len() && lv.len() == keys.len() && lv.is_empty() == keys.is_empty(), "stacked vector has dimension {} length {}", lv.dim(), lv.len());
    for (k, key) in keys.iter().enumerate() {
        let want = &vec[start[k]..start[k] + tdim(tys[k])];
        let got = lv.get(*key);
        ensure!(got.as_ref().is_some_and(|g| g.as_slice() == want), "key {k} reads {got:?} instead of {want:?}");
    }
    let mut n = 0;
    for (key, s) in lv.iter() {
        let k = keys.iter().position(|x| x == key).ok_or("foreign key in stacked vector")?;
        ensure!(s.as_slice() == &vec[start[k]..start[k] + tdim(tys[k])], "iteration yields the wrong slice for key {k}");
        n += 1;
    }
    ensure!(n == keys.len(), "iteration yields {n} slices");
    ensure!(lv.get(Key(0x7777)).is_none(), "absent key reads something");
    Ok(())
}
/// update `values` with the stacked vector; keys outside `mask` (not in the vector) must stay
fn check_plus(values: &Values, lv: &LinearValues, keys: &[Key], tys: &[Ty], start: &[usize], vec: &[f64], inside: &[bool]) -> CaseResult {
    let mut v = values.clone();
    v.oplus_mut(lv);
    ensure!(v.len() == keys.len(), "update changed the number of variables to {}", v.len());
    for (k, key) in keys.iter().enumerate() {
        let zero = vec![0.0; tdim(tys[k])];
        let d = if inside[k] { &vec[start[k]..start[k] + tdim(tys[k])] } else { &zero[..] };
        let want = expect(tys[k], k, d);
        let got = read(&v, *key, tys[k]);
        ensure!(got.as_ref().is_some_and(|g| close(g, &want, 1e-9)), "variable {k} ({:?}) became {got:?}, its slice {d:?} gives {want:?}", tys[k]);
        let orig = read(values, *key, tys[k]);
        ensure!(orig.is_some_and(|g| close(&g, &expect(tys[k], k, &zero), 1e-9)), "the original of a clone changed");
    }
    Ok(())
}
/// a stacked vector that also names keys the store does not hold: the others still move by their slices
fn foreign(v: &Values, keys: &[Key], tys: &[Ty], sub: &[usize], p: &[usize], s: usize) -> CaseResult {
    hash_seed(17 * s + 3 * p.len());
    let mut map: ahash::HashMap<Key, Idx> = Default::default();
    let n = keys.len();
    let (mut full, mut inside) = (vec![0; n], vec![false; n]);
    let mut at = 0;
    let mut gap = |map: &mut ahash::HashMap<Key, Idx>, at: &mut usize, i: usize| {
        let dim = 1 + (i + s) % 4;
        map.insert(Key(0xabc0 + (i * 31) as u64), Idx { idx: *at, dim });
        *at += dim;
    };
    for (i, &q) in p.iter().enumerate() {
        if (i + s) % 3 != 1 {
            gap(&mut map, &mut at, i);
        }
        let k = sub[q];
        map.insert(keys[k], Idx { idx: at, dim: tdim(tys[k]) });
        full[k] = at;
        inside[k] = true;
        at += tdim(tys[k]);
    }
    gap(&mut map, &mut at, p.len());
    let vec = fill(at);
    let lv = LinearValues::from_order_and_vector(ValuesOrder::new(map), VectorX::from_vec(vec.clone()));
    check_plus(v, &lv, keys, tys, &full, &vec, &inside)
}
fn fill(n: usize) -> Vec<f64> {
    (0..n).map(|i| 0.013 * (i + 1) as f64 * if i % 2 == 0 { 1.0 } else { -1.0 }).collect()
}
pub fn c03(c: &mut Ctx) {
    let th = c.thorough;
    let maxn = if th { 5 } else { 4 };
    for n in 0..=maxn {
        // alphabet of types: all mixes for up to 3 variables, then a smaller alphabet
        let al: Vec<Ty> = if n <= 2 { TYS.to_vec() } else if n == 3 && th { TYS9.to_vec() } else if n <= 4 { vec![Ty::V1, Ty::V2, Ty::Se2, Ty::Se3] } else { vec![Ty::V1, Ty::Se2, Ty::Se3] };
        for w in tuples(al.len(), n) {
            let tys: Vec<Ty> = w.iter().map(|&i| al[i]).collect();
            c.case(format!("types {tys:?}"), |t| {
                let keys = keys3(n);
                // every hash iteration order the store can produce
                let stores = all_orders(n, [400, 400, 400, 400, 3000, 8000][n], || { let mut v = Values::new(); for k in 0..n { put(&mut v, keys[k], tys[k], k); } v }, |v| v.iter().map(|x| x.0 .0).collect());
                t.count("hash orders", stores.len() as u64);
                ensure!(n > 3 || stores.len() == (1..=n).product::<usize>(), "harness: only {} of the hash orders reached", stores.len());
                for v in &stores {
                    let o = ValuesOrder::from_values(v);
                    let start = check_order(&o, &keys, &tys)?;
                    let vec = fill(o.dim());
                    let all = vec![true; n];
                    let lv = LinearValues::from_order_and_vector(o.clone(), VectorX::from_vec(vec.clone()));
                    check_linear(&lv, &keys, &tys, &start, &vec)?;
                    check_plus(v, &lv, &keys, &tys, &start, &vec, &all)?;
                    // the order inferred from the values is the same one
                    let lv = LinearValues::from_values_and_vector(v, VectorX::from_vec(vec.clone()));
                    check_linear(&lv, &keys, &tys, &start, &vec)?;
                    check_plus(v, &lv, &keys, &tys, &start, &vec, &all)?;
                    let zero = vec![0.0; vec.len()];
                    check_linear(&LinearValues::zero_from_order(o.clone()), &keys, &tys, &start, &zero)?;
                    let z = LinearValues::zero_from_values(v);
                    check_linear(&z, &keys, &tys, &start, &zero)?;
                    check_plus(v, &z, &keys, &tys, &start, &zero, &all)?;
                    // wrong lengths are rejected
                    for bad in [vec.len() + 1, vec.len().wrapping_sub(1), 2 * vec.len() + 1] {
                        if bad < 1000 {
                            expect_panic("order with a vector of the wrong length", || LinearValues::from_order_and_vector(o.clone(), VectorX::zeros(bad)))?;
                            expect_panic("values with a vector of the wrong length", || LinearValues::from_values_and_vector(v, VectorX::zeros(bad)))?;
                        }
                    }
                    t.state(&(w.clone(), start.clone()));
                    t.step(10 + 4 * n as u64);
                }
                // every explicit layout of every subset
                for mask in 0..(1usize << n) {
                    let sub: Vec<usize> = (0..n).filter(|k| mask >> k & 1 == 1).collect();
                    for p in permutations(sub.len()) {
                        let mut map: ahash::HashMap<Key, Idx> = Default::default();
                        let mut at = 0;
                        for &q in &p {
                            let k = sub[q];
                            map.insert(keys[k], Idx { idx: at, dim: tdim(tys[k]) });
                            at += tdim(tys[k]);
                        }
                        let o = ValuesOrder::new(map);
                        let (sk, st): (Vec<Key>, Vec<Ty>) = (sub.iter().map(|&k| keys[k]).collect(), sub.iter().map(|&k| tys[k]).collect());
                        let start = check_order(&o, &sk, &st)?;
                        let vec = fill(at);
                        let lv = LinearValues::from_order_and_vector(o, VectorX::from_vec(vec.clone()));
                        check_linear(&lv, &sk, &st, &start, &vec)?;
                        let mut full = vec![0; n];
                        let mut inside = vec![false; n];
                        for (i, &k) in sub.iter().enumerate() {
                            full[k] = start[i];
                            inside[k] = true;
                        }
                        check_plus(&stores[0], &lv, &keys, &tys, &full, &vec, &inside)?;
                        // the same layout with slices of keys the store does not hold in between, in several hash orders
                        for s in 0..3 {
                            foreign(&stores[s % stores.len()], &keys, &tys, &sub, &p, s)?;
                        }
                        t.state(&(w.clone(), mask, p.clone()));
                        t.step(4 + 3 * n as u64);
                    }
                }
                Ok(())
            });
        }
    }
    // a slice of the wrong dimension for a stored variable is rejected
    for a in TYS {
        for b in TYS {
            c.case(format!("slice of {b:?} applied to {a:?}"), |_t| {
                let key = keys3(1)[0];
                let mut v = Values::new();
                put(&mut v, key, a, 0);
                let mut map: ahash::HashMap<Key, Idx> = Default::default();
                map.insert(key, Idx { idx: 0, dim: tdim(b) });
                let lv = LinearValues::from_order_and_vector(ValuesOrder::new(map), VectorX::from_vec(fill(tdim(b))));
                if tdim(a) == tdim(b) {
                    check_plus(&v, &lv, &[key], &[a], &[0], &fill(tdim(b)), &[true])
                } else {
                    expect_panic("slice of the wrong dimension", || { let mut v = v.clone(); v.oplus_mut(&lv) })
                }
            });
        }
    }
    // single coordinates and tiny, large, partly zero updates: nothing is skipped, rounded away or spread
    for ty in TYS {
        for other in TYS9 {
            for first in [false, true] {
                c.case(format!("single coordinates of {ty:?} next to {other:?}, first: {first}"), |t| {
                    let keys = keys3(2);
                    let (n, m) = (tdim(ty), tdim(other));
                    for i in 0..n {
                        let rot = by_ty!(ty, V, <V as RV>::ROT);
                        for x in [1e-300f64, -1e-30, 1e-15, -1e-12, 1e-10, -1e-9, 1e-7, 1e-5, -1e-3, 0.04, 1.0, -2.0, 10.0, -150.0, 1e4, 1e6, -1e7, 1e9, 1e12, -1e15, 1e30] {
                            // angles are turns beyond pi
                            if i < rot && (x.abs() > 3.1 || x.abs() < 1e-20) {
                                continue;
                            }
                            let mut v = Values::new();
                            by_ty!(ty, V, { v.insert_unchecked(keys[0], V::identity()); });
                            put(&mut v, keys[1], other, 1);
                            let at = if first { 0 } else { m };
                            let mut map: ahash::HashMap<Key, Idx> = Default::default();
                            map.insert(keys[0], Idx { idx: at, dim: n });
                            map.insert(keys[1], Idx { idx: if first { n } else { 0 }, dim: m });
                            let mut vec = vec![0.0; n + m];
                            vec[at + i] = x;
                            v.oplus_mut(&LinearValues::from_order_and_vector(ValuesOrder::new(map), VectorX::from_vec(vec)));
                            let got: Vec<f64> = by_ty!(ty, V, v.get_unchecked::<_, V>(keys[0]).unwrap().log().iter().copied().collect());
                            for (j, g) in got.iter().enumerate() {
                                let want = if j == i { x } else { 0.0 };
                                ensure!((g - want).abs() <= 1e-6 * x.abs(), "coordinate {j} moved by {g:e} instead of {want:e}");
                            }
                            ensure!(read(&v, keys[1], other).is_some_and(|q| close(&q, &expect(other, 1, &vec![0.0; m]), 1e-12)), "a variable with a zero slice moved");
                            t.step(2);
                        }
                    }
                    t.state(&(ty as usize, other as usize, first));
                    Ok(())
                });
            }
        }
    }
    // long stores
    for n in [10usize, 40, 90, 300] {
        for s in 0..8 {
            c.case(format!("long store n={n} seed={s}"), |t| {
                hash_seed(s * 101);
                let keys: Vec<Key> = (0..n as u64).map(|i| factrs::symbols::X(i).into()).collect();
                let tys: Vec<Ty> = (0..n).map(|i| TYS[(i * (s + 1)) % TYS.len()]).collect();
                let mut v = Values::new();
                for k in 0..n {
                    put(&mut v, keys[k], tys[k], k);
                }
                let o = ValuesOrder::from_values(&v);
                let start = check_order(&o, &keys, &tys)?;
                let vec: Vec<f64> = (0..o.dim()).map(|i| 0.1 + 0.001 * i as f64).collect();
                let lv = LinearValues::from_values_and_vector(&v, VectorX::from_vec(vec.clone()));
                check_linear(&lv, &keys, &tys, &start, &vec)?;
                check_plus(&v, &lv, &keys, &tys, &start, &vec, &vec![true; n])?;
                // every other variable only, with foreign keys in between
                let half: Vec<usize> = (0..n).filter(|k| (k + s) % 2 == 0).collect();
                foreign(&v, &keys, &tys, &half, &(0..half.len()).rev().collect::<Vec<_>>(), s)?;
                t.state(&(n, s));
                t.step(3 * n as u64);
                Ok(())
            });
        }
    }
}


