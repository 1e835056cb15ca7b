//! C22: what is drawn is what was estimated.  Exploration of the conversions to rerun types (build option `rerun`).
#[path = "../../harness/src/fw.rs"]
#[allow(dead_code)]
mod fw;
use factrs::containers::{FactorBuilder, Graph, Symbol, Values};
use factrs::optimizers::{GaussNewton, GraphOptimizer, LevenMarquardt, OptObserver, Optimizer};
use factrs::rerun::RerunObserver;
use factrs::residuals::{BetweenResidual, PriorResidual};
use factrs::symbols::{B, L, P, X};
use factrs::variables::{Variable, VectorVar2, VectorVar3, SE2, SE3, SO2, SO3};
use fw::{tuples, CaseResult, Ctx, Tally};
use rerun::components::{Color, Position2D, Position3D, Vector2D, Vector3D};
use rerun::log::{Chunk, LogMsg};
use rerun::{Arrows2D, Arrows3D, Points2D, Points3D, Rotation3D, Transform3D, Vec2D, Vec3D};
use std::sync::{Arc, Mutex};

const COL: [[u8; 3]; 3] = [[255, 0, 0], [0, 255, 0], [0, 0, 255]];
/// drawn arrow: origin, vector, colour
type Arrow = (Vec<f64>, Vec<f64>, [u8; 3]);

trait Elem: Variable + Clone + 'static {
    /// where it is drawn
    fn at(p: &[f64]) -> Vec<f64>;
    fn make(p: &[f64]) -> Self;
    /// columns of the rotation matrix, from the parameters
    fn axes(p: &[f64]) -> Vec<Vec<f64>>;
}
fn rot2(a: f64) -> Vec<Vec<f64>> {
    vec![vec![a.cos(), a.sin()], vec![-a.sin(), a.cos()]]
}
fn unit(q: &[f64]) -> Vec<f64> {
    let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
    q.iter().map(|x| x / n).collect()
}
/// q v q^-1 for the three unit vectors, by quaternion products
fn rot3(q: &[f64]) -> Vec<Vec<f64>> {
    let mul = |a: [f64; 4], b: [f64; 4]| {
        [
            a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1],
            a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0],
            a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3],
            a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2],
        ]
    };
    let u = unit(q);
    let (u, c) = ([u[0], u[1], u[2], u[3]], [-u[0], -u[1], -u[2], u[3]]);
    (0..3)
        .map(|i| {
            let mut e = [0.0; 4];
            e[i] = 1.0;
            mul(mul(u, e), c)[..3].to_vec()
        })
        .collect()
}
fn so3(q: &[f64]) -> SO3 {
    let u = unit(q);
    SO3::from_xyzw(u[0], u[1], u[2], u[3])
}
impl Elem for VectorVar2 {
    fn at(p: &[f64]) -> Vec<f64> { p.to_vec() }
    fn make(p: &[f64]) -> Self { VectorVar2::new(p[0], p[1]) }
    fn axes(_: &[f64]) -> Vec<Vec<f64>> { vec![] }
}
impl Elem for VectorVar3 {
    fn at(p: &[f64]) -> Vec<f64> { p.to_vec() }
    fn make(p: &[f64]) -> Self { VectorVar3::new(p[0], p[1], p[2]) }
    fn axes(_: &[f64]) -> Vec<Vec<f64>> { vec![] }
}
impl Elem for SE2 {
    fn at(p: &[f64]) -> Vec<f64> { p[1..].to_vec() }
    fn make(p: &[f64]) -> Self { SE2::new(p[0], p[1], p[2]) }
    fn axes(p: &[f64]) -> Vec<Vec<f64>> { rot2(p[0]) }
}
impl Elem for SE3 {
    fn at(p: &[f64]) -> Vec<f64> { p[4..].to_vec() }
    fn make(p: &[f64]) -> Self { SE3::from_rot_trans(so3(&p[..4]), factrs::linalg::Vector3::new(p[4], p[5], p[6])) }
    fn axes(p: &[f64]) -> Vec<Vec<f64>> { rot3(&p[..4]) }
}
fn arrows_of<E: Elem>(p: &[f64]) -> Vec<Arrow> {
    E::axes(p).into_iter().enumerate().map(|(i, v)| (E::at(p), v, COL[i])).collect()
}

// ---------------------------------------------------------------- lattices
const COORD: [f64; 9] = [0.0, 1.0, -2.5, 0.001, -1e-7, 1234.5, -98765.0, 3.0e6, 0.3333333333];
fn angles() -> Vec<f64> {
    let mut o: Vec<f64> = (-16..=16).map(|i| i as f64 * std::f64::consts::PI / 16.0).collect();
    o.extend([1e-9, -1e-4, 0.01, 3.0, -3.1, 1.0]);
    o
}
fn quats() -> Vec<Vec<f64>> {
    let a = [-1.0, 0.0, 1.0];
    let mut o: Vec<Vec<f64>> = tuples(3, 4).into_iter().map(|t| t.iter().map(|&i| a[i]).collect::<Vec<f64>>()).filter(|q: &Vec<f64>| q.iter().any(|x| *x != 0.0)).collect();
    for s in [1e-6, 0.01, 0.3, 5.0] {
        for i in 0..4 {
            for j in 0..4 {
                if i != j {
                    for g in [1.0, -1.0] {
                        let mut q = vec![0.0; 4];
                        q[i] = 1.0;
                        q[j] = s * g;
                        q[(i + 1) % 4] += 0.25 * s;
                        o.push(q);
                    }
                }
            }
        }
    }
    o
}
fn params2(rich: bool) -> Vec<Vec<f64>> {
    let n = if rich { 9 } else { 3 };
    tuples(n, 2).into_iter().map(|t| t.iter().map(|&i| COORD[i]).collect()).collect()
}
fn params3(rich: bool) -> Vec<Vec<f64>> {
    let n = if rich { 7 } else { 3 };
    tuples(n, 3).into_iter().map(|t| t.iter().map(|&i| COORD[i]).collect()).collect()
}
fn pose2(rich: bool) -> Vec<Vec<f64>> {
    angles().into_iter().flat_map(|a| params2(rich).into_iter().map(move |p| vec![a, p[0], p[1]])).collect()
}
fn pose3(rich: bool) -> Vec<Vec<f64>> {
    quats().into_iter().enumerate().flat_map(|(k, q)| params3(rich).into_iter().enumerate().filter(move |(i, _)| rich || (i + k) % 3 == 0).map(move |(_, p)| [q.clone(), p].concat())).collect()
}

// ---------------------------------------------------------------- comparison
fn near(got: &[f32], want: &[f64]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(g, w)| (*g as f64 - w).abs() <= 3e-7 * (1.0 + w.abs()))
}
/// a translation is the estimate rounded to single precision, nothing else
fn exact(got: &[f32], want: &[f64]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(g, w)| *g == *w as f32)
}
fn rgb(c: &Color) -> [u8; 3] {
    let [r, g, b, a] = rerun::external::re_types::datatypes::Rgba32::from(c.0).to_array();
    if a == 255 { [r, g, b] } else { [1, 2, 3] }
}
fn cmp_arrows(origins: Option<Vec<Vec<f32>>>, vectors: Vec<Vec<f32>>, colors: Option<Vec<[u8; 3]>>, want: &[Arrow], no_origin: bool) -> CaseResult {
    ensure!(vectors.len() == want.len(), "{} arrows instead of {}", vectors.len(), want.len());
    let colors = colors.ok_or("no colours")?;
    ensure!(colors.len() == want.len(), "{} colours for {} arrows", colors.len(), want.len());
    for (i, w) in want.iter().enumerate() {
        ensure!(near(&vectors[i], &w.1), "arrow {i} points along {:?}, the axis is {:?}", vectors[i], w.1);
        ensure!(colors[i] == w.2, "arrow {i} has colour {:?} instead of {:?}", colors[i], w.2);
    }
    match origins {
        // without origins arrows start at zero
        None => ensure!(no_origin || want.is_empty(), "arrows have no origins"),
        Some(o) => {
            ensure!(o.len() == want.len(), "{} origins for {} arrows", o.len(), want.len());
            for (i, w) in want.iter().enumerate() {
                ensure!(exact(&o[i], &w.0), "arrow {i} starts at {:?}, the estimate is at {:?}", o[i], w.0);
            }
        }
    }
    Ok(())
}
fn p2(p: &Position2D) -> Vec<f32> { vec![p.0.x(), p.0.y()] }
fn p3(p: &Position3D) -> Vec<f32> { vec![p.0.x(), p.0.y(), p.0.z()] }
fn v2(p: &Vector2D) -> Vec<f32> { vec![p.0.x(), p.0.y()] }
fn v3(p: &Vector3D) -> Vec<f32> { vec![p.0.x(), p.0.y(), p.0.z()] }
fn a2(a: &Arrows2D, want: &[Arrow], no: bool) -> CaseResult {
    cmp_arrows(a.origins.as_ref().map(|o| o.iter().map(p2).collect()), a.vectors.iter().map(v2).collect(), a.colors.as_ref().map(|c| c.iter().map(rgb).collect()), want, no)
}
fn a3(a: &Arrows3D, want: &[Arrow], no: bool) -> CaseResult {
    cmp_arrows(a.origins.as_ref().map(|o| o.iter().map(p3).collect()), a.vectors.iter().map(v3).collect(), a.colors.as_ref().map(|c| c.iter().map(rgb).collect()), want, no)
}
fn pts(got: Vec<Vec<f32>>, want: &[Vec<f64>]) -> CaseResult {
    ensure!(got.len() == want.len(), "{} points instead of {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(exact(g, w), "point {i} is at {g:?}, the estimate is at {w:?}");
    }
    Ok(())
}
fn quat(r: &[f32; 4], q: &[f64]) -> CaseResult {
    let u = unit(q);
    let s = if r.iter().zip(&u).map(|(a, b)| *a as f64 * b).sum::<f64>() < 0.0 { -1.0 } else { 1.0 };
    let w: Vec<f64> = u.iter().map(|x| x * s).collect();
    ensure!(near(r, &w), "rotation is drawn as quaternion {r:?}, the estimate is {u:?}");
    Ok(())
}
fn e<T>(what: &str, r: Result<T, String>) -> Result<T, String> {
    r.map_err(|m| format!("{what}: {m}"))
}

// ---------------------------------------------------------------- single conversions
fn singles(c: &mut Ctx) {
    let deep = c.thorough;
    for p in params2(true) {
        c.case(format!("VectorVar2 {p:?}"), |t| {
            let x = VectorVar2::make(&p);
            for (w, v) in [("reference", Vec2D::from(&x)), ("value", Vec2D::from(x.clone()))] {
                e(w, pts(vec![vec![v.x(), v.y()]], &[p.clone()]))?;
            }
            for (w, v) in [("reference", Points2D::from(&x)), ("value", Points2D::from(x.clone()))] {
                e(w, pts(v.positions.iter().map(p2).collect(), &[p.clone()]))?;
            }
            t.step(4);
            t.state(&format!("v2{p:?}"));
            Ok(())
        });
    }
    for p in params3(true) {
        c.case(format!("VectorVar3 {p:?}"), |t| {
            let x = VectorVar3::make(&p);
            for (w, v) in [("reference", Vec3D::from(&x)), ("value", Vec3D::from(x.clone()))] {
                e(w, pts(vec![vec![v.x(), v.y(), v.z()]], &[p.clone()]))?;
            }
            for (w, v) in [("reference", Points3D::from(&x)), ("value", Points3D::from(x.clone()))] {
                e(w, pts(v.positions.iter().map(p3).collect(), &[p.clone()]))?;
            }
            t.step(4);
            t.state(&format!("v3{p:?}"));
            Ok(())
        });
    }
    for a in angles() {
        c.case(format!("SO2 {a}"), |t| {
            let x = SO2::from_theta(a);
            let want: Vec<Arrow> = rot2(a).into_iter().enumerate().map(|(i, v)| (vec![0.0; 2], v, COL[i])).collect();
            e("reference", a2(&Arrows2D::from(&x), &want, true))?;
            e("value", a2(&Arrows2D::from(x), &want, true))?;
            t.step(2);
            t.state(&format!("so2{a:?}"));
            Ok(())
        });
    }
    for q in quats() {
        c.case(format!("SO3 {q:?}"), |t| {
            let x = so3(&q);
            let want: Vec<Arrow> = rot3(&q).into_iter().enumerate().map(|(i, v)| (vec![0.0; 3], v, COL[i])).collect();
            e("reference", a3(&Arrows3D::from(&x), &want, true))?;
            e("value", a3(&Arrows3D::from(x.clone()), &want, true))?;
            for r in [Rotation3D::from(&x), Rotation3D::from(x.clone())] {
                match r {
                    Rotation3D::Quaternion(k) => quat(&k.0.xyzw(), &q)?,
                    r => return Err(format!("not a quaternion: {r:?}")),
                }
            }
            t.step(4);
            t.state(&format!("so3{q:?}"));
            Ok(())
        });
    }
    for p in pose2(deep) {
        c.case(format!("SE2 {p:?}"), |t| {
            let x = SE2::make(&p);
            let want = arrows_of::<SE2>(&p);
            e("reference", a2(&Arrows2D::from(&x), &want, false))?;
            e("value", a2(&Arrows2D::from(x.clone()), &want, false))?;
            for v in [Vec2D::from(&x), Vec2D::from(x.clone())] {
                pts(vec![vec![v.x(), v.y()]], &[SE2::at(&p)])?;
            }
            for v in [Points2D::from(&x), Points2D::from(x.clone())] {
                pts(v.positions.iter().map(p2).collect(), &[SE2::at(&p)])?;
            }
            t.step(6);
            t.state(&format!("se2{p:?}"));
            Ok(())
        });
    }
    for p in pose3(deep) {
        c.case(format!("SE3 {p:?}"), |t| {
            let x = SE3::make(&p);
            let want = arrows_of::<SE3>(&p);
            e("reference", a3(&Arrows3D::from(&x), &want, false))?;
            e("value", a3(&Arrows3D::from(x.clone()), &want, false))?;
            for v in [Vec3D::from(&x), Vec3D::from(x.clone())] {
                pts(vec![vec![v.x(), v.y(), v.z()]], &[SE3::at(&p)])?;
            }
            for v in [Points3D::from(&x), Points3D::from(x.clone())] {
                pts(v.positions.iter().map(p3).collect(), &[SE3::at(&p)])?;
            }
            for v in [Transform3D::from(&x), Transform3D::from(x.clone())] {
                let tr = v.translation.ok_or("transform without translation")?.0;
                pts(vec![vec![tr.x(), tr.y(), tr.z()]], &[SE3::at(&p)])?;
                ensure!(v.rotation_axis_angle.is_none() && v.scale.is_none() && v.mat3x3.is_none(), "transform has further parts: {v:?}");
                ensure!(v.relation.is_none() || v.relation == Some(rerun::TransformRelation::ParentFromChild), "transform goes the wrong way: {:?}", v.relation);
                quat(&v.quaternion.ok_or("transform without rotation")?.0.xyzw(), &p[..4])?;
            }
            t.step(8);
            t.state(&format!("se3{p:?}"));
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- collections
/// all sequences up to a length over a few elements, and one long one
fn lists(pool: &[Vec<f64>], top: usize) -> Vec<Vec<Vec<f64>>> {
    let small: Vec<&Vec<f64>> = (0..4).map(|i| &pool[(i * (pool.len() - 1)) / 3]).collect();
    let mut o = vec![];
    for n in 0..=top {
        o.extend(tuples(4, n).into_iter().map(|t| t.iter().map(|&i| small[i].clone()).collect::<Vec<_>>()));
    }
    for n in [7usize, 33, 200, 1000] {
        o.push((0..n).map(|i| pool[i * 7 % pool.len()].clone()).collect());
    }
    o
}
fn gathered(c: &mut Ctx) {
    let top = if c.deep { 7 } else if c.thorough { 5 } else { 4 };
    macro_rules! go {
        ($ty:ty, $pool:expr, $pt:ident, $pf:ident $(, $ar:ident, $af:ident)?) => {
            for l in lists(&$pool, top) {
                c.case(format!("{} list of {} {:?}", stringify!($ty), l.len(), &l[..l.len().min(5)]), |t| {
                    let xs: Vec<$ty> = l.iter().map(|p| <$ty>::make(p)).collect();
                    let got: $pt = xs.iter().collect();
                    pts(got.positions.iter().map($pf).collect(), &l.iter().map(|p| <$ty>::at(p)).collect::<Vec<_>>())?;
                    $(
                        let got: $ar = xs.iter().collect();
                        let want: Vec<Arrow> = l.iter().flat_map(|p| arrows_of::<$ty>(p)).collect();
                        $af(&got, &want, false)?;
                    )?
                    t.step(2 * l.len() as u64 + 2);
                    t.state(&format!("{}{l:?}", stringify!($ty)));
                    Ok(())
                });
            }
        };
    }
    go!(VectorVar2, params2(true), Points2D, p2);
    go!(VectorVar3, params3(true), Points3D, p3);
    go!(SE2, pose2(false), Points2D, p2, Arrows2D, a2);
    go!(SE3, pose3(false), Points3D, p3, Arrows3D, a3);
}

// ---------------------------------------------------------------- streaming
/// rows logged under a topic: (seconds, positions, arrows)
struct Row {
    time: f64,
    pos: Option<Vec<Vec<f32>>>,
    vec: Option<Vec<Vec<f32>>>,
    col: Option<Vec<[u8; 3]>>,
}
fn rows(msgs: Vec<LogMsg>, topic: &str) -> Result<Vec<Row>, String> {
    let mut out = vec![];
    for m in msgs {
        let LogMsg::ArrowMsg(_, a) = m else { continue };
        let ch = Chunk::from_arrow_msg(&a).map_err(|e| e.to_string())?;
        ensure!(ch.entity_path().to_string() == topic, "logged under {} instead of {topic}", ch.entity_path());
        let (_, times) = ch.timelines().iter().find(|(t, _)| !["log_time", "log_tick"].contains(&t.name().as_str())).ok_or("no time")?;
        for r in 0..ch.num_rows() {
            macro_rules! get {
                ($t:ty, $f:expr) => {
                    match ch.component_batch::<$t>(r) { Some(Ok(v)) => Some(v.iter().map($f).collect::<Vec<_>>()), Some(Err(e)) => return Err(e.to_string()), None => None }
                };
            }
            out.push(Row {
                time: times.times_raw()[r] as f64 * 1e-9,
                pos: get!(Position2D, p2).or(get!(Position3D, p3)),
                vec: get!(Vector2D, v2).or(get!(Vector3D, v3)),
                col: get!(Color, rgb),
            });
        }
    }
    Ok(out)
}
/// compare a logged row with a set of estimates, in any order
fn check_row<E: Elem>(r: &Row, time: f64, want: &[Vec<f64>], arrows: bool) -> CaseResult {
    ensure!((r.time - time).abs() < 1e-6, "logged at time {} instead of {time}", r.time);
    let d = if want.is_empty() { 2 } else { E::at(&want[0]).len() };
    let pos = r.pos.clone().unwrap_or_default();
    if !arrows {
        let mut a: Vec<String> = pos.iter().map(|p| format!("{p:?}")).collect();
        let mut b: Vec<String> = want.iter().map(|p| format!("{:?}", E::at(p).iter().map(|x| *x as f32).collect::<Vec<_>>())).collect();
        a.sort();
        b.sort();
        ensure!(a == b, "points {a:?}, the estimates are {b:?}");
        return Ok(());
    }
    let (vec, col) = (r.vec.clone().unwrap_or_default(), r.col.clone().unwrap_or_default());
    ensure!(vec.len() == d * want.len() && pos.len() == vec.len() && col.len() == vec.len(), "{} arrows, {} origins and {} colours for {} poses", vec.len(), pos.len(), col.len(), want.len());
    let mut left: Vec<&Vec<f64>> = want.iter().collect();
    for k in 0..want.len() {
        let g = |v: &Vec<Vec<f32>>| v[k * d..(k + 1) * d].to_vec();
        let i = left.iter().position(|p| cmp_arrows(Some(g(&pos)), g(&vec), Some(col[k * d..(k + 1) * d].to_vec()), &arrows_of::<E>(p), false).is_ok());
        ensure!(i.is_some(), "arrows {:?} from {:?} show none of the estimates {left:?}", g(&vec), g(&pos));
        left.remove(i.unwrap());
    }
    Ok(())
}
fn stream<F: FnOnce(rerun::RecordingStream) -> CaseResult>(topic: &str, f: F) -> Result<Vec<Row>, String> {
    let (rec, store) = rerun::RecordingStreamBuilder::new("mc").memory().map_err(|e| e.to_string())?;
    f(rec.clone())?;
    rec.flush_blocking();
    rows(store.take(), topic)
}
fn put<E: Elem + factrs::variables::VariableUmbrella>(v: &mut Values, s: impl Symbol, p: &[f64]) {
    v.insert_unchecked(s, E::make(p));
}
fn observed(c: &mut Ctx) {
    // contents: up to n variables of each type, other types next to them
    macro_rules! go {
        ($ty:ty, $pool:expr, $re:ident, $arrows:expr) => {
            let pool = $pool;
            for n in [0usize, 1, 2, 3, 5, 20] {
                for others in 0..8usize {
                    c.case(format!("observer {} as {}: {n} variables, others #{others}", stringify!($ty), stringify!($re)), |t| {
                        let topic = ["base/solution", "a"][others % 2];
                        let mut sets = vec![];
                        for step in 0..3usize {
                            let ps: Vec<Vec<f64>> = (0..n).map(|i| pool[(i * 5 + step * 11 + others) % pool.len()].clone()).collect();
                            let mut v = Values::new();
                            for (i, p) in ps.iter().enumerate() {
                                put::<$ty>(&mut v, X(i as u64), p);
                            }
                            if others & 1 > 0 { v.insert_unchecked(L(0), SO2::from_theta(0.3)); v.insert_unchecked(L(1), SO3::identity()); }
                            if others & 2 > 0 { v.insert_unchecked(P(0), factrs::variables::VectorVar::<4>::identity()); }
                            if others & 4 > 0 { v.insert_unchecked(B(0), factrs::variables::ImuBias::identity()); }
                            sets.push((v, ps));
                        }
                        let times = [[1.0, 2.0, 3.0], [5.0, 6.0, 8.0], [1.0, 40.0, 1000.0]][others % 3];
                        let rs = stream(&format!("/{topic}"), |rec| {
                            let o = RerunObserver::<$ty, $re>::new(rec, topic);
                            for (k, (v, _)) in sets.iter().enumerate() { o.on_step(v, times[k]); }
                            Ok(())
                        })?;
                        // each step appears exactly once
                        ensure!(rs.len() == 3, "{} rows for 3 steps", rs.len());
                        for (k, (_, ps)) in sets.iter().enumerate() {
                            let r = rs.iter().find(|r| (r.time - times[k]).abs() < 1e-6).ok_or(format!("step {k} is not logged"))?;
                            check_row::<$ty>(r, times[k], ps, $arrows)?;
                            t.step(1);
                        }
                        t.state(&format!("{}{}{n}{others}", stringify!($ty), stringify!($re)));
                        Ok(())
                    });
                }
            }
        };
    }
    go!(VectorVar2, params2(true), Points2D, false);
    go!(VectorVar3, params3(true), Points3D, false);
    go!(SE2, pose2(false), Points2D, false);
    go!(SE2, pose2(false), Arrows2D, true);
    go!(SE3, pose3(false), Points3D, false);
    go!(SE3, pose3(false), Arrows3D, true);
}
/// long histories: every step number appears once, with that step's estimates
fn long(c: &mut Ctx) {
    let pool = pose2(false);
    for steps in [1usize, 2, 9, 10, 11, 12, 40, 130] {
        for n in [0usize, 1, 3] {
            for same in [false, true] {
                for arrows in [false, true] {
                    c.case(format!("{steps} steps of {n} poses, unchanged {same}, arrows {arrows}"), |t| {
                        let sets: Vec<Vec<Vec<f64>>> = (0..steps).map(|k| (0..n).map(|i| pool[(i * 5 + if same { 0 } else { k * 7 }) % pool.len()].clone()).collect()).collect();
                        let rs = stream("/a/b/c", |rec| {
                            let p = RerunObserver::<SE2, Points2D>::new(rec.clone(), "a/b/c");
                            let q = RerunObserver::<SE2, Arrows2D>::new(rec, "a/b/c");
                            for (k, ps) in sets.iter().enumerate() {
                                let mut v = Values::new();
                                for (i, x) in ps.iter().enumerate() {
                                    put::<SE2>(&mut v, X(i as u64), x);
                                }
                                if arrows { q.on_step(&v, (k + 1) as f64) } else { p.on_step(&v, (k + 1) as f64) }
                            }
                            Ok(())
                        })?;
                        ensure!(rs.len() == steps, "{} rows for {steps} steps", rs.len());
                        for (k, ps) in sets.iter().enumerate() {
                            let time = (k + 1) as f64;
                            let r = rs.iter().find(|r| (r.time - time).abs() < 1e-6).ok_or(format!("step {time} is not logged"))?;
                            check_row::<SE2>(r, time, ps, arrows).map_err(|e| format!("step {time}: {e}"))?;
                            t.step(1);
                        }
                        t.state(&(steps, n, same, arrows));
                        Ok(())
                    });
                }
            }
        }
    }
}
struct Rec(Arc<Mutex<Vec<(f64, Vec<(Vec<f32>, Vec<f64>)>)>>>);
impl OptObserver for Rec {
    type Input = Values;
    fn on_step(&self, v: &Values, i: f64) {
        self.0.lock().unwrap().push((i, v.filter::<SE2>().map(|x| (vec![x.x() as f32, x.y() as f32], vec![])).collect()));
    }
}
fn optimised(c: &mut Ctx) {
    for n in 2..=4u64 {
        for lm in [false, true] {
            for shift in 0..3 {
                c.case(format!("optimising {n} 2D poses, levenberg {lm}, start #{shift}"), |t: &mut Tally| {
                    let mut g = Graph::new();
                    g.add_factor(FactorBuilder::new1_unchecked(PriorResidual::new(SE2::new(0.1, 1.0, 2.0)), X(0)).build());
                    for i in 1..n {
                        g.add_factor(FactorBuilder::new2_unchecked(BetweenResidual::new(SE2::new(0.7, 1.0, -0.5)), X(i - 1), X(i)).build());
                    }
                    let mut v = Values::new();
                    for i in 0..n {
                        v.insert_unchecked(X(i), SE2::new(0.2 * i as f64 + 0.1 * shift as f64, i as f64, 1.0));
                    }
                    let log = Arc::new(Mutex::new(vec![]));
                    let l2 = log.clone();
                    let rs = stream("/t", |rec| {
                        let (a, b) = (Rec(l2), RerunObserver::<SE2, Points2D>::new(rec, "t"));
                        if lm {
                            let mut o: LevenMarquardt = LevenMarquardt::new(g);
                            o.observers.add(a);
                            o.observers.add(b);
                            o.optimize(v).map_err(|_| "optimisation failed")?;
                        } else {
                            let mut o: GaussNewton = GaussNewton::new(g);
                            o.observers.add(a);
                            o.observers.add(b);
                            o.optimize(v).map_err(|_| "optimisation failed")?;
                        }
                        Ok(())
                    })?;
                    let log = log.lock().unwrap();
                    ensure!(!log.is_empty() && rs.len() == log.len(), "{} rows for {} steps", rs.len(), log.len());
                    for (k, (i, ps)) in log.iter().enumerate() {
                        ensure!(*i == (k + 1) as f64, "step number {i}");
                        let r = rs.iter().find(|r| (r.time - i).abs() < 1e-6).ok_or("a step is not logged")?;
                        let mut a: Vec<String> = r.pos.clone().unwrap_or_default().iter().map(|p| format!("{p:?}")).collect();
                        let mut b: Vec<String> = ps.iter().map(|p| format!("{:?}", p.0)).collect();
                        a.sort();
                        b.sort();
                        ensure!(a == b, "step {i}: drawn {a:?}, estimated {b:?}");
                        t.step(1);
                    }
                    t.state(&(n, lm, shift));
                    Ok(())
                });
            }
        }
    }
}
fn c22(c: &mut Ctx) {
    singles(c);
    gathered(c);
    observed(c);
    long(c);
    optimised(c);
}
fn main() {
    fw::install_hash_control();
    fw::install_panic_hook();
    let mut a = std::env::args().skip(1);
    let prop = a.next().expect("usage: mcr C22 [--level 0|1|2] [--replay <case>] [--out file] [--threads n]");
    let mut o = fw::Opts { prop: prop.clone(), thorough: false, deep: false, replay: None, threads: 8, out: "-".into() };
    while let Some(x) = a.next() {
        let v = a.next().expect("missing value");
        match x.as_str() {
            "--level" => {
                let n: u32 = v.parse().unwrap();
                o.thorough = n >= 1;
                o.deep = n >= 2;
            }
            "--replay" => o.replay = Some(v),
            "--out" => o.out = v,
            "--threads" => o.threads = v.parse().unwrap(),
            _ => panic!("unknown option {x}"),
        }
    }
    assert!(prop == "C22", "unknown property {prop}");
    let r = fw::run(&o, c22);
    fw::write_report(&prop, &o.out, o.thorough, &r, "");
    std::process::exit(if r.viols.is_empty() { 0 } else { 1 });
}
