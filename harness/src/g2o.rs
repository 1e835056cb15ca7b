//! C18: every g2o file over a line alphabet, against the pose graph the lines describe.
use crate::ensure;
use crate::fw::*;
use crate::refm::*;
use crate::vars::*;
use factrs::containers::{Idx, Key, Values, ValuesOrder};
use factrs::symbols::X;
use factrs::utils::load_g20;
use factrs::variables::*;
use std::collections::BTreeMap;
use std::io::Write;

pub trait Fmt: RV {
    const V: &'static str;
    const E: &'static str;
    fn pose_text(p: &[f64]) -> String;
    /// pose parameters as listed in the file -> matrix
    fn pose_m(p: &[f64]) -> Mat;
    /// file ordering of the information matrix: entry i of the library's tangent is entry PERM[i] of the file's
    const PERM: &'static [usize];
}
fn num(x: f64, style: usize) -> String {
    match style % 6 {
        0 => format!("{x}"),
        1 => format!("{x:e}"),
        2 => format!("{x:.17}"),
        3 => format!("{x:+}"),
        4 => format!("{x:E}"),
        _ => format!("{x:.20}"),
    }
}
impl Fmt for SE2 {
    const V: &'static str = "VERTEX_SE2";
    const E: &'static str = "EDGE_SE2";
    const PERM: &'static [usize] = &[2, 0, 1];
    fn pose_text(p: &[f64]) -> String {
        p.iter().enumerate().map(|(i, &x)| num(x, i)).collect::<Vec<_>>().join(" ")
    }
    fn pose_m(p: &[f64]) -> Mat {
        let (s, c) = p[2].sin_cos();
        Mat::from_rows(&[vec![c, -s, p[0]], vec![s, c, p[1]], vec![0.0, 0.0, 1.0]])
    }
}
impl Fmt for SE3 {
    const V: &'static str = "VERTEX_SE3:QUAT";
    const E: &'static str = "EDGE_SE3:QUAT";
    const PERM: &'static [usize] = &[3, 4, 5, 0, 1, 2];
    fn pose_text(p: &[f64]) -> String {
        SE2::pose_text(p)
    }
    fn pose_m(p: &[f64]) -> Mat {
        let mut m = Mat::eye(4);
        let q = norm(&p[3..7]);
        m.put(0, 0, &quat_m(&p[3..7].iter().map(|x| x / q).collect::<Vec<_>>()));
        for i in 0..3 {
            m.set(i, 3, p[i]);
        }
        m
    }
}
fn quat(axis: [f64; 3], ang: f64, neg: bool) -> Vec<f64> {
    let n = norm(&axis);
    let s = (ang / 2.0).sin() / n;
    let k = if neg { -1.0 } else { 1.0 };
    vec![axis[0] * s * k, axis[1] * s * k, axis[2] * s * k, (ang / 2.0).cos() * k]
}
fn pose3(k: usize) -> Vec<f64> {
    let (t, a, g, n): ([f64; 3], [f64; 3], f64, bool) = match k {
        0 => ([0.0, 0.0, 0.0], [0.0, 0.0, 1.0], 0.0, false),
        1 => ([1.5, -2.0, 0.25], [1.0, 2.0, -1.0], 0.9, false),
        2 => ([-3.0, 0.5, 7.0], [0.0, 1.0, 0.3], 2.2, true),
        3 => ([0.3, 0.1, -0.2], [-1.0, 0.0, 2.0], 0.4, false),
        4 => ([-1.0, 2.0, 0.5], [0.3, 0.3, 1.0], -1.3, true),
        _ => ([10.0, -20.0, 30.0], [1.0, -1.0, 0.5], 3.0, false),
    };
    let mut p = t.to_vec();
    p.extend(quat(a, g, n));
    p
}
fn pose2(k: usize) -> Vec<f64> {
    match k {
        0 => vec![0.0, 0.0, 0.0],
        1 => vec![1.5, -2.0, 0.9],
        2 => vec![-3.0, 0.5, -2.2],
        3 => vec![0.3, 0.1, 0.4],
        4 => vec![-1.0, 2.0, -1.3],
        _ => vec![10.0, -20.0, 3.0],
    }
}
/// information matrix number k in the file's ordering
fn info(n: usize, k: usize) -> Mat {
    let mut l = Mat::zeros(n, n);
    for i in 0..n {
        l.set(i, i, 1.0 + ((i * 7 + k * 3) % 5) as f64);
        for j in 0..i {
            if k > 0 {
                l.set(i, j, 0.25 * (((i * 5 + j * 3 + k * 11) % 7) as f64 - 3.0));
            }
        }
    }
    l.mul(&l.t())
}
#[derive(Clone)]
enum Line {
    Vert(u64, Vec<f64>),
    Edge(u64, u64, Vec<f64>, Mat),
    Other(&'static str),
}
fn text<V: Fmt>(l: &Line) -> String {
    match l {
        Line::Vert(i, p) => format!("{} {i} {}", V::V, V::pose_text(p)),
        Line::Edge(i, j, p, m) => {
            let mut s = format!("{} {i} {j} {}", V::E, V::pose_text(p));
            for a in 0..m.r {
                for b in a..m.r {
                    s += &format!(" {}", num(m.at(a, b), a * b));
                }
            }
            s
        }
        Line::Other(s) => s.to_string(),
    }
}
/// the file's information matrix in the library's tangent order
fn reorder<V: Fmt>(m: &Mat) -> Mat {
    let mut o = Mat::zeros(m.r, m.r);
    for i in 0..m.r {
        for j in 0..m.r {
            o.set(i, j, m.at(V::PERM[i], V::PERM[j]));
        }
    }
    o
}
/// an edge's share of [J r]' info [J r] at a point: (2n+1) x (2n+1)
fn edge_gram<V: Fmt>(z: &Mat, x1: &Mat, x2: &Mat, inf: &Mat) -> Mat {
    let n = V::N;
    let f = |d: &[f64]| ominus_r::<V>(&oplus_r::<V>(x1, &d[0..n]).mul(z), &oplus_r::<V>(x2, &d[n..2 * n]));
    let mut jr = Mat::zeros(n, 2 * n + 1);
    jr.put(0, 0, &fd_jac(2 * n, 1e-3, f));
    jr.put(0, 2 * n, &Mat::col(&f(&vec![0.0; 2 * n])));
    jr.t().mul(inf).mul(&jr)
}
struct Pt {
    at: BTreeMap<u64, Mat>,
}
type Cache = BTreeMap<(usize, usize), Mat>;

/// judge one file; `lines` index into `alpha` (for the cache of edge shares)
fn judge<V: Fmt>(t: &mut Tally, alpha: &[Line], lines: &[usize], tail: usize, pts: &[Pt], cache: &mut Cache, dir: &str) -> CaseResult {
    let path = format!("{dir}/{:?}-{}.g2o", std::thread::current().id(), V::NAME);
    {
        let mut f = std::fs::File::create(&path).map_err(|e| format!("harness: {e}"))?;
        let txt: Vec<String> = lines.iter().map(|&i| text::<V>(&alpha[i])).collect();
        let (sep, end) = match tail {
            0 => ("\n", "\n"),
            1 => ("\n", ""),
            2 => (" \n", " \n"),
            3 => ("\r\n", "\r\n"),
            _ => ("\n", "\n\n"),
        };
        let txt: Vec<String> = txt.into_iter().enumerate().map(|(k, l)| match tail {
            4 => l.replace(' ', "\t"),
            5 => l.replace(' ', "  "),
            6 => format!("  {l}\t "),
            7 => l.replacen(' ', &" ".repeat(1 + k % 3), 3),
            _ => l,
        }).collect();
        let mut s = txt.join(sep);
        if !txt.is_empty() {
            s += end;
        }
        f.write_all(s.as_bytes()).map_err(|e| format!("harness: {e}"))?;
    }
    let (g, v) = guarded(|| load_g20(&path))?;
    let mut verts: BTreeMap<u64, Mat> = BTreeMap::new();
    let mut first = None;
    let mut edges = 0;
    for &i in lines {
        match &alpha[i] {
            Line::Vert(id, p) => {
                if first.is_none() {
                    first = Some(*id);
                }
                verts.insert(*id, V::pose_m(p));
            }
            Line::Edge(..) => edges += 1,
            _ => {}
        }
    }
    ensure!(v.len() == verts.len(), "{} variables for {} vertices", v.len(), verts.len());
    for (id, m) in &verts {
        let x: &V = v.get_unchecked(X(*id)).ok_or_else(|| format!("vertex {id} is missing"))?;
        ensure!(close(&x.m(), m, 1e-9), "vertex {id} is {:?}, the file says {m:?}", x.m());
    }
    let want = edges + first.is_some() as usize;
    ensure!(g.len() == want, "{} factors, expected {want}", g.len());
    t.step(lines.len() as u64);
    if want == 0 {
        return Ok(());
    }
    let n = V::N;
    for (pi, pt) in pts.iter().enumerate() {
        // only the ids the file mentions
        let mut used: Vec<u64> = lines.iter().flat_map(|&i| match &alpha[i] { Line::Vert(a, _) => vec![*a], Line::Edge(a, b, ..) => vec![*a, *b], _ => vec![] }).collect();
        used.sort();
        used.dedup();
        let mut vals = Values::new();
        let mut map = ahash::HashMap::default();
        for (k, id) in used.iter().enumerate() {
            vals.insert_unchecked(X(*id), V::of(&pt.at[id]));
            map.insert(Key::from(X(*id)), Idx { idx: k * n, dim: n });
        }
        let dim = used.len() * n;
        let off = |id: u64| used.iter().position(|u| *u == id).unwrap() * n;
        let go = g.sparsity_pattern(ValuesOrder::new(map));
        let r = g.linearize(&vals).residual_jacobian(&go);
        let a = {
            let d = r.diff.to_dense();
            let mut m = Mat::zeros(d.nrows(), d.ncols() + 1);
            for i in 0..d.nrows() {
                for j in 0..d.ncols() {
                    m.set(i, j, d.read(i, j));
                }
                m.set(i, d.ncols(), -r.value.read(i, 0));
            }
            m
        };
        let got = a.t().mul(&a);
        let mut want = Mat::zeros(dim + 1, dim + 1);
        for &i in lines {
            if let Line::Edge(p, q, z, inf) = &alpha[i] {
                let gm = cache.entry((i, pi)).or_insert_with(|| edge_gram::<V>(&V::pose_m(z), &pt.at[p], &pt.at[q], &reorder::<V>(inf)));
                let idx: Vec<usize> = (off(*p)..off(*p) + n).chain(off(*q)..off(*q) + n).chain([dim]).collect();
                for (x, &i) in idx.iter().enumerate() {
                    for (y, &j) in idx.iter().enumerate() {
                        want.add_at(i, j, gm.at(x, y));
                    }
                }
            }
        }
        let rest = got.sub(&want);
        // strengths of the prior are free, so everything is judged relative to the information at hand
        let floor = if first.is_some() { 1.0 + want.maxabs() } else { 0.0 };
        // without a prior every entry is judged on its own scale, whatever the size of the information
        let top = want.maxabs() * 1e-12;
        let tol = |i: usize, j: usize| 1e-6 * (floor + ((want.at(i, i) + top) * (want.at(j, j) + top)).sqrt());
        let f0 = first.map(off);
        let inside = |i: usize| f0.is_some_and(|o| (o..o + n).contains(&i)) || i == dim && f0.is_some();
        for i in 0..=dim {
            for j in 0..=dim {
                if !(inside(i) && inside(j)) {
                    ensure!(rest.at(i, j).abs() <= tol(i, j), "point {pi}: information entry ({i},{j}) of {used:?} is {}, the edges give {}", got.at(i, j), want.at(i, j));
                }
            }
        }
        if let (Some(o), Some(id)) = (f0, first) {
            let m = rest.block(o, o, n, n);
            for k in 1..=n {
                ensure!(m.block(0, 0, k, k).det() > 0.0, "point {pi}: no full prior on the first vertex: {m:?}");
            }
            // J M^-1 J' W r = r whatever the prior's strength: the prior must measure the file's pose
            let z = &verts[&id];
            let x = &pt.at[&id];
            let f = |d: &[f64]| ominus_r::<V>(z, &oplus_r::<V>(x, d));
            let j = fd_jac(n, 1e-3, f);
            let r0 = f(&vec![0.0; n]);
            let grad = rest.block(o, dim, n, 1);
            let back = j.mul(&m.solve(&grad).ok_or("prior is singular")?);
            ensure!(vclose(&back.d, &r0, 2e-5 * (1.0 + norm(&r0)) * (1.0 + want.maxabs()).max(1.0)), "point {pi}: the prior on vertex {id} measures {:?}, expected {r0:?}", back.d);
        }
        // costs agree with the linearisation
        let e = g.error(&vals);
        ensure!((2.0 * e - got.at(dim, dim)).abs() <= 1e-9 * (f0.is_some() as u8 as f64 + e), "point {pi}: cost {e}");
        if let (Some(o), 0) = (f0, pi) {
            // at the file's own poses the prior costs nothing
            let _ = o;
            ensure!(rest.at(dim, dim).abs() <= 1e-6 * (1.0 + want.at(dim, dim)), "cost beyond the edges at the file's poses: {}", rest.at(dim, dim));
        }
        t.step(1);
    }
    t.state(&(V::NAME, lines.to_vec(), tail));
    Ok(())
}
fn points<V: Fmt>(alpha: &[Line]) -> Vec<Pt> {
    let mut base = BTreeMap::new();
    for l in alpha {
        if let Line::Vert(i, p) = l {
            base.entry(*i).or_insert_with(|| V::pose_m(p));
        }
    }
    let moved = base.iter().enumerate().map(|(k, (i, m))| {
        let d: Vec<f64> = (0..V::N).map(|j| 0.3 * (((k * 5 + j * 3) % 7) as f64 - 3.0) / 3.0 + 0.01 * j as f64).collect();
        (*i, m.mul(&V::exp_r(&d)))
    });
    vec![Pt { at: moved.collect() }, Pt { at: base }].into_iter().rev().collect()
}
fn files<V: Fmt>(c: &mut Ctx, name: &str, pose: fn(usize) -> Vec<f64>, len: usize, dir: &str) {
    let n = V::N;
    let ids = [0u64, 1, 7];
    let mut alpha: Vec<Line> = ids.iter().enumerate().map(|(k, i)| Line::Vert(*i, pose(k))).collect();
    for (k, (a, b)) in [(0, 1), (1, 0), (1, 7), (7, 0)].iter().enumerate() {
        alpha.push(Line::Edge(*a, *b, pose(3 + k % 3), info(n, k % 3)));
    }
    alpha.push(Line::Other("FIX 0"));
    alpha.push(Line::Other(""));
    alpha.push(Line::Other("# VERTEX_SE2 5 1 1 1"));
    let nv = ids.len();
    let pts = points::<V>(&alpha);
    let mut cache = Cache::new();
    for l in 0..=len {
        for w in tuples(alpha.len(), l) {
            // a vertex is listed once
            if (0..nv).any(|v| w.iter().filter(|&&x| x == v).count() > 1) {
                continue;
            }
            let tail = w.iter().sum::<usize>() % 3;
            let (alpha, pts, cache) = (&alpha, &pts, &mut cache);
            c.case(format!("{name} lines {w:?} ending {tail}"), |t| judge::<V>(t, alpha, &w, tail, pts, cache, dir));
        }
    }
    // every order of a complete small graph
    for p in permutations(7) {
        if len < 5 && p[0] % 2 == 1 && p[1] > 3 {
            continue;
        }
        let (alpha, pts, cache) = (&alpha, &pts, &mut cache);
        c.case(format!("{name} lines {p:?} ending 0"), |t| judge::<V>(t, alpha, &p, 0, pts, cache, dir));
    }
    // information matrices: every entry, alone and together with every other entry
    let mut probes: Vec<(String, Mat)> = vec![];
    let ents: Vec<(usize, usize)> = (0..n).flat_map(|i| (i..n).map(move |j| (i, j))).collect();
    for (x, &(i, j)) in ents.iter().enumerate() {
        for &(p, q) in &ents[x..] {
            let mut m = Mat::eye(n).scale(4.0);
            for (a, b, d) in [(i, j, 1.0), (p, q, -0.75)] {
                m.add_at(a, b, d);
                if a != b {
                    m.add_at(b, a, d);
                }
            }
            probes.push((format!("{i}{j} and {p}{q}"), m));
        }
    }
    for s in [1e-4, 1.0, 1e4] {
        for k in 0..8 {
            probes.push((format!("full #{k} scale {s}"), info(n, k).scale(s)));
        }
    }
    // information of any size, and of different units for every coordinate: edges without their vertices, so that no
    // prior is in the way
    for e in [-12, -8, -4, 0, 4, 6, 8, 10, 12] {
        for u in 0..=n {
            for k in 0..4 {
                c.case(format!("{name} information 1e{e} coordinate {u} in units of 1e3, full #{k}"), |t| {
                    let mut m = info(n, k).scale(10f64.powi(e));
                    for i in 0..n {
                        for (a, b) in [(i, u), (u, i)] {
                            if u < n {
                                m.set(a, b, m.at(a, b) * 1e3);
                            }
                        }
                    }
                    let al = vec![Line::Vert(0, pose(1)), Line::Vert(1, pose(2)), Line::Edge(1, 0, pose(3 + k % 2), m)];
                    judge::<V>(t, &al, &[2], 0, &points::<V>(&al), &mut Cache::new(), dir)
                });
            }
        }
    }
    for z in [0usize, 3, 4, 5] {
        for (what, m) in &probes {
            c.case(format!("{name} measurement #{z} information {what}"), |t| {
                let al = vec![Line::Vert(0, pose(1)), Line::Vert(1, pose(2)), Line::Edge(1, 0, pose(z), m.clone())];
                let pts = points::<V>(&al);
                judge::<V>(t, &al, &[0, 2, 1], 0, &pts, &mut Cache::new(), dir)
            });
        }
    }
    // poses: every vertex pose with every measurement, and large vertex numbers
    for a in 0..6 {
        for b in 0..6 {
            for z in 0..6 {
                for (i, j) in [(3u64, 12u64), (4294967295, 0), (1000000, 999999)] {
                    c.case(format!("{name} poses {a} {b} measurement {z} vertices {i} {j}"), |t| {
                        let al = vec![Line::Vert(i, pose(a)), Line::Other("UNKNOWN 1 2 3"), Line::Edge(i, j, pose(z), info(n, 2)), Line::Vert(j, pose(b))];
                        // keep the residual's rotation away from half a turn
                        let pts = points::<V>(&al);
                        for p in &pts {
                            let r = ominus_r::<V>(&p.at[&i].mul(&V::pose_m(&pose(z))), &p.at[&j]);
                            if norm(&r[0..V::ROT]) > 2.9 {
                                t.count("cut: near half a turn", 1);
                                return Ok(());
                            }
                        }
                        judge::<V>(t, &al, &[1, 0, 2, 3], 0, &pts, &mut Cache::new(), dir)
                    });
                }
            }
        }
    }
}

/// layouts, number styles, wide angles, rounded quaternions and long files
fn more<V: Fmt>(c: &mut Ctx, name: &str, pose: fn(usize) -> Vec<f64>, dir: &str) {
    let n = V::N;
    for tail in 0..8 {
        for p in permutations(4) {
            c.case(format!("{name} layout {tail} order {p:?}"), |t| {
                let al = vec![Line::Vert(5, pose(1)), Line::Vert(2, pose(2)), Line::Edge(5, 2, pose(3), info(n, 1)), Line::Edge(2, 5, pose(4), info(n, 2))];
                judge::<V>(t, &al, &p, tail, &points::<V>(&al), &mut Cache::new(), dir)
            });
        }
    }
    // the same pair measured several times, with equal and different edges
    for k in 1..=8usize {
        c.case(format!("{name} {k} parallel edges"), |t| {
            let mut al = vec![Line::Vert(1, pose(1)), Line::Vert(0, pose(2))];
            for i in 0..k {
                al.push(Line::Edge(1, 0, pose(3 + i % 2), info(n, i / 2)));
            }
            let w: Vec<usize> = (0..al.len()).collect();
            judge::<V>(t, &al, &w, 0, &points::<V>(&al), &mut Cache::new(), dir)?;
            // twice the very same lines
            let w: Vec<usize> = (0..al.len()).chain(2..al.len()).collect();
            judge::<V>(t, &al, &w, 1, &points::<V>(&al), &mut Cache::new(), dir)
        });
    }
    // magnitudes of poses and measurements
    for s in [1e-9, 1e-6, 1e-3, 1.0, 1e2, 1e4] {
        for a in 0..6 {
            c.case(format!("{name} translations scaled by {s} pose {a}"), |t| {
                let sc = |k: usize| { let mut p = pose(k); for x in p.iter_mut().take(V::N - V::ROT) { *x *= s; } p };
                let al = vec![Line::Vert(3, sc(a)), Line::Vert(4, sc((a + 1) % 6)), Line::Edge(4, 3, sc((a + 3) % 6), info(n, 0))];
                let z = points::<V>(&al);
                for p in &z {
                    let r = ominus_r::<V>(&p.at[&4].mul(&V::pose_m(&sc((a + 3) % 6))), &p.at[&3]);
                    if norm(&r[0..V::ROT]) > 2.9 {
                        t.count("cut: near half a turn", 1);
                        return Ok(());
                    }
                }
                // beyond that, the edge's finite differences drown the prior: vertices and edges are listed apart
                if s <= 1e2 {
                    judge::<V>(t, &al, &[0, 1, 2], 0, &z, &mut Cache::new(), dir)
                } else {
                    judge::<V>(t, &al, &[0, 1], 0, &z, &mut Cache::new(), dir)?;
                    judge::<V>(t, &al, &[2], 0, &z, &mut Cache::new(), dir)
                }
            });
        }
    }
    // long files: odometry chains with loop closures and unknown lines in between; only structure and poses are
    // compared through the full system for the shorter ones
    let sizes: &[usize] = if c.thorough { &[5, 12, 20, 40, 60] } else { &[5, 12, 20] };
    for &len in sizes {
        for order in 0..4 {
            c.case(format!("{name} chain of {len} layout {order}"), |t| {
                let mut al = vec![];
                for i in 0..len {
                    let mut p = pose(1 + i % 2);
                    p[0] += i as f64;
                    al.push(Line::Vert(i as u64 * 3, p));
                }
                for i in 1..len {
                    let (x, y) = (3 * (i as u64 - 1), 3 * i as u64);
                    let mut z = pose(3);
                    z[1] += 0.01 * i as f64;
                    al.push(if i % 4 == 3 { Line::Edge(y, x, z, info(n, i % 5)) } else { Line::Edge(x, y, z, info(n, i % 5)) });
                    if i % 3 == 0 {
                        al.push(Line::Edge(y, 3 * (i as u64 - 3), pose(4), info(n, i % 4)));
                    }
                }
                al.push(Line::Other("FIX 0"));
                let m = al.len();
                let w: Vec<usize> = match order {
                    0 => (0..m).collect(),
                    1 => (0..m).rev().collect(),
                    2 => (len..m).chain(0..len).collect(),
                    _ => (0..m).step_by(2).chain((1..m).step_by(2)).collect(),
                };
                judge::<V>(t, &al, &w, order, &points::<V>(&al), &mut Cache::new(), dir)
            });
        }
    }
}
fn rounded(c: &mut Ctx, dir: &str) {
    // quaternions written with few digits, or not normalised at all, still mean the rotation along them
    for digits in 2..=9 {
        for k in 1..6 {
            for s in [1.0, 2.0, 0.1] {
                c.case(format!("SE3 quaternions with {digits} digits pose {k} norm {s}"), |t| {
                    let rnd = |k: usize| { let mut p = pose3(k); for x in p[3..7].iter_mut() { *x = format!("{:.*}", digits, *x * s).parse().unwrap(); } p };
                    let al = vec![Line::Vert(3, rnd(k)), Line::Vert(4, pose3(0)), Line::Edge(4, 3, rnd(3), info(6, 1))];
                    judge::<SE3>(t, &al, &[2, 0, 1], 0, &points::<SE3>(&al), &mut Cache::new(), dir)
                });
            }
        }
    }
    // headings of any size are the direction they point to
    for a in [-1e3, -7.0, -6.283185307179586, -4.0, -3.141592653589793, -3.0, -1e-9, 0.0, 1e-9, 1.0, 3.141592653589793, 3.2, 6.0, 6.5, 100.0] {
        for k in 0..3 {
            c.case(format!("SE2 heading {a} role {k}"), |t| {
                let h = |on: bool, k: usize| { let mut p = pose2(k); if on { p[2] = a; } p };
                // the other heading keeps the residual's rotation small
                let mut two = h(k == 1, 2);
                let mut one = h(k == 0, 1);
                let z = h(k == 2, 3);
                if k == 1 { one[2] = two[2] - z[2] + 0.3 } else { two[2] = one[2] + z[2] - 0.2 }
                let al = vec![Line::Vert(3, one), Line::Vert(4, two), Line::Edge(3, 4, z, info(3, 1))];
                judge::<SE2>(t, &al, &[2, 0, 1], 0, &points::<SE2>(&al), &mut Cache::new(), dir)
            });
        }
    }
}
pub fn c18(c: &mut Ctx) {
    let dir = std::env::var("MC_SCRATCH").expect("MC_SCRATCH");
    let len = if c.thorough { 5 } else { 4 };
    files::<SE2>(c, "SE2", pose2, len, &dir);
    files::<SE3>(c, "SE3", pose3, len, &dir);
    more::<SE2>(c, "SE2", pose2, &dir);
    more::<SE3>(c, "SE3", pose3, &dir);
    rounded(c, &dir);
    // lines that only look like vertices or edges, in every position
    let odd: [&'static str; 14] = ["VERTEX_SE2X 9 1 1 1", "EDGE_SE2_XY 0 1 1 1 1 0 1", "VERTEX_XY 3 1 2", "vertex_se2 9 1 1 1", "VERTEX_TRACKXYZ 2 1 2 3", "EDGE_SE3 0 1", "PARAMS_SE3OFFSET 0 0 0 0 0 0 0 1", "#", "EDGE_SE3:QUATERNION", " ", "FIX", "EDGE_BEARING_SE2_XY 0 1 0.3 1", "VERTEX_SE3:EXPMAP 1 0 0 0 0 0 0 1", "VERTEX"];
    for (k, o) in odd.iter().enumerate() {
        for at in 0..4 {
            c.case(format!("odd line {k} at {at}"), |t| {
                let mut al = vec![Line::Vert(0, pose2(1)), Line::Vert(1, pose2(2)), Line::Edge(0, 1, pose2(3), info(3, 1)), Line::Other(o)];
                let mut w = vec![0, 2, 1];
                w.insert(at, 3);
                judge::<SE2>(t, &al, &w, 0, &points::<SE2>(&al), &mut Cache::new(), &dir)?;
                al = vec![Line::Vert(0, pose3(1)), Line::Vert(1, pose3(2)), Line::Edge(0, 1, pose3(3), info(6, 1)), Line::Other(o)];
                judge::<SE3>(t, &al, &w, 0, &points::<SE3>(&al), &mut Cache::new(), &dir)
            });
        }
    }
}
