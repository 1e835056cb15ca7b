//! C14 the optimisation loop under every cost/failure history; C15 the damping automaton under every trial outcome;
//! C16 reused optimisers.
use crate::ensure;
use crate::fw::*;
use crate::prob::*;
use crate::refm::*;
use crate::vars::*;
use factrs::containers::{Graph, Idx, Key, Values, ValuesOrder};
use factrs::linear::{CholeskySolver, LUSolver, LinearSolver, QRSolver};
use factrs::optimizers::*;
use factrs::variables::*;
use faer::sparse::SparseColMatRef;
use faer::{Mat as FMat, MatRef};
use std::cell::RefCell;
use std::rc::Rc;

// ---------------------------------------------------------------- C14
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Cost(f64),
    Fail(u8), // 0 InvalidSystem, 1 FailedToStep, 2 MaxIterations reported by the step itself
}
/// an optimiser that plays a script; values are (identity, cost)
struct Script {
    params: OptParams,
    script: Vec<Ev>,
    at: usize,
    log: RefCell<Vec<String>>,
}
#[derive(Clone, Debug, PartialEq)]
struct It(usize, u64);
impl Optimizer for Script {
    type Input = It;
    fn params(&self) -> &OptParams {
        &self.params
    }
    fn init(&mut self, v: &It) {
        self.log.borrow_mut().push(format!("init {}", v.0));
    }
    fn error(&self, v: &It) -> f64 {
        f64::from_bits(v.1)
    }
    fn step(&mut self, v: It, idx: usize) -> OptResult<It> {
        self.log.borrow_mut().push(format!("step {} {idx}", v.0));
        let e = self.script[self.at];
        self.at += 1;
        match e {
            Ev::Cost(c) => Ok(It(v.0 + 1, c.to_bits())),
            Ev::Fail(0) => Err(OptError::InvalidSystem),
            Ev::Fail(1) => Err(OptError::FailedToStep),
            Ev::Fail(_) => Err(OptError::MaxIterations(It(v.0 + 100, 0))),
        }
    }
}
#[derive(Debug, PartialEq)]
enum End {
    Ok(usize),
    Max(usize),
    Invalid,
    Failed,
}
/// the documented loop
fn spec(p: &OptParams, c0: f64, script: &[Ev]) -> (End, usize) {
    if c0 <= p.error_tol {
        return (End::Ok(0), 0);
    }
    let mut old = c0;
    for i in 1..=p.max_iterations {
        match script[i - 1] {
            Ev::Fail(0) => return (End::Invalid, i),
            Ev::Fail(1) => return (End::Failed, i),
            Ev::Fail(_) => return (End::Max(i - 1 + 100), i),
            Ev::Cost(new) => {
                let dec = old - new;
                if new <= p.error_tol || dec <= p.error_tol_absolute || dec / old <= p.error_tol_relative {
                    return (End::Ok(i), i);
                }
                old = new;
            }
        }
    }
    (End::Max(p.max_iterations), p.max_iterations)
}
fn fold(r: OptResult<It>) -> End {
    match r {
        Ok(v) => End::Ok(v.0),
        Err(OptError::MaxIterations(v)) => End::Max(v.0),
        Err(OptError::InvalidSystem) => End::Invalid,
        Err(OptError::FailedToStep) => End::Failed,
    }
}
fn loop_spec(c: &mut Ctx) {
    let th = c.thorough;
    let nan = f64::NAN;
    let inf = f64::INFINITY;
    // dyadic costs: decreases hit the tolerances exactly, one step above and one below
    let costs = [8.0, 7.75, 7.875, 7.5, 7.0, 4.0, 3.5, 16.0, 0.5, 0.25, 0.5000000000000001, 0.0, -1.0, nan, inf];
    let mut evs: Vec<Ev> = costs.iter().map(|&x| Ev::Cost(x)).collect();
    evs.extend([Ev::Fail(0), Ev::Fail(1), Ev::Fail(2)]);
    let starts = [8.0, 4.0, 0.5, 0.5000000000000001, 0.25, 0.0, 16.0, -1.0, nan, inf];
    let mut prms = vec![];
    for max in 0..=(if th { 5 } else { 4 }) {
        for tol in [0.0, 0.5] {
            for (abs, rel) in [(0.0, 0.0), (0.25, 0.0), (0.0, 0.125), (0.25, 0.125), (1e-6, 1e-6), (-inf, -inf), (-inf, 0.125), (0.25, -inf)] {
                prms.push(OptParams { max_iterations: max, error_tol_relative: rel, error_tol_absolute: abs, error_tol: tol });
            }
        }
    }
    prms.push(OptParams { max_iterations: 4, ..OptParams::default() });
    // the same at other orders of magnitude (powers of two: every comparison comes out the same)
    let mut runs: Vec<(OptParams, f64)> = prms.into_iter().map(|p| (p, 1.0)).collect();
    for e in [-900, -300, -100, -60, -30, -20, -10, 10, 20, 30, 60, 100, 300, 900] {
        let s = 2f64.powi(e);
        for (tol, abs, rel) in [(0.0, 0.0, 0.0), (0.5, 0.25, 0.125), (0.0, 0.0, 0.125), (0.0, 0.25, 0.0), (0.5, -inf, -inf)] {
            runs.push((OptParams { max_iterations: 2, error_tol_relative: rel, error_tol_absolute: abs * s, error_tol: tol * s }, s));
        }
    }
    for (pi, (p, scale)) in runs.iter().enumerate() {
        let evs: Vec<Ev> = evs.iter().map(|e| match e { Ev::Cost(x) => Ev::Cost(x * scale), o => *o }).collect();
        for c0 in starts.map(|x| x * scale) {
            c.case(format!("loop start cost {c0:?} params #{pi} {p:?}"), |t| {
                // depth-first over scripts; a prefix the specification ends in is not extended
                let mut stack: Vec<Vec<usize>> = vec![vec![]];
                while let Some(w) = stack.pop() {
                    let mut script: Vec<Ev> = w.iter().map(|&i| evs[i]).collect();
                    script.resize(p.max_iterations.max(w.len()), Ev::Cost(1e-300 * scale.min(1e-5)));
                    let (_, used) = spec(p, c0, &script);
                    if w.len() < p.max_iterations && used > w.len() {
                        stack.extend((0..evs.len()).map(|i| { let mut u = w.clone(); u.push(i); u }));
                        continue;
                    }
                    let (want, steps) = spec(p, c0, &script);
                    let mut o = Script { params: p.clone(), script: script.clone(), at: 0, log: RefCell::new(vec![]) };
                    let got = fold(guarded(|| o.optimize(It(0, c0.to_bits()))).map_err(|e| format!("script {script:?}: {e}"))?);
                    let sc = || format!("costs/outcomes {:?}", &script[..steps.min(script.len())]);
                    ensure!(got == want, "{}: ended with {got:?}, expected {want:?}", sc());
                    let log = o.log.borrow().clone();
                    let mut wl = vec!["init 0".to_string()];
                    wl.extend((0..steps).map(|i| format!("step {i} {}", i + 1)));
                    ensure!(log == wl, "{}: calls {log:?}, expected {wl:?}", sc());
                    t.step(steps as u64 + 1);
                    t.count("scripts", 1);
                    t.state(&(pi, c0.to_bits(), w));
                }
                Ok(())
            });
        }
    }
    // long runs: the iteration limit counts exactly
    for max in [10usize, 99, 100, 101, 1000] {
        c.case(format!("loop limit {max}"), |t| {
            let p = OptParams { max_iterations: max, error_tol_relative: 0.0, error_tol_absolute: 0.0, error_tol: 0.0 };
            let script: Vec<Ev> = (0..max + 5).map(|i| Ev::Cost(1e6 - i as f64)).collect();
            let mut o = Script { params: p.clone(), script: script.clone(), at: 0, log: RefCell::new(vec![]) };
            let got = fold(o.optimize(It(0, 1e7f64.to_bits())));
            ensure!(got == End::Max(max) && o.at == max, "ended with {got:?} after {} steps", o.at);
            t.step(max as u64);
            Ok(())
        });
    }
    c.case("default parameters".into(), |t| {
        let p = OptParams::default();
        ensure!(p.max_iterations > 1 && p.error_tol == 0.0 && p.error_tol_absolute > 0.0 && p.error_tol_relative > 0.0, "unusable defaults {p:?}");
        ensure!(p.error_tol_absolute <= 1e-3 && p.error_tol_relative <= 1e-3, "defaults stop too early {p:?}");
        t.step(1);
        Ok(())
    });
}
type Seen = Rc<RefCell<Vec<(usize, Values, f64)>>>;
struct Watch(usize, Seen);
impl OptObserver for Watch {
    type Input = Values;
    fn on_step(&self, values: &Values, time: f64) {
        self.1.borrow_mut().push((self.0, values.clone(), time));
    }
}
fn bits(p: &Prob, keys: &[Key], v: &Values) -> Result<Vec<u64>, String> {
    Ok(p.read(keys, v)?.iter().flat_map(|m| m.d.iter().map(|x| x.to_bits())).collect())
}
fn builtin<S: LinearSolver>(t: &mut Tally, p: &Prob, kind: usize, prm: &OptParams, nobs: usize, size: f64) -> CaseResult {
    let keys = p.keys(0);
    let ord: Vec<usize> = (0..p.facs.len()).collect();
    let g = p.graph(&keys, &ord);
    let mut o = Any::<S>::new(kind, p.graph(&keys, &ord), prm);
    let seen: Seen = Default::default();
    for i in 0..nobs {
        o.observe(Watch(i, seen.clone()));
    }
    let start = p.values(&keys, &p.start(0, size), &(0..keys.len()).collect::<Vec<_>>());
    let c0 = g.error(&start);
    let r = o.optimize(start.clone());
    let seen = seen.borrow();
    ensure!(nobs == 0 || seen.len() % nobs == 0, "{} notifications for {nobs} observers", seen.len());
    if nobs == 0 {
        return match r {
            Ok(_) | Err(OptError::MaxIterations(_)) => Ok(()),
            Err(OptError::FailedToStep) if kind > 0 => Ok(()),
            Err(_) => Err("failed without observers".into()),
        };
    }
    let steps = seen.len() / nobs;
    // every observer once per step, in the order they were added, with the same values
    for s in 0..steps {
        for i in 0..nobs {
            let (who, v, time) = &seen[s * nobs + i];
            ensure!(*who == i, "notification {} of step {} went to observer {who}", i, s + 1);
            ensure!(*time == (s + 1) as f64, "step {} was reported as iteration {time}", s + 1);
            ensure!(bits(p, &keys, v)? == bits(p, &keys, &seen[s * nobs].1)?, "observers of step {} saw different values", s + 1);
        }
        t.step(1);
    }
    // the loop rule, re-run over the costs of the observed iterates
    let mut script: Vec<Ev> = (0..steps).map(|s| Ev::Cost(g.error(&seen[s * nobs].1))).collect();
    let failed = matches!(r, Err(OptError::FailedToStep));
    if failed {
        ensure!(kind > 0, "Gauss-Newton failed to step");
        script.push(Ev::Fail(1));
    }
    script.resize(script.len().max(prm.max_iterations), Ev::Fail(0));
    let (want, used) = spec(prm, c0, &script);
    ensure!(used == steps + failed as usize, "{steps} steps were taken, the stopping rule gives {used} (costs {c0}, {:?})", &script[..steps]);
    let (got, v) = match r {
        Ok(v) => (End::Ok(steps), Some(v)),
        Err(OptError::MaxIterations(v)) => (End::Max(steps), Some(v)),
        Err(OptError::FailedToStep) => (End::Failed, None),
        Err(OptError::InvalidSystem) => (End::Invalid, None),
    };
    ensure!(got == want, "ended with {got:?}, expected {want:?} (costs {c0}, {:?})", &script[..steps]);
    if let Some(v) = v {
        let last = if steps == 0 { &start } else { &seen[seen.len() - 1].1 };
        ensure!(bits(p, &keys, &v)? == bits(p, &keys, last)?, "the returned values are not those of the last step");
    }
    t.state(&(kind, nobs, size.to_bits(), prm.max_iterations, prm.error_tol.to_bits(), prm.error_tol_absolute.to_bits(), steps, p.nodes[0].name));
    Ok(())
}
fn some_probs() -> Vec<Prob> {
    let t1 = Topo { n: 1, priors: vec![0], edges: vec![] };
    let t2 = Topo { n: 2, priors: vec![1], edges: vec![(0, 1)] };
    let t3 = Topo { n: 3, priors: vec![0, 2], edges: vec![(0, 1), (2, 1), (2, 0)] };
    vec![
        pose_prob::<VectorVar2>(&t2, 0.2, 4, 0, true),
        pose_prob::<SE2>(&t3, 0.05, 9, 0, false),
        pose_prob::<SO3>(&t3, 0.05, 3, 3, false),
        pose_prob::<SE3>(&t2, 0.0, 0, 0, false),
        pose_prob::<SO2>(&t1, 0.0, 0, 0, false),
        pose_prob::<VectorVar1>(&t3, 0.3, 9, 5, true),
    ]
}
pub fn c14(c: &mut Ctx) {
    loop_spec(c);
    let maxes: &[usize] = if c.thorough { &[0, 1, 2, 3, 4, 5, 8, 20, 100] } else { &[0, 1, 2, 3, 100] };
    for pi in 0..some_probs().len() {
        for kind in 0..3 {
            for solver in 0..3 {
                for &max in maxes {
                    c.case(format!("built-in {} {} problem {pi} limit {max}", OPTS[kind], SOLVERS[solver]), |t| {
                        let p = &some_probs()[pi];
                        for tol in [0.0, 1e-3, 0.5, 1e3] {
                            for (abs, rel) in [(1e-6, 1e-6), (1e-2, 0.0), (0.0, 0.3), (-1e300, -1e300)] {
                                if (abs < 0.0 || (abs == 0.0 && rel == 0.0)) && max > 8 {
                                    continue;
                                }
                                for nobs in 0..4 {
                                    for size in [0.1, 0.3] {
                                        let prm = OptParams { max_iterations: max, error_tol_relative: rel, error_tol_absolute: abs, error_tol: tol };
                                        match solver {
                                            0 => builtin::<CholeskySolver>(t, p, kind, &prm, nobs, size),
                                            1 => builtin::<QRSolver>(t, p, kind, &prm, nobs, size),
                                            _ => builtin::<LUSolver>(t, p, kind, &prm, nobs, size),
                                        }
                                        .map_err(|e| format!("{e} [{prm:?}, {nobs} observers, offset {size}]"))?;
                                    }
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C15
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Exact,
    Half,
    Zero,
    Negative,
    Overshoot,
    Nan,
}
const ACTS: [Act; 6] = [Act::Exact, Act::Half, Act::Zero, Act::Negative, Act::Overshoot, Act::Nan];
#[derive(Default)]
struct Tape {
    acts: Vec<Act>,
    at: usize,
    calls: Vec<(Mat, Mat, Vec<f64>)>,
    lst_sq: usize,
}
thread_local! { static TAPE: RefCell<Tape> = RefCell::new(Tape::default()); }
/// a solver that answers by script and records the systems it was given
#[derive(Default)]
struct Fake;
fn to_mat(m: MatRef<f64>) -> Mat {
    let mut o = Mat::zeros(m.nrows(), m.ncols());
    for i in 0..m.nrows() {
        for j in 0..m.ncols() {
            o.set(i, j, m.read(i, j));
        }
    }
    o
}
impl LinearSolver for Fake {
    fn solve_symmetric(&mut self, a: SparseColMatRef<usize, f64>, b: MatRef<f64>) -> FMat<f64> {
        let (a, b) = (to_mat(a.to_dense().as_ref()), to_mat(b));
        TAPE.with(|t| {
            let mut t = t.borrow_mut();
            // beyond the script the cost keeps falling clearly
            let act = *t.acts.get(t.at).unwrap_or(&Act::Half);
            t.at += 1;
            let x = a.solve(&b).expect("singular system");
            let k = match act {
                Act::Exact => 1.0,
                Act::Half => 0.5,
                Act::Zero => 0.0,
                Act::Negative => -1.0,
                Act::Overshoot => 3.0,
                Act::Nan => f64::NAN,
            };
            let x: Vec<f64> = x.d.iter().map(|v| v * k).collect();
            t.calls.push((a, b, x.clone()));
            FMat::from_fn(x.len(), 1, |i, _| x[i])
        })
    }
    fn solve_lst_sq(&mut self, _a: SparseColMatRef<usize, f64>, _b: MatRef<f64>) -> FMat<f64> {
        TAPE.with(|t| t.borrow_mut().lst_sq += 1);
        panic!("harness: least squares not scripted")
    }
}
struct LmPrm {
    min: f64,
    max: f64,
    factor: f64,
    diag: bool,
}
fn dense_system(p: &Prob, keys: &[Key], g: &Graph, v: &Values) -> (Mat, Mat) {
    // columns in the problem's node order
    let mut map = ahash::HashMap::default();
    let mut at = 0;
    for (i, n) in p.nodes.iter().enumerate() {
        map.insert(keys[i], Idx { idx: at, dim: n.n });
        at += n.n;
    }
    let go = g.sparsity_pattern(ValuesOrder::new(map));
    let r = g.linearize(v).residual_jacobian(&go);
    (to_mat(r.diff.to_dense().as_ref()), to_mat(r.value.as_ref()))
}
/// column permutations that keep each node's columns together
fn perms(p: &Prob) -> Vec<Vec<usize>> {
    let off: Vec<usize> = p.nodes.iter().scan(0, |a, x| { let o = *a; *a += x.n; Some(o) }).collect();
    permutations(p.nodes.len()).into_iter().map(|q| q.iter().flat_map(|&i| off[i]..off[i] + p.nodes[i].n).collect()).collect()
}
fn fetch_lambda(p: &Prob) -> Result<f64, String> {
    TAPE.with(|t| *t.borrow_mut() = Tape::default());
    let keys = p.keys(0);
    let ord: Vec<usize> = (0..p.facs.len()).collect();
    let mut o = LevenMarquardt::<Fake>::new(p.graph(&keys, &ord));
    o.params_leven.diagonal_damping = false;
    o.params_base = OptParams { max_iterations: 1, error_tol_relative: -1e300, error_tol_absolute: -1e300, error_tol: -1.0 };
    let start = p.values(&keys, &p.start(0, 0.1), &(0..keys.len()).collect::<Vec<_>>());
    let g = p.graph(&keys, &ord);
    let (j, _) = dense_system(p, &keys, &g, &start);
    let _ = o.optimize(start);
    let tr = |m: &Mat| (0..m.r).map(|i| m.at(i, i)).sum::<f64>();
    TAPE.with(|t| {
        let t = t.borrow();
        let a = &t.calls.first().ok_or("no system was solved")?.0;
        let l = (tr(a) - tr(&j.t().mul(&j))) / a.r as f64;
        // measured as a difference: drop the rounding noise
        let l: f64 = format!("{l:.6e}").parse().unwrap();
        if l > 0.0 && l < 1e-2 { Ok(l) } else { Err(format!("the first trial's damping is {l}, not a small positive number")) }
    })
}
/// one optimisation under a script, against the damping automaton; returns the number of trials
fn lm_run(t: &mut Tally, p: &Prob, o: &mut LevenMarquardt<Fake>, seen: &Seen, prm: &LmPrm, l0: f64, script: &[Act], iters: usize, size: f64) -> Result<usize, String> {
    TAPE.with(|t| *t.borrow_mut() = Tape { acts: script.to_vec(), ..Default::default() });
    seen.borrow_mut().clear();
    let keys = p.keys(0);
    let ord: Vec<usize> = (0..p.facs.len()).collect();
    let g = p.graph(&keys, &ord);
    o.params_base = OptParams { max_iterations: iters, error_tol_relative: -1e300, error_tol_absolute: -1e300, error_tol: -1.0 };
    o.params_leven.lambda_min = prm.min;
    o.params_leven.lambda_max = prm.max;
    o.params_leven.lambda_factor = prm.factor;
    o.params_leven.diagonal_damping = prm.diag;
    let start = p.values(&keys, &p.start(0, size), &(0..keys.len()).collect::<Vec<_>>());
    let r = o.optimize(start.clone());
    let calls = TAPE.with(|t| std::mem::take(&mut t.borrow_mut().calls));
    let n = p.dims();
    let mut why = String::new();
    'perm: for q in perms(p) {
        let mut lam = l0;
        let mut v = start.clone();
        let mut call = 0;
        let mut failed = false;
        let mut steps = 0;
        'steps: for it in 0..iters {
            let (j, b) = dense_system(p, &keys, &g, &v);
            let (h, rhs) = (j.t().mul(&j), j.t().mul(&b));
            let old = b.d.iter().map(|x| x * x).sum::<f64>();
            loop {
                if call >= calls.len() {
                    why = format!("only {} trials, the damping policy asks for another at damping {lam:e} in step {}", calls.len(), it + 1);
                    continue 'perm;
                }
                let (a, cb, x) = &calls[call];
                call += 1;
                let mut want = h.clone();
                for i in 0..n {
                    want.add_at(i, i, lam * if prm.diag { h.at(i, i) } else { 1.0 });
                }
                for i in 0..n {
                    // every entry by the size of its own row and column
                    if (cb.at(i, 0) - rhs.at(q[i], 0)).abs() > 1e-10 * (rhs.at(q[i], 0).abs() + (h.at(q[i], q[i]) * old).sqrt()) {
                        why = format!("trial {call}: right-hand side {cb:?} instead of {rhs:?}");
                        continue 'perm;
                    }
                    for k in 0..n {
                        let sc = 1e-13 * (h.at(q[i], q[i]) * h.at(q[k], q[k])).sqrt();
                        if (a.at(i, k) - want.at(q[i], q[k])).abs() > sc.max(1e-6 * if i == k { lam * if prm.diag { h.at(q[i], q[i]) } else { 1.0 } } else { 0.0 }) {
                            why = format!("trial {call}: system {a:?} instead of {want:?} (damping {lam:e})");
                            continue 'perm;
                        }
                    }
                }
                // the linearised cost of this trial
                let mut dx = vec![0.0; n];
                for i in 0..n {
                    dx[q[i]] = x[i];
                }
                let jd = j.mulv(&dx);
                let new = jd.iter().zip(&b.d).map(|(a, b)| (a - b) * (a - b)).sum::<f64>();
                if (new - old).abs() <= 1e-9 * old && dx.iter().any(|d| *d != 0.0) {
                    // at the optimum up to rounding: either answer is right, and the rest depends on it
                    t.step(call as u64);
                    t.count("scripts cut where the cost is flat up to rounding", 1);
                    return Ok(0);
                }
                if new < old {
                    v = {
                        let ms = p.moved(&p.read(&keys, &v)?, &dx);
                        p.values(&keys, &ms, &(0..keys.len()).collect::<Vec<_>>())
                    };
                    lam /= prm.factor;
                    if lam < prm.min {
                        lam = prm.min;
                    }
                    steps += 1;
                    if seen.borrow().len() < steps {
                        why = format!("step {steps} was accepted by the policy but not taken");
                        continue 'perm;
                    }
                    let got = p.read(&keys, &seen.borrow()[steps - 1].1)?;
                    let e = p.dist(&got, &p.read(&keys, &v)?);
                    if !(e < 1e-8) {
                        why = format!("values after step {steps} differ by {e:e} from the accepted trial's update");
                        continue 'perm;
                    }
                    // go on from the library's own values (same point up to rounding)
                    v = seen.borrow()[steps - 1].1.clone();
                    break;
                }
                lam *= prm.factor;
                if lam > prm.max {
                    failed = true;
                    break 'steps;
                }
            }
        }
        if call != calls.len() {
            why = format!("{} trials, the damping policy ends after {call}", calls.len());
            continue;
        }
        if seen.borrow().len() != steps {
            why = format!("{} steps were notified, {steps} completed", seen.borrow().len());
            continue;
        }
        match (&r, failed) {
            (Err(OptError::FailedToStep), true) => {}
            (Err(OptError::MaxIterations(x)), false) => {
                let e = p.dist(&p.read(&keys, x)?, &p.read(&keys, &v)?);
                ensure!(e < 1e-8, "returned values differ by {e:e} from the last accepted step");
            }
            (r, f) => return Err(format!("ended with {}, damping policy says {}", match r { Ok(_) => "success", Err(OptError::FailedToStep) => "failed step", Err(OptError::MaxIterations(_)) => "iteration limit", _ => "invalid system" }, if f { "failed step" } else { "iteration limit" })),
        }
        t.step(call as u64);
        t.state(&(p.nodes[0].name, lam.to_bits(), steps, failed, call));
        return Ok(call);
    }
    Err(why)
}
pub fn c15(c: &mut Ctx) {
    let th = c.thorough;
    let t2 = Topo { n: 2, priors: vec![1], edges: vec![(0, 1)] };
    let t3 = Topo { n: 3, priors: vec![0], edges: vec![(0, 1), (2, 1)] };
    let t1 = Topo { n: 1, priors: vec![0], edges: vec![] };
    let probs: Vec<Box<dyn Fn() -> Prob>> = vec![
        Box::new(move || pose_prob::<VectorVar2>(&t1, 0.3, 3, 0, true)),
        Box::new(move || pose_prob::<SE2>(&t2, 0.1, 4, 0, true)),
        Box::new(move || pose_prob::<VectorVar1>(&t3, 0.4, 9, 0, true)),
    ];
    let depth = if th { 7 } else { 5 };
    for (pi, mk) in probs.iter().enumerate() {
        let p = mk();
        let l0 = match guarded(|| fetch_lambda(&p)).and_then(|x| x) {
            Ok(l) => l,
            Err(e) => {
                c.case(format!("problem {pi} first trial"), |_| Err(e));
                continue;
            }
        };
        // limits reached exactly, just missed, just exceeded, far away
        let mut prms = vec![];
        for diag in [true, false] {
            for factor in [2.0, 10.0] {
                // exact boundaries only where multiplying is exact
                let eq: f64 = if factor == 2.0 { 1.0 } else { 1.001 };
                for max in [l0 * 0.5, l0 * eq, l0 * factor * eq, l0 * factor * 1.01, l0 * factor * factor * eq, l0 * factor * factor * 0.99, 1e5] {
                    for min in [0.0, l0 / factor, l0, l0 * 3.0] {
                        prms.push((min, max, factor, diag));
                    }
                }
            }
        }
        for (min, max, factor, diag) in prms {
            let d = if max > 1.0 || th && pi > 0 { depth - 1 } else { depth };
            c.case(format!("problem {pi} damping minimum {:.3} maximum {:.3} (of initial) factor {factor} diagonal {diag}", min / l0, max / l0), |t| {
                let prm = LmPrm { min, max, factor, diag };
                let mut stack: Vec<Vec<Act>> = vec![vec![]];
                while let Some(w) = stack.pop() {
                    let mut o = LevenMarquardt::<Fake>::new(p.graph(&p.keys(0), &(0..p.facs.len()).collect::<Vec<_>>()));
                    let seen: Seen = Default::default();
                    o.observers.add(Watch(0, seen.clone()));
                    // `iters` completed steps are allowed; extend the script only while it is consumed
                    let used = lm_run(t, &p, &mut o, &seen, &prm, l0, &w, 3, 0.2).map_err(|e| format!("trial outcomes {w:?}: {e}"))?;
                    // a second run of the same optimiser starts from the initial damping again
                    if w.len() >= 1 && w.len() <= 3 {
                        lm_run(t, &p, &mut o, &seen, &prm, l0, &w[..1], 2, 0.15).map_err(|e| format!("second run after trial outcomes {w:?}: {e}"))?;
                    }
                    if used > w.len() && w.len() < d {
                        for a in ACTS {
                            let mut u = w.clone();
                            u.push(a);
                            stack.push(u);
                        }
                    }
                    t.count("scripts", 1);
                }
                Ok(())
            });
        }
    }
    // information of any order of magnitude, alone and next to coordinates of order one
    let first = pose_prob::<VectorVar2>(&Topo { n: 1, priors: vec![0], edges: vec![] }, 0.3, 3, 0, true);
    if let Ok(l0) = guarded(|| fetch_lambda(&first)).and_then(|x| x) {
        for e in (-12i32..=12).step_by(2) {
            for kind in [200, 500] {
                for diag in [true, false] {
                    c.case(format!("covariance 1e{e}{} diagonal {diag}", if kind == 500 { " of every second coordinate" } else { "" }), |t| {
                        let noise = (kind + e) as usize;
                        let ps = [
                            pose_prob::<VectorVar2>(&Topo { n: 1, priors: vec![0], edges: vec![] }, 0.3, noise, 0, true),
                            pose_prob::<VectorVar3>(&Topo { n: 2, priors: vec![1], edges: vec![(0, 1)] }, 0.3, noise, 0, true),
                            pose_prob::<SE2>(&Topo { n: 2, priors: vec![0], edges: vec![(0, 1)] }, 0.1, noise, 0, true),
                        ];
                        for (pi, p) in ps.iter().enumerate() {
                            for w in [vec![], vec![Act::Exact], vec![Act::Half, Act::Negative], vec![Act::Zero], vec![Act::Overshoot, Act::Half], vec![Act::Nan, Act::Negative, Act::Exact]] {
                                for factor in [2.0, 10.0] {
                                    let mut o = LevenMarquardt::<Fake>::new(p.graph(&p.keys(0), &(0..p.facs.len()).collect::<Vec<_>>()));
                                    let seen: Seen = Default::default();
                                    o.observers.add(Watch(0, seen.clone()));
                                    lm_run(t, p, &mut o, &seen, &LmPrm { min: 0.0, max: 1e5, factor, diag }, l0, &w, 3, 0.2).map_err(|e| format!("problem {pi} trial outcomes {w:?}: {e}"))?;
                                    t.count("scripts", 1);
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    c.case("default damping parameters".into(), |t| {
        let p = LevenMarquardt::<CholeskySolver>::new(Graph::new()).params_leven;
        ensure!(p.lambda_min >= 0.0 && p.lambda_min <= 1e-6 && p.lambda_max >= 1.0 && p.lambda_factor > 1.0, "unusable defaults");
        ensure!(p.diagonal_damping, "damping with the identity although it was not chosen");
        t.step(1);
        Ok(())
    });
}

// ---------------------------------------------------------------- C16
#[derive(Clone, Copy, Debug)]
enum Call {
    /// start offset, insertion order reversed?, hash order number, iteration limit
    Go(usize, bool, usize, usize),
    /// exactly at the optimum (Levenberg-Marquardt fails there)
    AtOptimum,
}
fn outcome(p: &Prob, keys: &[Key], r: OptResult<Values>, n: usize) -> Result<(String, Vec<Mat>, usize), String> {
    match r {
        Ok(v) => Ok(("success".into(), p.read(keys, &v)?, n)),
        Err(OptError::MaxIterations(v)) => Ok(("iteration limit".into(), p.read(keys, &v)?, n)),
        Err(OptError::FailedToStep) => Ok(("failed step".into(), vec![], n)),
        Err(OptError::InvalidSystem) => Ok(("invalid system".into(), vec![], n)),
    }
}
fn reuse<S: LinearSolver>(t: &mut Tally, p: &Prob, kind: usize, calls: &[Call], opt: &[Mat]) -> CaseResult {
    let keys = p.keys(2);
    let n = keys.len();
    let ord: Vec<usize> = (0..p.facs.len()).collect();
    let values = |c: Call| -> (Values, usize) {
        match c {
            Call::AtOptimum => (p.values(&keys, opt, &(0..n).collect::<Vec<_>>()), 30),
            Call::Go(k, rev, hash, lim) => {
                hash_seed(hash * 977 + 5);
                let mut o: Vec<usize> = (0..n).collect();
                if rev {
                    o.reverse();
                }
                (p.values(&keys, &p.start(k, 0.1 + 0.05 * k as f64), &o), lim)
            }
        }
    };
    let g = p.graph(&keys, &ord);
    let probe: Vec<Values> = (0..2).map(|k| p.values(&keys, &p.start(k, 0.3), &(0..n).collect::<Vec<_>>())).collect();
    let mut one = Any::<S>::new(kind, p.graph(&keys, &ord), &OptParams::default());
    let seen: Seen = Default::default();
    one.observe(Watch(0, seen.clone()));
    for (i, &cl) in calls.iter().enumerate() {
        let (v, lim) = values(cl);
        one.params().max_iterations = lim;
        seen.borrow_mut().clear();
        let a = outcome(p, &keys, one.optimize(v.clone()), seen.borrow().len())?;
        // twice with a fresh optimiser
        let mut fresh = vec![];
        for _ in 0..2 {
            let prm = OptParams { max_iterations: lim, ..OptParams::default() };
            let mut f = Any::<S>::new(kind, p.graph(&keys, &ord), &prm);
            let s2: Seen = Default::default();
            f.observe(Watch(0, s2.clone()));
            let r = f.optimize(v.clone());
            let k = s2.borrow().len();
            fresh.push(outcome(p, &keys, r, k)?);
        }
        let what = format!("call {} ({cl:?})", i + 1);
        ensure!(fresh[0].0 == fresh[1].0 && fresh[0].2 == fresh[1].2 && fresh[0].1.iter().zip(&fresh[1].1).all(|(x, y)| x.d == y.d), "{what}: two fresh optimisers disagree on the same input");
        ensure!(a.0 == fresh[0].0, "{what}: reused optimiser ended with {}, a fresh one with {}", a.0, fresh[0].0);
        ensure!(a.2 == fresh[0].2, "{what}: reused optimiser took {} steps, a fresh one {}", a.2, fresh[0].2);
        if !a.1.is_empty() {
            let e = p.dist(&a.1, &fresh[0].1);
            ensure!(e <= 1e-10, "{what}: reused optimiser's result differs by {e:e} from a fresh one's");
        }
        ensure!(one.graph().len() == g.len(), "{what}: the graph changed size");
        for q in &probe {
            ensure!(one.graph().error(q).to_bits() == g.error(q).to_bits(), "{what}: the graph's cost changed");
        }
        t.step(1);
    }
    t.state(&(p.nodes[0].name, kind, format!("{calls:?}")));
    Ok(())
}
/// values with one more variable than the graph uses: only a damped system with identity damping can be solved
fn extra<S: LinearSolver>(t: &mut Tally, p: &Prob, seq: &[usize], hash: usize) -> CaseResult {
    let keys = p.keys(0);
    let n = keys.len();
    let ord: Vec<usize> = (0..p.facs.len()).collect();
    let mk = || Any::<S>::new(2, p.graph(&keys, &ord), &OptParams::default());
    let mut one = mk();
    for (i, &ex) in seq.iter().enumerate() {
        hash_seed(hash * 31 + i * 7);
        let mut v = p.values(&keys, &p.start(i, 0.1), &(0..n).collect::<Vec<_>>());
        // the extra variable keeps its key but may change its type (and dimension) from call to call
        let ek: Key = factrs::symbols::W(3).into();
        let add3 = VectorVar3::new(1.0, 2.0, 3.0 + i as f64);
        let add1 = VectorVar1::new(4.0 + i as f64);
        let add6 = SE3::of(&SE3::exp_r(&[0.1, 0.2, 0.3 + 0.1 * i as f64, 1.0, 2.0, 3.0]));
        match ex {
            1 => { v.insert_unchecked(ek, add3.clone()); }
            2 => { v.insert_unchecked(ek, add1.clone()); }
            3 => { v.insert_unchecked(ek, add6.clone()); }
            _ => {}
        }
        let mut get = |o: &mut Any<S>| -> Result<Vec<Mat>, String> {
            let r = match o.optimize(v.clone()) {
                Ok(r) => r,
                Err(_) => return Err(format!("call {}: failed", i + 1)),
            };
            let missing = "the extra variable is missing from the result";
            match ex {
                1 => ensure_close(r.get_unchecked::<_, VectorVar3>(ek).ok_or(missing)?, &add3)?,
                2 => ensure_close(r.get_unchecked::<_, VectorVar1>(ek).ok_or(missing)?, &add1)?,
                3 => ensure_close(r.get_unchecked::<_, SE3>(ek).ok_or(missing)?, &add6)?,
                _ => {}
            }
            p.read_from(&keys, &r, (ex > 0) as usize)
        };
        let a = get(&mut one)?;
        let b = get(&mut mk())?;
        let e = p.dist(&a, &b);
        ensure!(e <= 1e-10, "call {} (extra variable: {ex}): reused result differs by {e:e} from a fresh one's", i + 1);
        let d = p.step(&a).ok_or("harness: singular")?.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        ensure!(d <= 2e-3, "call {} (extra variable: {ex}): not the optimum, off by {d:e}", i + 1);
        t.step(1);
    }
    t.state(&("extra", seq.to_vec(), hash));
    Ok(())
}
fn ensure_close<V: RV>(a: &V, b: &V) -> CaseResult {
    ensure!(close(&a.m(), &b.m(), 1e-12), "a variable no factor uses was moved");
    Ok(())
}
pub fn c16(c: &mut Ctx) {
    let th = c.thorough;
    let alpha = [
        Call::Go(0, false, 0, 100),
        Call::Go(1, false, 1, 100),
        Call::Go(0, true, 2, 100),
        Call::Go(2, true, 3, 100),
        Call::Go(1, false, 4, 1),
        Call::Go(0, false, 5, 2),
        Call::AtOptimum,
        Call::Go(1, true, 6, 100),
        Call::Go(2, false, 7, 0),
    ];
    let mk = |i: usize| -> Prob {
        let t3 = Topo { n: 3, priors: vec![0, 2], edges: vec![(0, 1), (2, 1)] };
        let t2 = Topo { n: 2, priors: vec![1], edges: vec![(0, 1)] };
        let t4 = Topo { n: 4, priors: vec![3], edges: vec![(0, 1), (2, 1), (3, 0)] };
        match i {
            0 => pose_prob::<SE2>(&t3, 0.05, 9, 0, false),
            1 => {
                // different dimensions: the column blocks move with the variable order
                let mut p = pose_prob::<SE3>(&t2, 0.03, 9, 0, true);
                let q = pose_prob::<VectorVar1>(&t2, 0.2, 9, 0, true);
                for mut f in q.facs {
                    for i in f.nodes.iter_mut() {
                        *i += 2;
                    }
                    p.facs.push(f);
                }
                p.nodes.extend(q.nodes);
                p
            }
            2 => {
                let poses: Vec<Mat> = (0..2).map(truth_of::<SE2>).collect();
                let pt = VectorVar2::exp_r(&[2.0, 1.0]);
                let mut facs = vec![prior::<SE2>(0, poses[0].mul(&SE2::exp_r(&[0.02, 0.1, 0.0])), 3, 0), prior::<SE2>(1, poses[1].clone(), 4, 0)];
                for q in 0..2 {
                    let z = poses[q].inv().unwrap().mulv(&[2.0, 1.0, 1.0]);
                    facs.push(Obs2::fac(q, 2, vec![z[0] + 0.05, z[1] - 0.02 * q as f64], 2, 3));
                }
                Prob { nodes: vec![node::<SE2>(poses[0].clone()), node::<SE2>(poses[1].clone()), node::<VectorVar2>(pt)], facs }
            }
            _ => pose_prob::<SO3>(&t4, 0.05, 9, 5, false),
        }
    };
    let len = 3;
    for pi in 0..4 {
        for kind in 0..3 {
            for solver in 0..3 {
                for w in tuples(alpha.len(), len) {
                    // third calls over the whole alphabet only in the thorough tier
                    if !th && (w[0] + w[1] * 2 + w[2] + kind + solver) % if pi == 0 { 2 } else { 4 } != 0 {
                        continue;
                    }
                    c.case(format!("problem {pi} {} {} calls {w:?}", OPTS[kind], SOLVERS[solver]), |t| {
                        let p = mk(pi);
                        let mut opt = p.truth();
                        for _ in 0..12 {
                            let d = p.step(&opt).ok_or("harness: singular")?;
                            opt = p.moved(&opt, &d);
                        }
                        let calls: Vec<Call> = w.iter().map(|&i| alpha[i]).collect();
                        match solver {
                            0 => reuse::<CholeskySolver>(t, &p, kind, &calls, &opt),
                            1 => reuse::<QRSolver>(t, &p, kind, &calls, &opt),
                            _ => reuse::<LUSolver>(t, &p, kind, &calls, &opt),
                        }
                    });
                }
            }
        }
    }
    for pi in 0..3 {
        for solver in [0, 2] {
            for seq in tuples(4, if th { 4 } else { 3 }) {
                for hash in 0..if th { 8 } else { 2 } {
                    c.case(format!("problem {pi} {} extra variable {seq:?} order {hash}", SOLVERS[solver]), |t| {
                        let p = mk(pi);
                        match solver {
                            0 => extra::<CholeskySolver>(t, &p, &seq, hash),
                            _ => extra::<LUSolver>(t, &p, &seq, hash),
                        }
                    });
                }
            }
        }
    }
}
