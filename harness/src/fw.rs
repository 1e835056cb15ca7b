//! Exploration framework: numbered cases, panic capture, state counting, sharding, watchdog, replay, evidence.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- hash-order control
thread_local! { static SEED: Cell<usize> = const { Cell::new(0) }; }
struct Src;
impl ahash::random_state::RandomSource for Src {
    fn gen_hasher_seed(&self) -> usize {
        SEED.with(|s| {
            let v = s.get();
            s.set(v.wrapping_add(1));
            let mut z = (v as u64).wrapping_add(0x9E3779B97F4A7C15);
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            (z ^ (z >> 31)) as usize
        })
    }
}
pub fn install_hash_control() {
    let _ = ahash::random_state::set_random_source(Src);
}
/// Reset the hash seed sequence of this thread (every case starts from a known seed).
pub fn hash_seed(n: usize) {
    SEED.with(|s| s.set(n));
}

// ---------------------------------------------------------------- panics
thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} ({loc})"));
    }));
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| format!("panicked: {}", p.borrow())))
}

// ---------------------------------------------------------------- tally / context
#[derive(Default)]
pub struct Tally {
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub counters: BTreeMap<String, u64>,
}
impl Tally {
    pub fn state<H: Hash + ?Sized>(&mut self, h: &H) -> bool {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut s);
        self.states.insert(s.finish())
    }
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
}

pub type CaseResult = Result<(), String>;
#[derive(Clone)]
pub struct Viol {
    pub case: String,
    pub msg: String,
}
pub type Slot = Arc<Mutex<Option<(Instant, String)>>>;

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub deep: bool,
    pub t: Tally,
    shard: u64,
    nshards: u64,
    case_no: u64,
    pub viols: Vec<Viol>,
    pub samples: Vec<String>,
    replay: Option<String>,
    slot: Slot,
    trace: Option<String>,
}
pub const MAX_VIOL: usize = 5;
impl Ctx {
    pub fn full(&self) -> bool {
        self.viols.len() >= MAX_VIOL
    }
    /// One execution scenario.  `id` names it completely (it is what a replay selects).
    pub fn case(&mut self, id: String, f: impl FnOnce(&mut Tally) -> CaseResult) {
        let no = self.case_no;
        self.case_no += 1;
        if let Some(r) = &self.replay {
            if *r != id {
                return;
            }
        } else if no % self.nshards != self.shard {
            return;
        }
        if self.full() {
            return;
        }
        hash_seed(0);
        if no == 0 || (no & (no - 1)) == 0 || no % 4099 == 7 && self.samples.len() < 6 {
            self.samples.push(id.clone());
        }
        *self.slot.lock().unwrap() = Some((Instant::now(), id.clone()));
        if let Some(p) = &self.trace {
            std::fs::write(p, &id).expect("cannot write trace");
        }
        let t = &mut self.t;
        let r = match guarded(|| f(t)) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        *self.slot.lock().unwrap() = None;
        self.t.traces += 1;
        if let Err(msg) = r {
            self.viols.push(Viol { case: id, msg });
        }
    }
}

pub struct Opts {
    pub prop: String,
    pub thorough: bool,
    pub deep: bool,
    pub replay: Option<String>,
    pub threads: u64,
    pub out: String,
}
pub struct Report {
    pub t: Tally,
    pub viols: Vec<Viol>,
    pub samples: Vec<String>,
    pub cases: u64,
    pub wall: f64,
}

pub fn run(opts: &Opts, f: fn(&mut Ctx)) -> Report {
    let start = Instant::now();
    let n = if opts.replay.is_some() { 1 } else { opts.threads };
    let slots: Vec<Slot> = (0..n).map(|_| Arc::new(Mutex::new(None))).collect();
    // watchdog: a case that does not end within its limit is a hang of the code under test
    {
        let slots = slots.clone();
        let (prop, out, thorough) = (opts.prop.clone(), opts.out.clone(), opts.thorough);
        let limit = std::env::var("MC_HANG").ok().and_then(|x| x.parse().ok()).unwrap_or(150);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            for s in &slots {
                let g = s.lock().unwrap().clone();
                if let Some((t, id)) = g {
                    if t.elapsed() > Duration::from_secs(limit) {
                        let rep = Report {
                            t: Tally { transitions: 1, traces: 1, ..Default::default() },
                            viols: vec![Viol { case: id, msg: format!("did not terminate within {} s", t.elapsed().as_secs()) }],
                            samples: vec![],
                            cases: 0,
                            wall: t.elapsed().as_secs_f64(),
                        };
                        write_report(&prop, &out, thorough, &rep, "aborted by the watchdog");
                        std::process::exit(1);
                    }
                }
            }
        });
    }
    let ctxs: Vec<Ctx> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let slot = slots[i as usize].clone();
                let (prop, thorough, deep, replay) = (opts.prop.clone(), opts.thorough, opts.deep, opts.replay.clone());
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut c = Ctx {
                            prop,
                            thorough,
                            deep,
                            t: Tally::default(),
                            shard: i,
                            nshards: n,
                            case_no: 0,
                            viols: vec![],
                            samples: vec![],
                            replay,
                            slot,
                            trace: std::env::var("MC_TRACE").ok(),
                        };
                        f(&mut c);
                        c
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness thread failed")).collect()
    });
    let mut rep = Report { t: Tally::default(), viols: vec![], samples: vec![], cases: 0, wall: 0.0 };
    for c in ctxs {
        rep.t.states.extend(c.t.states);
        rep.t.transitions += c.t.transitions;
        rep.t.traces += c.t.traces;
        for (k, v) in c.t.counters {
            *rep.t.counters.entry(k).or_default() += v;
        }
        rep.viols.extend(c.viols);
        rep.samples.extend(c.samples);
        rep.cases = rep.cases.max(c.case_no);
    }
    rep.wall = start.elapsed().as_secs_f64();
    rep
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Machine-readable result for the driver (check.py turns it into evidence, replay files and the verdict).
pub fn write_report(prop: &str, out: &str, thorough: bool, r: &Report, note: &str) {
    let viols: Vec<String> = r.viols.iter().map(|v| format!("{{\"case\":{},\"msg\":{}}}", js(&v.case), js(&v.msg))).collect();
    let samples: Vec<String> = r.samples.iter().map(|s| js(s)).collect();
    let counters: Vec<String> = r.t.counters.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let s = format!(
        "{{\"property\":{},\"tier\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"cases\":{},\"wall_s\":{:.3},\"counters\":{{{}}},\"samples\":[{}],\"violations\":[{}],\"note\":{}}}\n",
        js(prop), js(if thorough { "thorough" } else { "quick" }), r.t.states.len(), r.t.transitions, r.t.traces, r.cases, r.wall,
        counters.join(","), samples.join(","), viols.join(","), js(note)
    );
    if out == "-" {
        print!("{s}");
    } else {
        std::fs::write(out, s).expect("cannot write report");
    }
}

// ---------------------------------------------------------------- helpers
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err(format!($($arg)*)); } };
}
pub fn expect_panic<T>(what: &str, f: impl FnOnce() -> T) -> CaseResult {
    match guarded(|| f()) {
        Ok(_) => Err(format!("{what}: was accepted")),
        Err(_) => Ok(()),
    }
}
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out.sort();
    out
}
/// All tuples in `0..base` of length `len`.
pub fn tuples(base: usize, len: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..len {
        out = out
            .into_iter()
            .flat_map(|t: Vec<usize>| {
                (0..base).map(move |i| {
                    let mut u = t.clone();
                    u.push(i);
                    u
                })
            })
            .collect();
    }
    out
}
/// Rebuild with successive hash seeds until every iteration order has been produced (or `cap` tries are spent).
pub fn all_orders<V, K: Ord + Clone>(nkeys: usize, cap: usize, build: impl Fn() -> V, order: impl Fn(&V) -> Vec<K>) -> Vec<V> {
    let target: usize = (1..=nkeys).product();
    let mut seen = std::collections::BTreeSet::new();
    let mut out = vec![];
    for s in 0..cap {
        hash_seed(s * 7919);
        let v = build();
        if seen.insert(order(&v)) {
            out.push(v);
            if out.len() == target {
                break;
            }
        }
    }
    hash_seed(0);
    out
}
