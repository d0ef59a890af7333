//! The runner: fixed-work, seeded, sharded execution of facets; shrinking; replay; evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

use crate::supervise::{self, enter, Slot, SAVED};

pub struct Fail(pub String);
impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail(s)
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Self {
        Fail(s.to_string())
    }
}
#[macro_export]
macro_rules! fail { ($($t:tt)*) => { return Err($crate::run::Fail(format!($($t)*))) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::run::Fail(format!($($t)*))) } } }

/// What a passed case was: non-trivial by the facet's rule or not, and its classes.
#[derive(Default)]
pub struct Tags {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
}
impl Tags {
    pub fn new(nontrivial: bool) -> Self {
        Tags { nontrivial, classes: vec![] }
    }
    pub fn class(mut self, on: bool, c: &'static str) -> Self {
        if on {
            self.classes.push(c)
        }
        self
    }
}
pub type Checked = Result<Tags, Fail>;

thread_local! {
    static IN_SUT: Cell<bool> = Cell::new(false);
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
    static CASE: Cell<bool> = Cell::new(false);
}

/// A panic raised by the repository's own source, or by a library it called, but not by the harness.
fn outside_harness(file: &str) -> bool {
    !file.starts_with("src/")
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let theirs = info.location().map_or(false, |l| outside_harness(l.file()));
        if IN_SUT.with(|c| c.get()) || CASE.with(|c| c.get()) && theirs {
            PANIC_MSG.with(|m| *m.borrow_mut() = info.to_string());
        } else {
            default(info)
        }
    }));
}

/// Runs code under test; a panic there becomes a failure of the property.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    let old = IN_SUT.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|c| c.set(old));
    r.map_err(|_| Fail(format!("{} panicked: {}", what, PANIC_MSG.with(|m| std::mem::take(&mut *m.borrow_mut())))))
}

/// Runs one case. The calls under test are wrapped in `sut`; should an accessor of the repository
/// panic outside of it, that is a failure of the case too. A panic of the harness is passed on.
fn run_case<C>(check: fn(&C) -> Checked, c: &C) -> Checked {
    CASE.with(|x| x.set(true));
    PANIC_MSG.with(|m| m.borrow_mut().clear());
    let r = catch_unwind(AssertUnwindSafe(|| check(c)));
    CASE.with(|x| x.set(false));
    match r {
        Ok(r) => r,
        Err(e) => {
            let m = PANIC_MSG.with(|m| m.borrow().clone());
            if m.is_empty() {
                std::panic::resume_unwind(e)
            }
            Err(Fail(format!("panicked: {}", m)))
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub enum Mode {
    Run,
    Replay { facet: String, case: Value },
    /// Generate the case a crashed or hung run was at, shrink it, and report it as the violation.
    Locate(Slot),
}

struct FacetStats {
    name: &'static str,
    rule: &'static str,
    evaluations: usize,
    nontrivial: usize,
    regress: usize,
    classes: BTreeMap<String, usize>,
    samples: Vec<Value>,
}

pub struct Violation {
    pub facet: String,
    pub case: Value,
    pub msg: String,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub mode: Mode,
    pub root: PathBuf,
    pub scale: f64,
    stats: Vec<FacetStats>,
    pub violation: Option<Violation>,
    pub replayed: bool,
    ordinal: u32,
    pub extra: BTreeMap<String, Value>,
}

/// Multiplies the case counts written at the facets, so that the quick tier of every property costs
/// about ten seconds on eight cores. Fixed work: no clock is involved.
fn effort(prop: &str) -> f64 {
    match prop {
        "C01" => 1.5,
        "C02" => 2.0,
        "C24" => 1.5,
        "C03" => 1.2,
        "C04" | "C05" => 5.0,
        "C06" | "C14" => 3.0,
        "C07" | "C16" | "C17" => 8.0,
        "C08" | "C12" | "C21" | "C28" => 15.0,
        "C11" | "C13" | "C29" => 16.0,
        "C31" | "C33" => 7.0,
        "C32" => 25.0,
        "C35" => 2.5,
        "C36" => 40.0,
        "C10" | "C15" => 20.0,
        "C20" => 4.0,
        "C30" => 6.0,
        _ => 10.0,
    }
}

const SHARDS: usize = 32;

std::thread_local! {
    static NUMBER: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// The number of the case being generated: 0, 1, 2... over the facet, whatever the number of threads.
pub fn case_number() -> u32 {
    NUMBER.get()
}
const MAX_SHRINK: usize = 3000;

fn hash64<T: Hash>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
fn seed_bytes(parts: &[&str], nums: &[u64]) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let h = hash64(&(parts, nums, i));
        out[(i as usize) * 8..(i as usize) * 8 + 8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

fn shard_runner(prop: &str, facet: &str, seed: u64, shard: usize) -> TestRunner {
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(&[prop, facet], &[seed, shard as u64]));
    let cfg = Config { rng_seed: RngSeed::Fixed(seed), failure_persistence: None, ..Config::default() };
    TestRunner::new_with_rng(cfg, rng)
}

struct Shard {
    evaluations: usize,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<String, usize>,
    samples: Vec<Value>,
    failure: Option<(Value, String)>,
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, tier: Tier, mode: Mode, root: &Path) -> Self {
        let scale = std::env::var("PBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        Ctx {
            prop: prop.into(),
            seed,
            tier,
            mode,
            root: root.into(),
            scale,
            stats: vec![],
            violation: None,
            replayed: false,
            ordinal: 0,
            extra: BTreeMap::new(),
        }
    }

    /// Runs one facet. `strat(big)` builds the generator (`big` in the thorough tier).
    pub fn facet<C>(
        &mut self,
        name: &'static str,
        rule: &'static str,
        quick: usize,
        strat: fn(bool) -> BoxedStrategy<C>,
        check: fn(&C) -> Checked,
    ) where
        C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static,
    {
        if let Mode::Replay { facet, case } = &self.mode {
            if facet == name {
                self.replayed = true;
                let c: C = serde_json::from_value(case.clone()).expect("replay case does not decode");
                if let Err(Fail(msg)) = run_case(check, &c) {
                    self.violation = Some(Violation { facet: name.into(), case: case.clone(), msg });
                }
            }
            return;
        }
        if self.violation.is_some() {
            return;
        }
        self.ordinal += 1;
        let ordinal = self.ordinal;
        let big = self.tier == Tier::Thorough;
        if let Mode::Locate(slot) = &self.mode {
            if slot.facet == ordinal {
                let (shard, index) = (slot.shard, slot.index);
                self.replayed = true;
                self.locate(name, strat, shard, index, big);
            }
            return;
        }
        let n = (quick as f64 * effort(&self.prop) * if big { 30.0 } else { 1.0 } * self.scale).ceil() as usize;
        let mut st = FacetStats {
            name,
            rule,
            evaluations: 0,
            nontrivial: 0,
            regress: 0,
            classes: BTreeMap::new(),
            samples: vec![],
        };
        let mut distinct: HashSet<u64> = HashSet::new();

        // Saved cases first.
        for (i, (_, case)) in self.saved_cases(name).into_iter().enumerate() {
            let _slot = enter(0, ordinal, SAVED, i as u64);
            let c: C = match serde_json::from_value(case.clone()) {
                Ok(c) => c,
                Err(e) => panic!("saved case of {} does not decode: {}", name, e),
            };
            st.evaluations += 1;
            st.regress += 1;
            match run_case(check, &c) {
                Ok(t) => {
                    if t.nontrivial {
                        distinct.insert(hash64(&case.to_string()));
                    }
                }
                Err(Fail(msg)) => {
                    self.violation = Some(Violation { facet: name.into(), case, msg });
                    self.stats.push(st);
                    return;
                }
            }
        }

        let seed = self.seed;
        let prop = self.prop.clone();
        let next = AtomicUsize::new(0);
        let min_failed = AtomicUsize::new(usize::MAX);
        let results: Mutex<BTreeMap<usize, Shard>> = Mutex::new(BTreeMap::new());
        let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(SHARDS);
        std::thread::scope(|s| {
            let mut hs = vec![];
            let (next, min_failed, results, prop) = (&next, &min_failed, &results, &prop);
            for t in 0..threads {
                let h = std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= SHARDS {
                            break;
                        }
                        let count = n / SHARDS + usize::from(i < n % SHARDS);
                        let mut runner = shard_runner(prop, name, seed, i);
                        let strategy = strat(big);
                        let mut sh = Shard {
                            evaluations: 0,
                            nontrivial: HashSet::new(),
                            classes: BTreeMap::new(),
                            samples: vec![],
                            failure: None,
                        };
                        for k in 0..count {
                            if min_failed.load(Ordering::SeqCst) < i {
                                break;
                            }
                            NUMBER.set((k * SHARDS + i) as u32);
                            let mut tree = strategy.new_tree(&mut runner).expect("generator rejected too often");
                            let c = tree.current();
                            sh.evaluations += 1;
                            let _slot = enter(t, ordinal, i as u32, k as u64);
                            match run_case(check, &c) {
                                Ok(t) => {
                                    for k in &t.classes {
                                        *sh.classes.entry(k.to_string()).or_default() += 1;
                                    }
                                    if t.nontrivial {
                                        let v = serde_json::to_value(&c).expect("case serialises");
                                        if sh.nontrivial.insert(hash64(&v.to_string())) && sh.samples.is_empty() && i < 3 {
                                            sh.samples.push(v);
                                        }
                                    }
                                }
                                Err(Fail(m)) => {
                                    min_failed.fetch_min(i, Ordering::SeqCst);
                                    let (mut best, mut msg) = (c, m);
                                    let mut steps = 0;
                                    let since = Instant::now();
                                    if tree.simplify() {
                                        loop {
                                            steps += 1;
                                            if steps > MAX_SHRINK || since.elapsed() > supervise::SHRINK {
                                                break;
                                            }
                                            let v = tree.current();
                                            let _slot = enter(t, ordinal, i as u32, k as u64);
                                            let more = match run_case(check, &v) {
                                                Err(Fail(m)) => {
                                                    best = v;
                                                    msg = m;
                                                    tree.simplify()
                                                }
                                                Ok(_) => tree.complicate(),
                                            };
                                            if !more {
                                                break;
                                            }
                                        }
                                    }
                                    sh.failure = Some((serde_json::to_value(&best).expect("case serialises"), msg));
                                    break;
                                }
                            }
                        }
                        results.lock().unwrap().insert(i, sh);
                    })
                    .expect("spawn");
                hs.push(h);
            }
            for h in hs {
                if h.join().is_err() {
                    eprintln!("ERROR: the harness panicked in facet {}", name);
                    std::process::exit(2);
                }
            }
        });
        for (_, sh) in results.into_inner().unwrap() {
            st.evaluations += sh.evaluations;
            distinct.extend(sh.nontrivial);
            for (k, v) in sh.classes {
                *st.classes.entry(k).or_default() += v;
            }
            if st.samples.len() < 2 {
                st.samples.extend(sh.samples.into_iter().map(|v| {
                    let t = v.to_string();
                    if t.len() > 2500 {
                        let mut e = 2500;
                        while !t.is_char_boundary(e) {
                            e -= 1
                        }
                        json!(format!("{}... ({} bytes)", &t[..e], t.len()))
                    } else {
                        v
                    }
                }));
            }
            if self.violation.is_none() {
                if let Some((case, msg)) = sh.failure {
                    self.violation = Some(Violation { facet: name.into(), case, msg });
                }
            }
        }
        st.nontrivial = distinct.len();
        self.stats.push(st);
    }

    /// Regenerates one case of a run that crashed or hung, and shrinks it by running every candidate
    /// in a process of its own.
    fn locate<C>(&mut self, name: &'static str, strat: fn(bool) -> BoxedStrategy<C>, shard: u32, index: u64, big: bool)
    where
        C: Serialize + Clone + std::fmt::Debug + 'static,
    {
        let started = Instant::now();
        let doc = |case: &Value| json!({"property": self.prop, "facet": name, "seed": self.seed, "case": case});
        let mut found: Option<(Value, String)> = None;
        if shard == SAVED {
            if let Some((_, case)) = self.saved_cases(name).into_iter().nth(index as usize) {
                if let Some(m) = supervise::replay_fails(&doc(&case), supervise::HANG) {
                    found = Some((case, m));
                }
            }
        } else {
            let mut runner = shard_runner(&self.prop, name, self.seed, shard as usize);
            let strategy = strat(big);
            for k in 0..index {
                NUMBER.set(k as u32 * SHARDS as u32 + shard);
                strategy.new_tree(&mut runner).expect("generator rejected too often");
            }
            NUMBER.set(index as u32 * SHARDS as u32 + shard);
            let mut tree = strategy.new_tree(&mut runner).expect("generator rejected too often");
            let case = serde_json::to_value(tree.current()).expect("case serialises");
            if let Some(m) = supervise::replay_fails(&doc(&case), supervise::HANG) {
                found = Some((case, m));
                let mut more = tree.simplify();
                while more && started.elapsed() < supervise::SHRINK {
                    let v = serde_json::to_value(tree.current()).expect("case serialises");
                    more = match supervise::replay_fails(&doc(&v), supervise::SHRINK_HANG) {
                        Some(m) => {
                            found = Some((v, m));
                            tree.simplify()
                        }
                        None => tree.complicate(),
                    };
                }
            }
        }
        self.violation = found.map(|(case, msg)| Violation { facet: name.into(), case, msg });
    }

    fn saved_cases(&self, facet: &str) -> Vec<(PathBuf, Value)> {
        let dir = self.root.join("harness/regress").join(&self.prop);
        let mut v = vec![];
        if let Ok(rd) = std::fs::read_dir(dir) {
            let mut paths: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
            paths.sort();
            for p in paths {
                let j: Value = serde_json::from_str(&std::fs::read_to_string(&p).expect("saved case")).expect("saved case");
                if j["facet"] == facet {
                    v.push((p, j["case"].clone()));
                }
            }
        }
        v
    }

    /// Writes replay and evidence files, prints the verdict, returns the exit status.
    pub fn finish(self, started: Instant) -> i32 {
        if let Mode::Replay { facet, .. } = &self.mode {
            if !self.replayed {
                eprintln!("ERROR: no facet {} in {}", facet, self.prop);
                return 2;
            }
            return match self.violation {
                Some(v) => {
                    println!("{}\nstill fails: property={} facet={}", v.msg, self.prop, v.facet);
                    1
                }
                None => {
                    println!("passes: property={} facet={}", self.prop, facet);
                    0
                }
            };
        }
        let mut status = 0;
        if let Mode::Locate(_) = &self.mode {
            if self.violation.is_none() {
                return 0;
            }
        }
        if let Some(v) = &self.violation {
            let dir = self.root.join("replays");
            std::fs::create_dir_all(&dir).expect("replays dir");
            let path = dir.join(format!("{}-{}-seed{}.json", self.prop, v.facet, self.seed));
            let doc = json!({"property": self.prop, "facet": v.facet, "seed": self.seed, "message": v.msg, "case": v.case});
            std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("write replay");
            println!("{}", v.msg);
            println!("shrunk case: {}", v.case);
            println!("VIOLATION property={} replay={}", self.prop, path.display());
            status = 1;
        }
        let evals: usize = self.stats.iter().map(|s| s.evaluations).sum();
        let nontriv: usize = self.stats.iter().map(|s| s.nontrivial).sum();
        let rules: Vec<String> = self.stats.iter().map(|s| format!("[{}] {}", s.name, s.rule)).collect();
        let samples: Vec<Value> =
            self.stats.iter().flat_map(|s| s.samples.iter().map(move |v| json!({"facet": s.name, "case": v}))).collect();
        let facets: Vec<Value> = self
            .stats
            .iter()
            .map(|s| {
                json!({"facet": s.name, "evaluations": s.evaluations, "distinct_nontrivial": s.nontrivial,
                       "saved_cases_replayed": s.regress, "classes": s.classes})
            })
            .collect();
        let mut coverage = json!({"evaluations": evals, "distinct_nontrivial": nontriv, "rule": rules.join("  "),
                              "samples": samples, "facets": facets});
        for (k, v) in &self.extra {
            coverage[k] = v.clone();
        }
        let ev = json!({"property": self.prop, "tier": if self.tier == Tier::Quick {"quick"} else {"thorough"},
            "seed": self.seed, "level": "exploration", "coverage": coverage,
            "assumptions": ["generated-input search: absence of violations is shown only for the cases run"],
            "wall_s": started.elapsed().as_secs_f64(), "violations": status});
        let dir = self.root.join("evidence");
        std::fs::create_dir_all(&dir).expect("evidence dir");
        std::fs::write(dir.join(format!("{}.json", self.prop)), serde_json::to_string_pretty(&ev).unwrap() + "\n")
            .expect("write evidence");
        if status == 0 {
            println!("OK property={} evaluations={} distinct_nontrivial={} wall={:.1}s", self.prop, evals, nontriv, started.elapsed().as_secs_f64());
            if std::env::var_os("PBT_VERBOSE").is_some() {
                for f in &facets {
                    println!("  {}", f);
                }
            }
        }
        status
    }
}
