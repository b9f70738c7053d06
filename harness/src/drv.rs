//! Driver: generates cases with proptest strategies from a fixed seed, runs them, counts them,
//! shrinks failures, and writes results for the supervising parent process.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::fs::File;
use std::io::{Seek, SeekFrom, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::time::{Duration, Instant};

pub enum Verdict {
    /// Held; `true` when the case is non-trivial by the property's stated rule.
    Ok(bool),
    /// Could not be judged (for example the machine was too slow); not counted.
    Skip,
    /// Broken.
    Fail(String),
    /// Looks broken, but only by a deadline: must be confirmed by running the case again.
    Slow(String),
}

impl Verdict {
    /// Says when it happened.
    pub fn after(self, what: &str) -> Verdict {
        match self {
            Verdict::Fail(m) => Verdict::Fail(format!("{}: {}", what, m)),
            Verdict::Slow(m) => Verdict::Slow(format!("{}: {}", what, m)),
            v => v,
        }
    }
}

#[derive(Default)]
pub struct Classes(pub BTreeMap<String, u64>);
impl Classes {
    pub fn hit(&mut self, name: &str) {
        *self.0.entry(name.to_string()).or_insert(0) += 1
    }
    pub fn when(&mut self, cond: bool, name: &str) {
        if cond {
            self.hit(name)
        }
    }
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub sub: String,
    pub case: String,
    pub msg: String,
    pub debug: String,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub shard: usize,
    pub nshards: usize,
    pub scratch: PathBuf,
    pub replay: Option<(String, String)>,
    pub evaluations: u64,
    pub skipped: u64,
    pub nontrivial: HashSet<u64>,
    pub classes: Classes,
    pub samples: Vec<String>,
    pub rules: Vec<String>,
    pub failure: Option<Failure>,
    inflight: File,
    seq: u64,
    pub replay_result: Option<Result<String, String>>,
    started: Instant,
}

/// Judges the cases of each list one after the other, and the lists at the same time.
pub fn together<T: Sync>(lists: &[Vec<T>], cl: &mut Classes, judge: impl Fn(&T, &mut Classes) -> Verdict + Sync) -> Verdict {
    let barrier = std::sync::Barrier::new(lists.len());
    let (start, judge) = (&barrier, &judge);
    let all: Vec<(Verdict, Classes)> = std::thread::scope(|s| {
        let hs: Vec<_> = lists.iter().map(|list| s.spawn(move || {
            let mut cl = Classes::default();
            start.wait();
            let mut hard = false;
            for c in list {
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| judge(c, &mut cl))) {
                    Ok(Verdict::Ok(nontrivial)) => hard |= nontrivial,
                    Ok(Verdict::Skip) => {}
                    Ok(v) => return (v, cl),
                    Err(_) => return (Verdict::Fail("panicked while others were doing the same".into()), cl),
                }
            }
            (Verdict::Ok(hard), cl)
        })).collect();
        hs.into_iter().map(|h| h.join().expect("a judge")).collect()
    });
    let mut hard = false;
    for (v, c) in all {
        for (k, n) in c.0 {
            *cl.0.entry(k).or_insert(0) += n;
        }
        match v {
            Verdict::Ok(nontrivial) => hard |= nontrivial,
            Verdict::Fail(m) => return Verdict::Fail(format!("with others at the same time: {}", m)),
            v => return v,
        }
    }
    Verdict::Ok(hard)
}

pub fn hash64(parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in p.iter() {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    // finaliser
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^= h >> 33;
    h
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("?")
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs library code that must not panic; a panic comes back as Err.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", last_panic()))
}

impl Ctx {
    pub fn new(id: &str, thorough: bool, seed: u64, shard: usize, nshards: usize, scratch: PathBuf, replay: Option<(String, String)>) -> Ctx {
        let inflight = File::create(scratch.join(format!("inflight-{}", shard))).expect("inflight file");
        Ctx {
            id: id.to_string(), thorough, seed, shard, nshards, scratch, replay,
            evaluations: 0, skipped: 0, nontrivial: HashSet::new(), classes: Classes::default(),
            samples: vec![], rules: vec![], failure: None, inflight, seq: 0, replay_result: None, started: Instant::now(),
        }
    }

    /// Picks a size for the tier.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }

    pub fn rule(&mut self, text: &str) {
        self.rules.push(text.to_string())
    }

    fn note_inflight(&mut self, sub: &str, case: &str) {
        self.seq += 1;
        let data = serde_json::json!({"sub": sub, "case": case}).to_string();
        let mut buf = Vec::with_capacity(16 + data.len());
        buf.extend_from_slice(&(data.len() as u64).to_le_bytes());
        buf.extend_from_slice(&self.seq.to_le_bytes());
        buf.extend_from_slice(data.as_bytes());
        let _ = self.inflight.write_all_at(&buf, 0);
    }

    pub fn clear_inflight(&mut self) {
        let _ = self.inflight.seek(SeekFrom::Start(0));
        let _ = self.inflight.write_all(&0u64.to_le_bytes());
    }

    fn exec<T: Serialize>(&mut self, sub: &str, case: &T, f: &mut dyn FnMut(&T, &mut Classes) -> Verdict, classes: &mut Classes) -> Verdict {
        let json = serde_json::to_string(case).expect("serialise case");
        self.note_inflight(sub, &json);
        match catch_unwind(AssertUnwindSafe(|| f(case, classes))) {
            Ok(v) => v,
            Err(_) => {
                let p = last_panic();
                // a panic raised inside the harness itself is an error of the check
                if p.contains(" at src/") {
                    eprintln!("harness panic: {}", p);
                    std::process::exit(3);
                }
                Verdict::Fail(format!("the library panicked: {}", p))
            }
        }
    }

    /// Runs `total` generated cases (split over the shards) of sub-check `sub`.
    pub fn run<S>(&mut self, sub: &str, total: usize, strat: S, mut f: impl FnMut(&S::Value, &mut Classes) -> Verdict)
    where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Debug + Clone,
    {
        if let Some((rsub, rcase)) = self.replay.clone() {
            if rsub != sub {
                return;
            }
            let case: S::Value = match serde_json::from_str(&rcase) {
                Ok(c) => c,
                Err(e) => {
                    eprintln!("replay case does not parse: {}", e);
                    std::process::exit(3);
                }
            };
            let mut classes = Classes::default();
            let mut last = Ok("held".to_string());
            for _ in 0..5 {
                match self.exec(sub, &case, &mut f, &mut classes) {
                    Verdict::Fail(m) | Verdict::Slow(m) => {
                        last = Err(m);
                        break;
                    }
                    _ => {}
                }
            }
            self.replay_result = Some(last);
            return;
        }
        if self.failure.is_some() {
            return;
        }
        let n = total / self.nshards + if self.shard < total % self.nshards { 1 } else { 0 };
        let mut seed = [0u8; 32];
        for i in 0..4 {
            let h = hash64(&[self.id.as_bytes(), sub.as_bytes(), &self.seed.to_le_bytes(), &(self.shard as u64).to_le_bytes(), &[i as u8]]);
            seed[i * 8..i * 8 + 8].copy_from_slice(&h.to_le_bytes());
        }
        let cfg = Config { failure_persistence: None, cases: 1, max_shrink_iters: 0, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        let mut kept = 0;
        for _ in 0..n {
            let mut tree = match strat.new_tree(&mut runner) {
                Ok(t) => t,
                Err(e) => {
                    eprintln!("generator failed: {}", e);
                    std::process::exit(3);
                }
            };
            let case = tree.current();
            let mut classes = std::mem::take(&mut self.classes);
            let verdict = self.exec(sub, &case, &mut f, &mut classes);
            self.classes = classes;
            match verdict {
                Verdict::Ok(nontrivial) => {
                    self.evaluations += 1;
                    if nontrivial {
                        let json = serde_json::to_string(&case).unwrap();
                        let h = hash64(&[sub.as_bytes(), json.as_bytes()]);
                        let fresh = self.nontrivial.insert(h);
                        if fresh && kept < 2 {
                            kept += 1;
                            let mut s = format!("{}: {:?}", sub, case);
                            truncate(&mut s, 900);
                            self.samples.push(s);
                        }
                    }
                }
                Verdict::Skip => self.skipped += 1,
                Verdict::Fail(msg) => {
                    self.evaluations += 1;
                    let (case, msg) = self.shrink(sub, &mut tree, msg, &mut f);
                    self.fail(sub, &case, msg);
                    return;
                }
                Verdict::Slow(msg) => {
                    self.evaluations += 1;
                    let mut confirmed = true;
                    for _ in 0..2 {
                        let mut c = Classes::default();
                        match self.exec(sub, &case, &mut f, &mut c) {
                            Verdict::Fail(_) | Verdict::Slow(_) => {}
                            _ => {
                                confirmed = false;
                                break;
                            }
                        }
                    }
                    if confirmed {
                        self.fail(sub, &case, format!("{} (confirmed by two further runs)", msg));
                        return;
                    }
                    self.classes.hit("unconfirmed-slow");
                }
            }
        }
        self.clear_inflight();
    }

    /// Runs an explicit list of cases (exhaustive enumerations); only shard 0 .. split round-robin.
    pub fn each<T>(&mut self, sub: &str, cases: Vec<T>, mut f: impl FnMut(&T, &mut Classes) -> Verdict)
    where
        T: Serialize + DeserializeOwned + Debug + Clone,
    {
        if let Some((rsub, rcase)) = self.replay.clone() {
            if rsub != sub {
                return;
            }
            let case: T = serde_json::from_str(&rcase).expect("replay case");
            let mut classes = Classes::default();
            self.replay_result = Some(match self.exec(sub, &case, &mut f, &mut classes) {
                Verdict::Fail(m) | Verdict::Slow(m) => Err(m),
                _ => Ok("held".into()),
            });
            return;
        }
        let mut kept = 0;
        for (i, case) in cases.into_iter().enumerate() {
            if self.failure.is_some() {
                return;
            }
            if i % self.nshards != self.shard {
                continue;
            }
            let mut classes = std::mem::take(&mut self.classes);
            let verdict = self.exec(sub, &case, &mut f, &mut classes);
            self.classes = classes;
            self.evaluations += 1;
            match verdict {
                Verdict::Ok(nt) => {
                    if nt {
                        let json = serde_json::to_string(&case).unwrap();
                        if self.nontrivial.insert(hash64(&[sub.as_bytes(), json.as_bytes()])) && kept < 1 {
                            kept += 1;
                            let mut s = format!("{}: {:?}", sub, case);
                            truncate(&mut s, 600);
                            self.samples.push(s);
                        }
                    }
                }
                Verdict::Skip => {}
                Verdict::Fail(m) | Verdict::Slow(m) => self.fail(sub, &case, m),
            }
        }
        self.clear_inflight();
    }

    fn fail<T: Serialize + Debug>(&mut self, sub: &str, case: &T, msg: String) {
        let mut debug = format!("{:#?}", case);
        truncate(&mut debug, 6000);
        self.failure = Some(Failure { sub: sub.to_string(), case: serde_json::to_string(case).unwrap(), msg, debug });
        self.clear_inflight();
    }

    fn shrink<V: ValueTree>(&mut self, sub: &str, tree: &mut V, msg: String, f: &mut impl FnMut(&V::Value, &mut Classes) -> Verdict) -> (V::Value, String)
    where
        V::Value: Serialize + Debug + Clone,
    {
        let mut best = tree.current();
        let mut best_msg = msg;
        let start = Instant::now();
        let mut iters = 0;
        let mut go = tree.simplify();
        while go && iters < 400 && start.elapsed() < Duration::from_secs(60) && self.started.elapsed() < Duration::from_secs(700) {
            iters += 1;
            let cand = tree.current();
            let mut c = Classes::default();
            match self.exec(sub, &cand, f, &mut c) {
                Verdict::Fail(m) => {
                    best = cand;
                    best_msg = m;
                    go = tree.simplify();
                }
                _ => go = tree.complicate(),
            }
        }
        (best, best_msg)
    }
}

pub fn truncate(s: &mut String, max: usize) {
    if s.len() > max {
        let mut i = max;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        s.truncate(i);
        s.push_str(" …");
    }
}
