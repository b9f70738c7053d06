//! C15, C16: the thread pool, driven by operation histories and by concurrent storms.
use super::Prop;
use crate::drv::{last_panic, Ctx, Verdict};
use crate::net::wait_until;
use crate::scarce::{refused, scarce};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use starry::utils::concurrent::ThreadPool;
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Condvar, Mutex};
use std::thread;
use std::time::Duration;

pub const C15: Prop = Prop {
    id: "C15",
    shards: 8,
    assumptions: &["a task 'starts promptly' when it starts within 20 s of scheduler time; a worker that has just finished a task may count as busy for a moment, so rejections are judged only when the history leaves no doubt"],
    run: run15,
};

pub const C16: Prop = Prop {
    id: "C16",
    shards: 8,
    assumptions: &["'again runs as many tasks concurrently' is judged within 20 s of scheduler time after the panics"],
    run: run16,
};

const PATIENCE: u64 = 20_000;

/// A gate a task waits at until it is opened.
#[derive(Default)]
struct Gate {
    open: Mutex<bool>,
    cv: Condvar,
}
impl Gate {
    fn wait(&self) {
        let mut g = self.open.lock().unwrap();
        while !*g {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn open(&self) {
        *self.open.lock().unwrap() = true;
        self.cv.notify_all();
    }
}

#[derive(Default)]
struct Log {
    /// task numbers in the order they started
    started: Mutex<Vec<usize>>,
    ended: AtomicUsize,
    running: AtomicUsize,
    peak: AtomicUsize,
}
impl Log {
    fn begin(&self, n: usize) {
        let r = self.running.fetch_add(1, SeqCst) + 1;
        self.peak.fetch_max(r, SeqCst);
        self.started.lock().unwrap().push(n);
    }
    fn end(&self) {
        self.running.fetch_sub(1, SeqCst);
        self.ended.fetch_add(1, SeqCst);
    }
    fn count(&self, n: usize) -> usize {
        self.started.lock().unwrap().iter().filter(|x| **x == n).count()
    }
    fn total(&self) -> usize {
        self.started.lock().unwrap().len()
    }
}

struct Late(usize);
impl Drop for Late {
    fn drop(&mut self) {
        if !thread::panicking() {
            panic!("task {} panics as told while its values are dropped", self.0)
        }
    }
}

/// Ends a task by one of many kinds of panic.
#[allow(unconditional_panic)]
pub(super) fn break_down(n: usize) {
    match n % 9 {
        0 => panic!("task {} panics as told", n),
        1 => panic!("as told"),
        2 => std::panic::panic_any(n),
        3 => drop(Late(n)),
        4 => std::panic::resume_unwind(Box::new(n)),
        5 => {
            let r: Result<(), usize> = Err(n);
            r.unwrap()
        }
        6 => {
            let v: Vec<u8> = vec![0; n % 3];
            assert_eq!(v[std::hint::black_box(n % 3)], 1)
        }
        7 => {
            // panics twice, the first time caught
            let _ = catch_unwind(|| panic!("as told, inside"));
            let m = Mutex::new(());
            let _g = m.lock();
            std::panic::panic_any(vec![n; 100])
        }
        _ => {
            let _late = Late(n);
            let none: Option<u8> = std::hint::black_box(None);
            none.expect("as told");
        }
    }
}

/// Runs the case on its own thread, so that a library call that blocks forever becomes a verdict.
fn bounded(ms: u64, f: impl FnOnce() -> Result<Verdict, String> + Send + 'static) -> Verdict {
    let slot: Arc<Mutex<Option<Result<Verdict, String>>>> = Arc::new(Mutex::new(None));
    let s = slot.clone();
    thread::spawn(move || {
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(_) => {
                let p = last_panic();
                if p.contains(" at src/") {
                    eprintln!("harness panic: {}", p);
                    std::process::exit(3);
                }
                Err(format!("the library panicked: {}", p))
            }
        };
        *s.lock().unwrap() = Some(r);
    });
    if !wait_until(ms, || slot.lock().unwrap().is_some()) {
        return Verdict::Slow(format!("a call into the pool does not return within {} ms", ms));
    }
    let r = slot.lock().unwrap().take().unwrap();
    match r {
        Ok(v) => v,
        Err(e) => Verdict::Fail(e),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shape {
    workers: usize,
    queue: usize,
    stack: usize,
    /// which constructor
    how: u8,
}

fn shape() -> impl Strategy<Value = Shape> {
    (1usize..=5, prop_oneof![3 => 1usize..=6, 1 => Just(100usize)], prop_oneof![Just(0usize), Just(300_000usize)], 0u8..3)
        .prop_map(|(workers, queue, stack, how)| Shape { workers, queue: if how == 0 { 100 } else { queue }, stack, how })
}

fn make(s: &Shape) -> Result<ThreadPool, String> {
    let p = match s.how {
        0 => ThreadPool::new(s.workers),
        1 => ThreadPool::new_custom(String::from("vh-pool-"), s.workers, s.stack, s.queue),
        _ => {
            let mut b = ThreadPool::builder();
            b.pool_size(s.workers).task_count(s.queue).name_prefix("vh-built-").stack_size(s.stack);
            b.create()
        }
    }.map_err(|e| format!("creating the pool failed: {}", e))?;
    if p.size() != s.workers {
        return Err(format!("size() is {} instead of {}", p.size(), s.workers));
    }
    Ok(p)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// submit this many tasks one after another
    Submit(u8),
    /// let the n-th (modulo) running task end
    End(u8),
    /// let all running tasks end
    EndAll,
    /// submit through a clone of the pool
    SubmitClone(u8),
    /// give the pool time to settle
    Settle,
    /// let a running task end by a panic
    Panic(u8),
    /// let all running tasks panic at the same time
    PanicAll,
}

struct Rig {
    pool: ThreadPool,
    shape: Shape,
    log: Arc<Log>,
    gates: Vec<Arc<Gate>>,
    fate: Vec<Arc<AtomicUsize>>,
    /// accepted tasks, in order of submission, not yet seen started
    waiting: VecDeque<usize>,
    running: Vec<usize>,
    rejected: Vec<usize>,
    /// starts accounted for
    seen: usize,
}

const PANIC: usize = 1;

impl Rig {
    fn new(shape: &Shape) -> Result<Rig, String> {
        Ok(Rig { pool: make(shape)?, shape: shape.clone(), log: Arc::new(Log::default()), gates: vec![], fate: vec![], waiting: VecDeque::new(), running: vec![], rejected: vec![], seen: 0 })
    }

    fn submit(&mut self, clone: bool) -> Result<bool, String> {
        let n = self.gates.len();
        let (gate, fate, log) = (Arc::new(Gate::default()), Arc::new(AtomicUsize::new(0)), self.log.clone());
        self.gates.push(gate.clone());
        self.fate.push(fate.clone());
        let task = move || {
            log.begin(n);
            gate.wait();
            log.end();
            if fate.load(SeqCst) == PANIC {
                break_down(n)
            }
        };
        let res = if clone { self.pool.clone().execute(task) } else { self.pool.execute(task) };
        match res {
            Ok(()) => {
                self.waiting.push_back(n);
                Ok(true)
            }
            Err(_) => {
                self.rejected.push(n);
                Ok(false)
            }
        }
    }

    /// Waits until as many tasks run as can, and checks that.
    fn settle(&mut self, when: &str) -> Result<Option<String>, String> {
        let want = self.shape.workers.min(self.running.len() + self.waiting.len());
        let fresh = want - self.running.len();
        let target = self.seen + fresh;
        let log = self.log.clone();
        let ok = wait_until(PATIENCE, || log.total() >= target);
        let started = self.log.started.lock().unwrap().clone();
        let seen: Vec<usize> = started.iter().cloned().filter(|n| self.waiting.contains(n)).collect();
        for n in &seen {
            self.waiting.retain(|w| w != n);
            self.running.push(*n);
        }
        self.seen = started.len();
        if !ok {
            return Ok(Some(format!("{}: only {} of {} workers run a task although {} accepted tasks wait", when, self.running.len(), self.shape.workers, self.waiting.len())));
        }
        if self.running.len() > self.shape.workers {
            return Err(format!("{}: {} tasks run at the same time on {} workers", when, self.running.len(), self.shape.workers));
        }
        if self.shape.workers == 1 {
            let mut sorted = started.clone();
            sorted.sort();
            if started != sorted {
                return Err(format!("{}: a single worker started tasks in the order {:?}", when, started));
            }
        }
        for n in &started {
            if self.rejected.contains(n) {
                return Err(format!("{}: rejected task {} was run", when, n));
            }
        }
        let mut uniq = started.clone();
        uniq.sort();
        uniq.dedup();
        if uniq.len() != started.len() {
            return Err(format!("{}: a task was run twice: {:?}", when, started));
        }
        Ok(None)
    }

    fn finish(&mut self, which: Vec<usize>, panic: bool) {
        let before = self.log.ended.load(SeqCst);
        for n in &which {
            if panic {
                self.fate[*n].store(PANIC, SeqCst);
            }
        }
        for n in &which {
            self.gates[*n].open();
            self.running.retain(|r| r != n);
        }
        let log = self.log.clone();
        let k = which.len();
        wait_until(PATIENCE, move || log.ended.load(SeqCst) >= before + k);
    }
}

fn history(shape: &Shape, ops: &[Op], final_probe: bool) -> Result<Verdict, String> {
    let mut rig = Rig::new(shape)?;
    let mut busy_rejects = 0;
    let mut queued = 0;
    let mut panics = 0;
    for (i, op) in ops.iter().enumerate() {
        let what = format!("step {} ({:?})", i, op);
        match op {
            Op::Submit(k) | Op::SubmitClone(k) => {
                for _ in 0..(*k).max(1) {
                    // all workers hold a task that does not end, and the queue content is known exactly
                    let full = rig.running.len() == shape.workers;
                    let room = rig.waiting.len() < shape.queue;
                    let accepted = rig.submit(matches!(op, Op::SubmitClone(_)))?;
                    if !accepted && (!full || room) {
                        return Err(format!("{}: a task is rejected with {} of {} workers busy and {} of {} queue places taken", what, rig.running.len(), shape.workers, rig.waiting.len(), shape.queue));
                    }
                    if accepted && full && !room {
                        return Err(format!("{}: a task is accepted with all workers busy and all {} queue places taken", what, shape.queue));
                    }
                    if !accepted {
                        busy_rejects += 1;
                    } else if full {
                        queued += 1;
                    }
                    if let Some(slow) = rig.settle(&what)? {
                        return Ok(Verdict::Slow(slow));
                    }
                }
            }
            Op::End(k) => {
                if !rig.running.is_empty() {
                    let n = rig.running[*k as usize % rig.running.len()];
                    rig.finish(vec![n], false);
                }
            }
            Op::Panic(k) => {
                if !rig.running.is_empty() {
                    panics += 1;
                    let n = rig.running[*k as usize % rig.running.len()];
                    rig.finish(vec![n], true);
                }
            }
            Op::EndAll => {
                let r = rig.running.clone();
                rig.finish(r, false)
            }
            Op::PanicAll => {
                let r = rig.running.clone();
                panics += r.len();
                rig.finish(r, true)
            }
            Op::Settle => thread::sleep(Duration::from_millis(2)),
        }
        if let Some(slow) = rig.settle(&what)? {
            return Ok(Verdict::Slow(slow));
        }
    }
    // let everything finish
    while !rig.running.is_empty() {
        let r = rig.running.clone();
        rig.finish(r, false);
        if let Some(slow) = rig.settle("while draining")? {
            return Ok(Verdict::Slow(slow));
        }
    }
    if let Some(s) = rig.waiting.front() {
        return Err(format!("accepted task {} was never run", s));
    }
    if final_probe {
        // the full configured concurrency is there again
        for _ in 0..shape.workers {
            if !rig.submit(false)? {
                return Err(String::from("after the history, a task is rejected by an idle pool"));
            }
            if let Some(slow) = rig.settle("probing the idle pool")? {
                return Ok(Verdict::Slow(slow));
            }
        }
        let r = rig.running.clone();
        rig.finish(r, false);
    }
    thread::sleep(Duration::from_millis(1));
    for n in &rig.rejected {
        if rig.log.count(*n) > 0 {
            return Err(format!("rejected task {} was run", n));
        }
    }
    let all: usize = rig.gates.len() - rig.rejected.len();
    if rig.log.total() != all {
        return Err(format!("{} starts for {} accepted tasks", rig.log.total(), all));
    }
    Ok(Verdict::Ok(busy_rejects > 0 || queued > 0 || panics > 0))
}

fn op15() -> impl Strategy<Value = Op> {
    prop_oneof![
        5 => (1u8..6).prop_map(Op::Submit),
        2 => (1u8..4).prop_map(Op::SubmitClone),
        4 => any::<u8>().prop_map(Op::End),
        1 => Just(Op::EndAll),
        1 => Just(Op::Settle),
    ]
}

fn op16() -> impl Strategy<Value = Op> {
    prop_oneof![
        5 => (1u8..6).prop_map(Op::Submit),
        2 => any::<u8>().prop_map(Op::End),
        5 => any::<u8>().prop_map(Op::Panic),
        2 => Just(Op::PanicAll),
        1 => Just(Op::Settle),
    ]
}

/// Concurrent submitters with short tasks.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Storm {
    shape: Shape,
    /// per submitter: the tasks' durations (0 = none, 1 = yield, else microseconds), 250 and up: panic
    submitters: Vec<Vec<u8>>,
    /// pauses between submissions: 0 none, 1 yield, else spin iterations
    pause: u8,
    rounds: u8,
}

fn storm_case(s: &Storm) -> Result<Verdict, String> {
    let mut shape = s.shape.clone();
    let total: usize = s.submitters.iter().map(|v| v.len()).sum();
    shape.how = 1;
    if shape.queue > 6 {
        shape.queue = total.max(1);
    }
    let pool = Arc::new(make(&shape)?);
    let mut rejects = 0;
    for round in 0..s.rounds.max(1) {
        let runs: Arc<Vec<AtomicU64>> = Arc::new((0..total).map(|_| AtomicU64::new(0)).collect());
        let live = Arc::new((AtomicUsize::new(0), AtomicUsize::new(0)));
        let order: Arc<Mutex<Vec<usize>>> = Arc::new(Mutex::new(vec![]));
        let start = Arc::new(Barrier::new(s.submitters.len()));
        let mut handles = vec![];
        let mut base = 0;
        for tasks in &s.submitters {
            let (pool, runs, live, order, start, tasks, pause) = (pool.clone(), runs.clone(), live.clone(), order.clone(), start.clone(), tasks.clone(), s.pause);
            let first = base;
            base += tasks.len();
            handles.push(thread::spawn(move || {
                start.wait();
                let mut refused = vec![];
                for (i, d) in tasks.iter().enumerate() {
                    let (id, d) = (first + i, *d);
                    let (runs, live, order) = (runs.clone(), live.clone(), order.clone());
                    let r = pool.execute(move || {
                        let n = live.0.fetch_add(1, SeqCst) + 1;
                        live.1.fetch_max(n, SeqCst);
                        runs[id].fetch_add(1, SeqCst);
                        order.lock().unwrap().push(id);
                        match d {
                            0 => {}
                            1 => thread::yield_now(),
                            d if d < 250 => thread::sleep(Duration::from_micros(d as u64)),
                            _ => {}
                        }
                        live.0.fetch_sub(1, SeqCst);
                        if d >= 250 {
                            break_down(id)
                        }
                    });
                    if r.is_err() {
                        refused.push(id);
                    }
                    match pause {
                        0 => {}
                        1 => thread::yield_now(),
                        p if p < 40 => {
                            for _ in 0..p as u32 * 20 {
                                std::hint::spin_loop()
                            }
                        }
                        p => thread::sleep(Duration::from_micros(p as u64)),
                    }
                }
                refused
            }));
        }
        let mut refused = vec![];
        for h in handles {
            match h.join() {
                Ok(r) => refused.extend(r),
                Err(_) => return Err(format!("submitting panicked: {}", last_panic())),
            }
        }
        rejects += refused.len();
        if !refused.is_empty() && shape.queue >= total {
            return Err(format!("round {}: {} tasks rejected although the queue has room for all {}", round, refused.len(), total));
        }
        let expect = (total - refused.len()) as u64;
        let r2 = runs.clone();
        let done = wait_until(PATIENCE, || r2.iter().map(|r| r.load(SeqCst)).sum::<u64>() >= expect);
        if !done {
            let missing: Vec<usize> = (0..total).filter(|i| !refused.contains(i) && runs[*i].load(SeqCst) == 0).collect();
            return Ok(Verdict::Slow(format!("round {}: accepted tasks {:?} are not run although the workers are free", round, missing)));
        }
        thread::yield_now();
        for i in 0..total {
            let n = runs[i].load(SeqCst);
            if n > 1 {
                return Err(format!("round {}: task {} ran {} times", round, i, n));
            }
            if refused.contains(&i) && n > 0 {
                return Err(format!("round {}: rejected task {} was run", round, i));
            }
        }
        let peak = live.1.load(SeqCst);
        if peak > shape.workers {
            return Err(format!("round {}: {} tasks ran at the same time on {} workers", round, peak, shape.workers));
        }
        if shape.workers == 1 {
            let o = order.lock().unwrap().clone();
            let mut base = 0;
            for t in &s.submitters {
                let mine: Vec<usize> = o.iter().cloned().filter(|i| (base..base + t.len()).contains(i)).collect();
                let mut sorted = mine.clone();
                sorted.sort();
                if mine != sorted {
                    return Err(format!("round {}: one submitter's tasks ran in the order {:?} on a single worker", round, mine));
                }
                base += t.len();
            }
        }
    }
    // all workers usable again
    let log = Arc::new(Log::default());
    let gate = Arc::new(Gate::default());
    for n in 0..shape.workers {
        let (l, g) = (log.clone(), gate.clone());
        let mut tries = 0;
        loop {
            let (l, g) = (l.clone(), g.clone());
            let r = pool.execute(move || {
                l.begin(n);
                g.wait();
                l.end();
            });
            match r {
                Ok(()) => break,
                // the last tasks of the storm may still count
                Err(_) if tries < 2000 => {
                    tries += 1;
                    thread::sleep(Duration::from_millis(5));
                }
                Err(e) => return Err(format!("an idle pool rejects a task: {}", e)),
            }
        }
    }
    let ok = wait_until(PATIENCE, || log.total() >= shape.workers);
    gate.open();
    if !ok {
        return Ok(Verdict::Slow(format!("after the storm only {} of {} workers run tasks", log.total(), shape.workers)));
    }
    let _ = rejects;
    Ok(Verdict::Ok(total > shape.workers))
}

fn storm(panics: bool) -> impl Strategy<Value = Storm> {
    let dur = if panics {
        prop_oneof![3 => 0u8..2, 1 => 2u8..250, 3 => 250u8..=255].boxed()
    } else {
        prop_oneof![3 => 0u8..2, 1 => 2u8..250].boxed()
    };
    (shape(), vec(vec(dur, 1..40), 1..5), any::<u8>(), 1u8..4)
        .prop_map(|(shape, submitters, pause, rounds)| Storm { shape, submitters, pause: if pause > 127 { pause & 1 } else { pause }, rounds })
}

/// Many tasks end by panics; then all workers blocked, then the queue filled to its last place.
fn deep_case(workers: usize, queue: usize, how: u8, panics: usize, batch: usize) -> Result<Verdict, String> {
    let shape = Shape { workers, queue, stack: 0, how };
    let pool = make(&shape)?;
    let broken = Arc::new(AtomicUsize::new(0));
    let mut sent = 0;
    while sent < panics {
        let until = (sent + batch).min(panics);
        while sent < until {
            let (b, n) = (broken.clone(), sent);
            let mut left = true;
            let accepted = wait_until(PATIENCE, || {
                let b = b.clone();
                left = pool.execute(move || {
                    b.fetch_add(1, SeqCst);
                    break_down(n)
                }).is_err();
                !left
            });
            if !accepted {
                return Ok(Verdict::Slow(format!("after {} of {} panics the pool takes no task any more", broken.load(SeqCst), panics)));
            }
            sent += 1;
        }
        if !wait_until(PATIENCE, || broken.load(SeqCst) >= sent) {
            return Ok(Verdict::Slow(format!("only {} of {} accepted tasks (all panicking) started", broken.load(SeqCst), sent)));
        }
    }
    if broken.load(SeqCst) != panics {
        return Err(format!("{} starts for {} accepted tasks", broken.load(SeqCst), panics));
    }
    for round in 0..2 {
        let (gate, log) = (Arc::new(Gate::default()), Arc::new(Log::default()));
        let task = |n: usize| {
            let (gate, log) = (gate.clone(), log.clone());
            move || {
                log.begin(n);
                gate.wait();
                log.end();
            }
        };
        for n in 0..workers {
            // after the first round a worker may still be on its way back from its last task
            if pool.execute(task(n)).is_err() && (round == 0 || !wait_until(PATIENCE, || pool.execute(task(n)).is_ok())) {
                gate.open();
                return Err(format!("task {} of {} rejected by a pool with an idle worker and an empty queue (round {})", n, workers, round));
            }
            if !wait_until(PATIENCE, || log.total() > n) {
                gate.open();
                return Ok(Verdict::Slow(format!("only {} of {} workers took a task in round {}", log.total(), workers, round)));
            }
        }
        let mut verdict = None;
        for n in workers..workers + queue {
            if pool.execute(task(n)).is_err() {
                verdict = Some(format!("a task is rejected with {} of {} queue places taken", n - workers, queue));
                break;
            }
        }
        if verdict.is_none() && pool.execute(task(workers + queue)).is_ok() {
            verdict = Some(format!("a task is accepted with all {} queue places taken", queue));
        }
        gate.open();
        if let Some(v) = verdict {
            return Err(v);
        }
        let all = workers + queue;
        if !wait_until(PATIENCE, || log.ended.load(SeqCst) >= all) {
            return Ok(Verdict::Slow(format!("{} of {} accepted tasks ended", log.ended.load(SeqCst), all)));
        }
        thread::sleep(Duration::from_millis(2));
        let mut started = log.started.lock().unwrap().clone();
        if workers == 1 && started.windows(2).any(|w| w[0] > w[1]) {
            return Err(String::from("a single worker started tasks out of order"));
        }
        started.sort();
        if started != (0..all).collect::<Vec<_>>() {
            return Err(format!("{} starts for {} accepted tasks, not each exactly once", started.len(), all));
        }
    }
    Ok(Verdict::Ok(true))
}

fn run15(ctx: &mut Ctx) {
    ctx.rule("Histories: a task was queued or rejected while all workers were busy; storms: more tasks than workers; large queues and wide pools: all.");
    ctx.run("deep-queue", ctx.n(160, 6_000), (1usize..=4, crate::gen::big_size(4000), 1u8..3), |(workers, queue, how), cl| {
        let (w, q, h) = (*workers, (*queue).max(1), *how);
        cl.when(q > 1024, "beyond-1024");
        bounded(PATIENCE * 3, move || deep_case(w, q, h, 0, 1))
    });
    // pools of many workers
    ctx.run("wide", ctx.n(120, 4_000), (prop_oneof![2 => 6usize..40, 2 => 40usize..140, 1 => 140usize..320], 1usize..40, 1u8..3), |(workers, queue, how), cl| {
        let (w, q, h) = (*workers, *queue, *how);
        cl.when(w > 64, "over-64-workers");
        cl.when(w > 256, "over-256-workers");
        bounded(PATIENCE * 3, move || deep_case(w, q, h, 0, 1))
    });
    ctx.run("history", ctx.n(12_000, 300_000), (shape(), vec(op15(), 1..25)), |(s, ops), cl| {
        let (s, ops) = (s.clone(), ops.clone());
        cl.hit(&format!("workers-{}", s.workers));
        bounded(PATIENCE * 3, move || history(&s, &ops, true))
    });
    ctx.run("storm", ctx.n(12_000, 300_000), storm(false), |s, cl| {
        cl.when(s.submitters.len() > 1, "concurrent-submitters");
        let s = s.clone();
        bounded(PATIENCE * 3, move || storm_case(&s))
    });
}

/// The threads that are to take the place of panicked ones are refused at first.
fn refused_case(workers: usize, panics: usize, refuse: &[bool]) -> (Result<Verdict, String>, usize) {
    scarce(false, refuse, || {
        let pool = ThreadPool::new_custom(String::from("vh-scarce-"), workers, 0, 100).map_err(|e| format!("creating the pool failed: {}", e))?;
        let ran = Arc::new(AtomicUsize::new(0));
        for i in 0..panics {
            let r = ran.clone();
            pool.execute(move || {
                r.fetch_add(1, SeqCst);
                break_down(i)
            }).map_err(|e| format!("a task is rejected: {}", e))?;
        }
        if !wait_until(PATIENCE, || ran.load(SeqCst) == panics) {
            return Ok(Verdict::Slow(format!("only {} of {} panicking tasks ran", ran.load(SeqCst), panics)));
        }
        let (met, go) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicBool::new(false)));
        for _ in 0..workers {
            let (m, g) = (met.clone(), go.clone());
            pool.execute(move || {
                m.fetch_add(1, SeqCst);
                while !g.load(SeqCst) {
                    thread::sleep(Duration::from_micros(100));
                }
            }).map_err(|e| format!("a task is rejected: {}", e))?;
        }
        let all = wait_until(PATIENCE, || met.load(SeqCst) == workers);
        go.store(true, SeqCst);
        if !all {
            return Ok(Verdict::Slow(format!("after {} panics and {} refused threads only {} of {} tasks run at the same time", panics, refused(), met.load(SeqCst), workers)));
        }
        if !wait_until(PATIENCE, || ran.load(SeqCst) == panics) {
            return Ok(Verdict::Fail(String::from("a task ran twice")));
        }
        Ok(Verdict::Ok(refused() > 0))
    })
}

fn run16(ctx: &mut Ctx) {
    ctx.rule("Histories: at least one task panicked or was queued; storms: more tasks than workers; many panics: all; refused: the system refused a thread.");
    // very many panics, and wide pools
    ctx.run("weary", ctx.n(160, 6_000), (prop_oneof![3 => 1usize..6, 1 => 6usize..60], 1usize..20, 1u8..3, prop_oneof![2 => 50usize..600, 1 => 600usize..4_000], 1usize..30), |(workers, queue, how, panics, batch), cl| {
        let (w, q, h, p, b) = (*workers, *queue, *how, *panics, *batch);
        cl.when(p > 1000, "over-1000-panics");
        cl.when(b > w, "more-panics-at-once-than-workers");
        bounded(PATIENCE * 3, move || deep_case(w, q, h, p, b))
    });
    ctx.run("refused", ctx.n(800, 30_000), (1usize..6, 1usize..20, vec(proptest::bool::weighted(0.4), 1..8)), |(workers, panics, refuse), cl| {
        let (w, p, r) = (*workers, *panics, refuse.clone());
        let n = Arc::new(AtomicUsize::new(0));
        let n2 = n.clone();
        let v = bounded(PATIENCE * 3, move || {
            let (v, refused) = refused_case(w, p, &r);
            n2.store(refused, SeqCst);
            v
        });
        cl.when(n.load(SeqCst) > 1, "refused-more-than-once");
        v
    });
    ctx.run("history", ctx.n(12_000, 300_000), (shape(), vec(op16(), 1..25)), |(s, ops), cl| {
        let (s, ops) = (s.clone(), ops.clone());
        cl.when(ops.iter().any(|o| matches!(o, Op::PanicAll)), "simultaneous-panics");
        bounded(PATIENCE * 3, move || history(&s, &ops, true))
    });
    ctx.run("storm", ctx.n(12_000, 300_000), storm(true), |s, cl| {
        cl.when(s.submitters.iter().flatten().filter(|d| **d >= 250).count() > s.shape.workers, "more-panics-than-workers");
        let s = s.clone();
        bounded(PATIENCE * 3, move || storm_case(&s))
    });
}
