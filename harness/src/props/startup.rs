//! C28, C29: starting servers, and making and releasing pools and threads as configured.
use super::web::*;
use super::Prop;
use crate::drv::{guarded, last_panic, Classes, Ctx, Verdict};
use crate::scarce::scarce;
use crate::net::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use starry::utils::concurrent::{Thread, ThreadPool};
use starry::{Context, HttpServer};
use std::hint::black_box;
use std::net::{SocketAddr, TcpListener};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::Duration;

// ------------------------------------------------------------------------------------------ C28

pub const C28: Prop = Prop {
    id: "C28",
    shards: 8,
    assumptions: &["192.0.2.0/24 (reserved for documentation) is not an address of this machine", "a failed start is reported within 20 s of scheduler time"],
    run: run28,
};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Kind {
    /// can be bound
    Free,
    /// can be bound, and is of the other family
    Free6,
    /// taken by somebody else
    Taken,
    /// taken by a server of the library started earlier in the history
    Ours,
    /// not an address of this machine
    Foreign,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Do {
    /// register the next route through this clone
    Route(u8),
    /// make another clone
    Clone(u8),
    /// try to serve at the first of these addresses that can be bound, through this clone, the address given in this form
    Listen(u8, Vec<Kind>, u8),
    /// text that is no address
    Nonsense(u8, u8),
    /// the system refuses the server a thread; then it is started there again
    Starved(u8),
}

fn kind() -> impl Strategy<Value = Kind> {
    prop_oneof![2 => Just(Kind::Free), 1 => Just(Kind::Free6), 3 => Just(Kind::Taken), 1 => Just(Kind::Ours), 2 => Just(Kind::Foreign)]
}

fn doing() -> impl Strategy<Value = Do> {
    prop_oneof![
        3 => any::<u8>().prop_map(Do::Route),
        1 => any::<u8>().prop_map(Do::Clone),
        4 => (any::<u8>(), vec(kind(), 0..5), 0u8..4).prop_map(|(c, k, f)| Do::Listen(c, k, f)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(c, n)| Do::Nonsense(c, n)),
        1 => any::<u8>().prop_map(Do::Starved),
    ]
}

const NONSENSE: [&str; 8] = ["nonsense", "127.0.0.1", "127.0.0.1:65536", "127.0.0.1:-1", "127.0.0.1:http", "127.0.0.1:80:80", "[::1", "127.0.0.1: 80"];

enum Started {
    Serving,
    Error,
    Panicked(String),
    /// neither came about
    Nothing,
}

/// Runs `listener` on a thread of its own and waits for what comes of it.
fn attempt(f: impl FnOnce() -> bool + Send + 'static, expected: Option<SocketAddr>) -> Started {
    let slot: Arc<Mutex<Option<Result<bool, String>>>> = Arc::new(Mutex::new(None));
    let s = slot.clone();
    thread::spawn(move || {
        let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic());
        *s.lock().unwrap() = Some(r);
    });
    let d = Deadline::ms(PATIENCE_MS);
    loop {
        match slot.lock().unwrap().take() {
            Some(Ok(true)) => return Started::Nothing,
            Some(Ok(false)) => return Started::Error,
            Some(Err(p)) => return Started::Panicked(p),
            None => {}
        }
        if let Some(a) = expected {
            if std::net::TcpStream::connect_timeout(&a, Duration::from_millis(500)).is_ok() {
                return Started::Serving;
            }
        }
        if d.over() {
            return Started::Nothing;
        }
        thread::sleep(Duration::from_micros(300));
    }
}

fn case28(ops: &[Do], cl: &mut Classes) -> Verdict {
    set_script(Arc::new(|stage, ctx: &mut Context| {
        if let Stage::Handler(n) = stage {
            ctx.resp_body(format!("route {}", n).into_bytes());
        }
        ctx.response();
    }));
    let mut first = HttpServer::new();
    first.set_pool_size(1);
    first.set_log(log::LevelFilter::Off, String::from("./log"), 1, 1);
    let mut clones = vec![first];
    let mut routes = 0usize;
    let mut serving: Vec<SocketAddr> = vec![];
    let mut holders: Vec<TcpListener> = vec![];
    let mut failed = false;
    let mut interesting = false;
    let mut body = || -> Result<(), Verdict> {
        for (i, op) in ops.iter().enumerate() {
            match op {
                Do::Route(c) => {
                    if routes < MAX_HANDLERS {
                        let s = &clones[*c as usize % clones.len()];
                        starry_router::Router::new(s, "", None).register("GET", &format!("/r{}", routes), HANDLERS[routes], None);
                        routes += 1;
                        cl.when(!serving.is_empty(), "route-added-while-serving");
                    }
                }
                Do::Clone(c) => {
                    let s = clones[*c as usize % clones.len()].clone();
                    clones.push(s);
                }
                Do::Nonsense(c, n) => {
                    let s = clones[*c as usize % clones.len()].clone();
                    let text = NONSENSE[*n as usize % NONSENSE.len()];
                    cl.hit("nonsense-address");
                    failed = true;
                    match attempt(move || s.listener(text).is_ok(), None) {
                        Started::Error => {}
                        Started::Panicked(p) => return fail(format!("step {}: listener({:?}) panicked: {}", i, text, p)),
                        _ => return Err(Verdict::Slow(format!("step {}: listener({:?}) does not report an error", i, text))),
                    }
                }
                Do::Starved(c) => {
                    let s = clones[*c as usize % clones.len()].clone();
                    let (again, a) = (s.clone(), free_addr());
                    match attempt(move || scarce(true, &[true], || s.listener(a)).0.is_ok(), None) {
                        Started::Error => {}
                        Started::Panicked(p) => return fail(format!("step {}: listener({}) panicked when a thread was refused: {}", i, a, p)),
                        _ => return Err(Verdict::Slow(format!("step {}: listener({}) does not report an error when a thread is refused", i, a))),
                    }
                    cl.hit("thread-refused");
                    match attempt(move || again.listener(a).is_ok(), Some(a)) {
                        Started::Serving => serving.push(a),
                        Started::Error => return fail(format!("step {}: listener({}) is an error after a thread had been refused there", i, a)),
                        Started::Panicked(p) => return fail(format!("step {}: listener({}) panicked: {}", i, a, p)),
                        Started::Nothing => return Err(Verdict::Slow(format!("step {}: {} is not served after a thread had been refused there", i, a))),
                    }
                    interesting = true;
                }
                Do::Listen(c, kinds, form) => {
                    let s = clones[*c as usize % clones.len()].clone();
                    // one address may be given in other ways than as a list
                    let single = kinds.len() == 1 && *form > 0;
                    let mut addrs = vec![];
                    let mut expected = None;
                    let mut others = vec![];
                    for k in kinds {
                        let a = match k {
                            Kind::Free => free_addr(),
                            Kind::Free6 => match free_addr6() {
                                Some(a) => {
                                    cl.hit("ipv6-address");
                                    a
                                }
                                None => free_addr(),
                            },
                            Kind::Taken => {
                                let a = free_addr();
                                match TcpListener::bind(a) {
                                    Ok(l) => holders.push(l),
                                    Err(_) => return Err(Verdict::Skip),
                                }
                                a
                            }
                            Kind::Ours => match serving.last() {
                                Some(a) => *a,
                                None => continue,
                            },
                            Kind::Foreign => SocketAddr::from(([192, 0, 2, 1 + i as u8], 4000)),
                        };
                        if matches!(k, Kind::Free | Kind::Free6) {
                            if expected.is_none() {
                                expected = Some(a)
                            } else {
                                others.push(a)
                            }
                        }
                        addrs.push(a);
                    }
                    let what = format!("step {}: listener({:?}) of {:?}", i, addrs, kinds);
                    let (list, f) = (addrs.clone(), *form);
                    let run = move || {
                        if single && !list.is_empty() {
                            match f {
                                1 => s.listener(list[0]).is_ok(),
                                2 => s.listener(list[0].to_string()).is_ok(),
                                _ => s.listener((list[0].ip(), list[0].port())).is_ok(),
                            }
                        } else {
                            s.listener(&list[..]).is_ok()
                        }
                    };
                    match (attempt(run, expected), expected) {
                        (Started::Serving, Some(a)) => {
                            let later = addrs[0] != a;
                            cl.when(later, "later-address-serves");
                            interesting |= failed || later;
                            serving.push(a);
                        }
                        (Started::Error, None) => {
                            cl.hit(if addrs.is_empty() { "no-address" } else { "none-can-be-bound" });
                            failed = true;
                        }
                        (Started::Error, Some(a)) => return fail(format!("{}: an error although {} can be bound", what, a)),
                        (Started::Panicked(p), _) => return fail(format!("{} panicked: {}", what, p)),
                        (_, Some(a)) => return Err(Verdict::Slow(format!("{}: {} is not served", what, a))),
                        (_, None) => return Err(Verdict::Slow(format!("{}: no error is reported", what))),
                    }
                    for a in others {
                        if std::net::TcpStream::connect_timeout(&a, Duration::from_secs(5)).is_ok() {
                            return fail(format!("{}: {} is served as well", what, a));
                        }
                    }
                }
            }
            // what is served now
            for (k, a) in serving.iter().enumerate() {
                let n = (i * 7 + k * 3) % (routes + 1);
                let r = must(exchange(*a, &request("GET", &format!("/r{}", n), &[], b""), false), &format!("after step {}: GET /r{} at {}", i, n, a))?;
                let want = if n < routes { (200, format!("route {}", n)) } else { (404, String::new()) };
                if r.code != want.0 || (r.code == 200 && r.body != want.1.as_bytes()) {
                    return fail(format!("after step {}: GET /r{} at {} answered {} {:?} with {} routes registered", i, n, a, r.code, String::from_utf8_lossy(&r.body), routes));
                }
                cl.when(k > 0, "second-server-asked");
            }
        }
        Ok(())
    };
    let r = body();
    settle(r.map(|_| interesting))
}

fn run28(ctx: &mut Ctx) {
    ctx.rule("A server was started after an attempt that failed, or at another address than the first of its list.");
    ctx.run("starts", ctx.n(6_000, 60_000), vec(doing(), 2..9), |ops, cl| case28(ops, cl));
}

// ------------------------------------------------------------------------------------------ C29

pub const C29: Prop = Prop {
    id: "C29",
    shards: 8,
    assumptions: &["thread names are observed with std::thread and, for threads that are to end, in /proc/self/task"],
    run: run29,
};

/// Uses `bytes` of stack, counted from where it is called.
#[inline(never)]
fn burn(bytes: usize) -> usize {
    #[inline(never)]
    fn deeper(from: usize, bytes: usize) -> usize {
        let mut a = [0u8; 2048];
        for i in (0..a.len()).step_by(512) {
            a[i] = black_box(1);
        }
        let here = black_box(&mut a).as_ptr() as usize;
        a[0] as usize + if from.saturating_sub(here) < bytes { deeper(from, bytes) } else { a[512] as usize }
    }
    let mark = 0u8;
    deeper(black_box(&mark) as *const u8 as usize, bytes)
}

/// What a function may expect to find of a stack of `kib` KiB: the rest is for what lies above and below it.
fn usable(kib: usize) -> usize {
    kib * 1024 - 64 * 1024 - kib * 1024 / 32
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Make {
    size: usize,
    prefix: String,
    /// KiB; 0 for the default
    stack: usize,
    queue: usize,
    /// constructor, or order of the builder's calls
    how: u8,
    panics: u8,
    burn: bool,
}

fn make(stacks: bool) -> impl Strategy<Value = Make> {
    let prefix = prop_oneof![3 => "[a-z]{1,8}-", 1 => Just(String::new()), 2 => "[^\\x00]{1,12}"];
    let stack = if stacks { prop_oneof![4 => Just(0usize), 4 => 2_500usize..6_000, 3 => 6_000usize..24_000].boxed() } else { prop_oneof![Just(0usize), 64usize..1024].boxed() };
    (1usize..7, prefix, stack, 1usize..30, 0u8..6, 0u8..4).prop_map(move |(size, prefix, stack, queue, how, panics)| Make { size, prefix, stack, queue, how, panics, burn: stacks })
}

/// The pool, and whether it was given the name prefix and the stack size.
fn build(m: &Make) -> Result<(ThreadPool, bool, bool), String> {
    let e = |e: starry::utils::errors::Error| format!("creating the pool failed: {}", e);
    let bytes = m.stack * 1024;
    Ok(match m.how {
        0 => (ThreadPool::new(m.size).map_err(e)?, false, false),
        1 => (ThreadPool::new_with_name(m.prefix.clone(), m.size).map_err(e)?, true, false),
        2 => (ThreadPool::new_custom(m.prefix.clone(), m.size, bytes, m.queue).map_err(e)?, true, true),
        3 => (ThreadPool::builder().task_count(m.queue).stack_size(bytes).name_prefix(m.prefix.clone()).pool_size(m.size).create().map_err(e)?, true, true),
        4 => (ThreadPool::builder().pool_size(m.size).name_prefix(m.prefix.as_str()).create().map_err(e)?, true, false),
        // the default size: only consistent with itself
        _ => (ThreadPool::builder().stack_size(bytes).name_prefix(m.prefix.clone()).create().map_err(e)?, true, true),
    })
}

fn pool_case(m: &Make, cl: &mut Classes) -> Verdict {
    let r = guarded(|| build(m));
    let (pool, named, stacked) = match r {
        Ok(Ok(p)) => p,
        Ok(Err(e)) | Err(e) => return Verdict::Fail(e),
    };
    let size = if m.how == 5 { pool.size() } else { m.size };
    if pool.size() != size || size == 0 {
        return Verdict::Fail(format!("size() is {} instead of {}", pool.size(), size));
    }
    let calm = Arc::new(AtomicUsize::new(0));
    let mut accepted = 0;
    for _ in 0..m.panics {
        let c = calm.clone();
        match pool.execute(move || {
            c.fetch_add(1, SeqCst);
            panic!("on purpose")
        }) {
            Ok(()) => accepted += 1,
            Err(e) if m.panics as usize <= m.queue.min(100) => return Verdict::Fail(format!("a task was rejected: {}", e)),
            // more than the queue takes
            Err(_) => {}
        }
        // one after another, so that the queue is not what is tested here
        thread::sleep(Duration::from_micros(200));
    }
    if !wait_until(PATIENCE_MS, || calm.load(SeqCst) == accepted) {
        return Verdict::Slow(format!("only {} of {} tasks ran", calm.load(SeqCst), accepted));
    }
    // all workers at once
    let names: Arc<Mutex<Vec<Option<String>>>> = Arc::new(Mutex::new(vec![]));
    let go = Arc::new(AtomicUsize::new(0));
    let usable = if !m.burn { 0 } else if stacked && m.stack > 0 { usable(m.stack) } else { 1 << 20 };
    let mut sent = 0;
    let d = Deadline::ms(PATIENCE_MS);
    while sent < size {
        let (n, g) = (names.clone(), go.clone());
        let r = pool.execute(move || {
            n.lock().unwrap().push(thread::current().name().map(|s| s.to_string()));
            while g.load(SeqCst) == 0 {
                thread::sleep(Duration::from_micros(100));
            }
            if usable > 0 {
                black_box(burn(usable));
            }
            g.fetch_add(1, SeqCst);
        });
        match r {
            Ok(()) => sent += 1,
            // workers that have just panicked may not be back yet
            Err(_) if !d.over() => thread::sleep(Duration::from_millis(1)),
            Err(e) => return Verdict::Slow(format!("task {} of {} is rejected: {}", sent, size, e)),
        }
    }
    let met = wait_until(PATIENCE_MS, || names.lock().unwrap().len() >= size);
    go.store(1, SeqCst);
    if !met {
        return Verdict::Slow(format!("only {} of {} tasks run at the same time", names.lock().unwrap().len(), size));
    }
    if !wait_until(PATIENCE_MS, || go.load(SeqCst) >= 1 + size) {
        return Verdict::Slow(format!("only {} of {} tasks came to their end", go.load(SeqCst) - 1, size));
    }
    if named {
        for n in names.lock().unwrap().iter() {
            if !n.as_deref().unwrap_or("").starts_with(&m.prefix) {
                return Verdict::Fail(format!("a thread is named {:?}, the prefix is {:?}", n, m.prefix));
            }
        }
    }
    cl.when(m.panics > 0, "after-panics");
    cl.when(usable > 1 << 20, "large-stack-used");
    cl.when(named && !m.prefix.is_empty(), "named");
    Verdict::Ok(named || usable > 1 << 20)
}

// ---- releasing

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Use {
    /// submit a task: 0 ends at once, 1 waits until all handles are gone, 2 panics, 3 panics after all handles are gone,
    /// 4 owns a handle of the pool, 5 submits another task through a handle it owns, 6 owns one and panics
    Submit(u8),
    Clone,
    Drop,
}

fn uses() -> impl Strategy<Value = Use> {
    prop_oneof![6 => (0u8..7).prop_map(Use::Submit), 1 => Just(Use::Clone), 1 => Just(Use::Drop)]
}

static POOLS: AtomicUsize = AtomicUsize::new(0);

fn threads_named(prefix: &str) -> usize {
    let mut n = 0;
    if let Ok(dir) = std::fs::read_dir("/proc/self/task") {
        for e in dir.flatten() {
            if let Ok(name) = std::fs::read_to_string(e.path().join("comm")) {
                if name.starts_with(prefix) {
                    n += 1;
                }
            }
        }
    }
    n
}

/// Every one of the threads sleeps at least as long as told (in ns), and wakes up again.
fn sleep_case(naps: &[u64], cl: &mut Classes) -> Verdict {
    let hs: Vec<_> = naps.iter().map(|n| {
        let d = Duration::from_nanos(*n);
        thread::spawn(move || {
            let t = std::time::Instant::now();
            Thread::sleep(d);
            (d, t.elapsed())
        })
    }).collect();
    for h in hs {
        let (d, slept) = match h.join() {
            Ok(r) => r,
            Err(_) => return Verdict::Fail("Thread::sleep panicked".into()),
        };
        if slept < d {
            return Verdict::Fail(format!("told to sleep {:?}, slept {:?}", d, slept));
        }
        if slept > d + Duration::from_secs(3) {
            return Verdict::Slow(format!("told to sleep {:?}, slept {:?}", d, slept));
        }
    }
    cl.when(naps.len() > 4, "many-sleep");
    Verdict::Ok(naps.iter().any(|n| *n > 100_000))
}

fn release_case(size: usize, queue: usize, ops: &[Use], cl: &mut Classes) -> Verdict {
    let prefix = format!("q{}-", POOLS.fetch_add(1, SeqCst));
    let pool = match ThreadPool::new_custom(prefix.clone(), size, 0, queue) {
        Ok(p) => p,
        Err(e) => return Verdict::Fail(format!("creating the pool failed: {}", e)),
    };
    let mut handles = vec![pool];
    let gone = Arc::new(AtomicUsize::new(0));
    let ran: Arc<Mutex<Vec<u32>>> = Arc::new(Mutex::new(vec![]));
    let extra = Arc::new((AtomicUsize::new(0), AtomicUsize::new(0)));
    let mut accepted = vec![];
    let mut kinds = vec![0; 7];
    for op in ops {
        match op {
            Use::Clone => {
                let h = handles[handles.len() - 1].clone();
                handles.push(h);
            }
            Use::Drop => {
                if handles.len() > 1 {
                    handles.remove(0);
                }
            }
            Use::Submit(kind) => {
                let (kind, id) = (*kind, ran.lock().unwrap().len());
                ran.lock().unwrap().push(0);
                let (r, g, x) = (ran.clone(), gone.clone(), extra.clone());
                let own = if kind >= 4 { Some(handles[0].clone()) } else { None };
                let res = handles[0].execute(move || {
                    r.lock().unwrap()[id] += 1;
                    match kind {
                        1 | 3 | 4 | 6 => {
                            // a task that owns a handle keeps the pool alive; it still sees the others go
                            while g.load(SeqCst) == 0 {
                                thread::sleep(Duration::from_micros(50));
                            }
                        }
                        5 => {
                            let x2 = x.clone();
                            if own.as_ref().unwrap().execute(move || { x2.1.fetch_add(1, SeqCst); }).is_ok() {
                                x.0.fetch_add(1, SeqCst);
                            }
                        }
                        _ => {}
                    }
                    drop(own.filter(|_| kind != 6));
                    if kind == 2 || kind == 3 || kind == 6 {
                        panic!("on purpose")
                    }
                });
                if res.is_ok() {
                    accepted.push(id);
                    kinds[kind as usize] += 1;
                }
            }
        }
    }
    drop(handles);
    gone.store(1, SeqCst);
    let all = || {
        let r = ran.lock().unwrap();
        accepted.iter().all(|i| r[*i] >= 1) && extra.0.load(SeqCst) == extra.1.load(SeqCst)
    };
    if !wait_until(PATIENCE_MS, all) {
        let r = ran.lock().unwrap();
        return Verdict::Slow(format!("accepted tasks {:?} never ran after the last handle was dropped (and {} of {} submitted by tasks)",
            accepted.iter().filter(|i| r[**i] == 0).collect::<Vec<_>>(), extra.0.load(SeqCst) - extra.1.load(SeqCst), extra.0.load(SeqCst)));
    }
    if !wait_until(PATIENCE_MS, || threads_named(&prefix) == 0) {
        return Verdict::Slow(format!("{} threads of the pool are still there after its last handle was dropped and all its tasks ran", threads_named(&prefix)));
    }
    for (i, n) in ran.lock().unwrap().iter().enumerate() {
        let want = accepted.contains(&i) as u32;
        if *n != want {
            return Verdict::Fail(format!("task {} ran {} times instead of {}", i, n, want));
        }
    }
    let names = ["plain", "busy-at-drop", "panics", "panics-after-drop", "owns-handle", "submits-more", "owns-handle-and-panics"];
    for (k, n) in kinds.iter().enumerate() {
        cl.when(*n > 0, names[k]);
    }
    let waiting = kinds[1] + kinds[3] + kinds[4] + kinds[6];
    cl.when(waiting > 0 && accepted.len() > size, "queued-at-drop");
    Verdict::Ok(waiting > 0)
}

// ---- threads

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spawn {
    how: u8,
    name: String,
    stack: usize,
    value: Option<u64>,
}

fn spawn_case(list: &[Spawn], cl: &mut Classes) -> Verdict {
    let mut running = vec![];
    for s in list {
        let value = s.value;
        let use_up = if s.how == 2 && s.stack >= 256 { usable(s.stack) } else { 16 << 10 };
        let f = move || {
            black_box(burn(use_up));
            match value {
                Some(v) => (v, thread::current().name().map(|n| n.to_string()), thread::current().id()),
                None => panic!("on purpose"),
            }
        };
        let r = match s.how {
            0 => Thread::spawn(f),
            1 => Thread::spawn_on_name(s.name.clone(), f),
            _ => Thread::spawn_on_custom(s.name.clone(), s.stack * 1024, f),
        };
        match r {
            Ok(h) => running.push((s, h)),
            Err(e) => return Verdict::Fail(format!("{:?} failed: {}", s, e)),
        }
    }
    let me = thread::current().id();
    for (s, h) in running {
        match (h.join(), s.value) {
            (Err(_), None) => cl.hit("panicking-thread"),
            (Ok((v, name, id)), Some(want)) => {
                if v != want {
                    return Verdict::Fail(format!("{:?} returned {}", s, v));
                }
                if s.how > 0 && name.as_deref() != Some(&s.name) {
                    return Verdict::Fail(format!("{:?} was named {:?}", s, name));
                }
                if id == me {
                    return Verdict::Fail(format!("{:?} ran on the calling thread", s));
                }
            }
            (Ok(_), None) => return Verdict::Fail(format!("{:?} returned", s)),
            (Err(_), Some(_)) => return Verdict::Fail(format!("{:?} panicked", s)),
        }
    }
    Verdict::Ok(list.iter().any(|s| s.how > 0))
}

/// Some of the threads a pool or `Thread` asks for are refused.
fn refused_case(m: &Make, refuse: &[bool], cl: &mut Classes) -> Verdict {
    let mut m = m.clone();
    m.prefix = format!("r{}-", POOLS.fetch_add(1, SeqCst));
    let (made, refused) = scarce(true, refuse, || guarded(|| build(&m)));
    let what = format!("with {} of the first {} threads refused", refused, refuse.len());
    match made {
        Err(e) => return Verdict::Fail(format!("{}: {}", what, e)),
        Ok(Err(e)) if refused == 0 => return Verdict::Fail(e),
        Ok(Ok(_)) if refused > 0 => {
            // then it has the threads all the same
        }
        _ => {}
    }
    cl.when(refused > 0, "pool-refused");
    if let Ok(Ok((pool, ..))) = made {
        let met = Arc::new(AtomicUsize::new(0));
        let go = Arc::new(AtomicUsize::new(0));
        let size = pool.size();
        for _ in 0..size {
            let (m, g) = (met.clone(), go.clone());
            let task = || {
                let (m, g) = (m.clone(), g.clone());
                move || {
                    m.fetch_add(1, SeqCst);
                    while g.load(SeqCst) == 0 {
                        thread::sleep(Duration::from_micros(100));
                    }
                }
            };
            // the queue is not what is tested here
            if !wait_until(PATIENCE_MS, || pool.execute(task()).is_ok()) {
                go.store(1, SeqCst);
                return Verdict::Slow(format!("{}: tasks are rejected", what));
            }
        }
        let all = wait_until(PATIENCE_MS, || met.load(SeqCst) == size);
        go.store(1, SeqCst);
        if !all {
            return Verdict::Slow(format!("{}: only {} of {} tasks run at the same time", what, met.load(SeqCst), size));
        }
    }
    if !wait_until(PATIENCE_MS, || threads_named(&m.prefix) == 0) {
        return Verdict::Slow(format!("{}: {} threads of the pool that is not there any more remain", what, threads_named(&m.prefix)));
    }
    let ran = Arc::new(AtomicUsize::new(0));
    let (r, n) = scarce(true, &[true, true, true], || guarded(|| {
        let add = || {
            let r = ran.clone();
            move || { r.fetch_add(1, SeqCst); }
        };
        [Thread::spawn(add()).is_err(), Thread::spawn_on_name(String::from("n"), add()).is_err(), Thread::spawn_on_custom(String::from("n"), 0, add()).is_err()]
    }));
    match r {
        Ok([true, true, true]) if n == 3 && ran.load(SeqCst) == 0 => {}
        r => return Verdict::Fail(format!("three threads were refused ({} times): errors {:?}, {} functions ran", n, r, ran.load(SeqCst))),
    }
    Verdict::Ok(refused > 0)
}

fn run29(ctx: &mut Ctx) {
    ctx.rule("Pools: a name prefix was given or a large stack used; refused: the pool could not be made; release: a task was still running when the last handle went; threads: one has a name.");
    ctx.run("pools", ctx.n(30_000, 600_000), make(false), pool_case);
    ctx.run("refused", ctx.n(3_000, 100_000), (make(false), vec(proptest::bool::weighted(0.2), 0..8)).prop_map(|(mut m, refuse)| {
        m.how = m.how.max(1);
        (m, refuse)
    }), |(m, refuse), cl| refused_case(m, refuse, cl));
    ctx.run("stacks", ctx.n(1_000, 20_000), make(true), pool_case);
    ctx.run("release", ctx.n(40_000, 1_000_000), (1usize..5, 1usize..8, vec(uses(), 1..14)), |(s, q, ops), cl| release_case(*s, *q, ops, cl));
    let one = (0u8..3, "[^\\x00]{0,10}", prop_oneof![4 => Just(0usize), 4 => 64usize..5_000, 1 => 5_000usize..20_000], proptest::option::weighted(0.9, any::<u64>())).prop_map(|(how, name, stack, value)| Spawn { how, name, stack, value });
    let naps = vec(prop_oneof![1 => Just(0u64), 3 => 1u64..2_000, 4 => 2_000u64..3_000_000, 2 => 3_000_000u64..40_000_000], 1..12);
    ctx.run("sleep", ctx.n(800, 20_000), naps, |l, cl| sleep_case(l, cl));
    ctx.run("threads", ctx.n(16_000, 400_000), vec(one, 1..8), |l, cl| spawn_case(l, cl));
}
