//! C07 hostile clients and panicking handlers, C12 concurrent clients, C13 idle connections.
use super::observe::*;
use super::request::{light_head, with_body};
use super::web::*;
use super::Prop;
use crate::clock::{exempt, stalling, stepping, steps, Stalls, Step};
use crate::drv::{Classes, Ctx, Verdict};
use crate::gen;
use crate::net::*;
use crate::scarce::{scarce_of, What};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use starry::{Context, Extend};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::{Duration, Instant};

/// What one run of a handler left behind.
#[derive(Clone, Debug)]
struct Run {
    id: String,
    start: Instant,
    /// just before the answer was given
    end: Option<Instant>,
}

/// Handlers that do what the request's own headers say, and record it.
#[derive(Clone)]
struct Stagehand {
    runs: Arc<Mutex<Vec<Run>>>,
    gate: Arc<AtomicUsize>,
    gate_size: Arc<AtomicUsize>,
}

fn locked<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    match m.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

fn which(id: &str) -> usize {
    (crate::drv::hash64(&[b"panic", id.as_bytes()]) % 1000) as usize
}

/// The answer to a request: its id, its field "d", and `out` bytes made from the id.
fn answer(id: &str, data: &str, out: usize) -> Vec<u8> {
    let mut v = format!("id={} data={} ", id, data).into_bytes();
    v.extend(gen::noise(out, crate::drv::hash64(&[id.as_bytes()])));
    v
}

impl Stagehand {
    fn install() -> Stagehand {
        let s = Stagehand { runs: Arc::new(Mutex::new(vec![])), gate: Arc::new(AtomicUsize::new(0)), gate_size: Arc::new(AtomicUsize::new(0)) };
        let s2 = s.clone();
        set_script(Arc::new(move |stage, ctx| match stage {
            Stage::Filter(_) => {
                if ctx.req_header_get("X-Do").as_deref() == Some("panic-filter") {
                    super::pool::break_down(which(&ctx.req_header_get("X-Id").unwrap_or_default()));
                }
            }
            Stage::Handler(_) => s2.handle(ctx),
        }));
        s
    }

    fn handle(&self, ctx: &mut Context) {
        let get = |ctx: &Context, k: &str| ctx.req_header_get(k).unwrap_or_default();
        let id = get(ctx, "X-Id");
        let todo = get(ctx, "X-Do");
        exempt();
        locked(&self.runs).push(Run { id: id.clone(), start: Instant::now(), end: None });
        let sleep: u64 = get(ctx, "X-Sleep").parse().unwrap_or(0);
        let out: usize = get(ctx, "X-Out").parse().unwrap_or(0).min(1 << 20);
        if todo == "panic" {
            super::pool::break_down(which(&id));
        }
        let data = match todo.as_str() {
            "noform" => String::new(),
            _ => ctx.req_form("d").unwrap_or(None).unwrap_or_default(),
        };
        if todo == "gate" {
            self.gate.fetch_add(1, Ordering::SeqCst);
            let all = wait_until(PATIENCE_MS / 2, || self.gate.load(Ordering::SeqCst) >= self.gate_size.load(Ordering::SeqCst));
            if !all {
                ctx.resp_body(b"alone".to_vec());
                ctx.response();
                return;
            }
        }
        if sleep > 0 {
            thread::sleep(Duration::from_millis(sleep));
        }
        ctx.resp_body(answer(&id, &data, out));
        {
            let mut r = locked(&self.runs);
            if let Some(x) = r.iter_mut().rev().find(|x| x.id == id) {
                x.end = Some(Instant::now());
            }
        }
        ctx.response();
        if todo == "panic-after" {
            super::pool::break_down(which(&id) + 1);
        }
    }

    fn clear(&self) {
        locked(&self.runs).clear()
    }
    fn runs(&self) -> Vec<Run> {
        locked(&self.runs).clone()
    }

    /// `n` simultaneous requests must be handled at the same time.
    fn rendezvous(&self, addr: SocketAddr, n: usize) -> Result<(), Verdict> {
        self.gate.store(0, Ordering::SeqCst);
        self.gate_size.store(n, Ordering::SeqCst);
        let mut conns = vec![];
        for i in 0..n {
            let mut c = must(Conn::open(addr), "connect")?;
            c.send(&request("GET", "/a", &[("X-Id", &format!("gate{}", i)), ("X-Do", "gate")], b""));
            conns.push(c);
        }
        for (i, c) in conns.iter_mut().enumerate() {
            let r = match c.response(false) {
                Ok(r) => r,
                Err(NetErr::Timeout(m)) => return Err(Verdict::Slow(format!("of {} simultaneous requests only {} are being handled: {}", n, self.gate.load(Ordering::SeqCst), m))),
                Err(e) => return Err(e.verdict("one of the simultaneous requests")),
            };
            if r.body == b"alone" {
                return Err(Verdict::Slow(format!("of {} simultaneous requests only {} were handled at a time", n, self.gate.load(Ordering::SeqCst))));
            }
            if r.code != 200 || r.body != answer(&format!("gate{}", i), "", 0) {
                return fail(format!("simultaneous request {} answered {} {}", i, r.code, show(&r.body)));
            }
        }
        Ok(())
    }
}

fn routes(s: &mut starry::HttpServer) {
    for (m, name) in METHODS.iter().enumerate() {
        let g = starry_router::Router::new(s, "", None);
        let mut pattern = String::new();
        for i in 0..MAX_SEGS {
            pattern.push_str(&format!("/:p{}", i));
            g.register(name, &pattern, HANDLERS[m], if i % 2 == 0 { Some(Extend::e1(vec![FILTERS[0]])) } else { None });
        }
    }
}

// ------------------------------------------------------------------------------------------ C12

pub const C12: Prop = Prop {
    id: "C12",
    shards: 8,
    assumptions: &["the number of waiting connections stays below the server's queue bound (100)"],
    run: run12,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ask {
    method: usize,
    data: usize,
    out: usize,
    sleep: u64,
    /// microseconds before it is sent
    pause: u64,
    cut: Option<(u32, u64)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Holder {
    /// connects and says nothing at first
    Silent(Ask),
    /// sends a part of a request
    Part(Ask, u32),
    /// is served once, keeps the connection, and asks again at the end
    Kept(Ask, Ask),
    /// is being handled the whole time
    Busy(Ask),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd {
    pool: usize,
    holders: Vec<Holder>,
    /// each client: requests on one connection; quits by closing or by not asking to keep it
    clients: Vec<(Vec<Ask>, bool)>,
}

impl Ask {
    fn data(&self, id: &str) -> String {
        let body = self.method != 0;
        if !body {
            return String::new();
        }
        format!("{}-{}", id, "z".repeat(self.data))
    }

    fn bytes(&self, id: &str, keep: bool) -> Vec<u8> {
        let name = ["GET", "POST", "PUT", "PATCH"][self.method % 4];
        let body = if self.method % 4 == 0 { vec![] } else { format!("d={}", self.data(id)).into_bytes() };
        let (sleep, out, len) = (self.sleep.to_string(), self.out.to_string(), body.len().to_string());
        let mut h = vec![("X-Id", id), ("X-Sleep", sleep.as_str()), ("X-Out", out.as_str())];
        if self.method % 4 != 0 {
            h.push(("Content-Type", "application/x-www-form-urlencoded"));
            h.push(("Content-Length", &len));
        }
        h.push(("Connection", if keep { "keep-alive" } else { "close" }));
        request(name, "/a/b", &h, &body)
    }

    fn expect(&self, id: &str) -> Vec<u8> {
        let d = if self.method % 4 == 0 { String::new() } else { self.data(id) };
        answer(id, &d, self.out)
    }

    fn go(&self, c: &mut Conn, id: &str, keep: bool, from: usize) -> Result<(), Verdict> {
        let b = self.bytes(id, keep);
        if self.pause > 0 {
            thread::sleep(Duration::from_micros(self.pause));
        }
        match self.cut {
            Some((at, pause)) => {
                let at = from + at as usize % (b.len() - from);
                c.send(&b[from..at]);
                thread::sleep(Duration::from_micros(pause));
                c.send(&b[at..]);
            }
            None => c.send(&b[from..]),
        }
        self.check(c, id)
    }

    fn check(&self, c: &mut Conn, id: &str) -> Result<(), Verdict> {
        let r = must(c.response(false), &format!("request {}", id))?;
        if r.code != 200 || r.body != self.expect(id) {
            return fail(format!("request {}: answered {} {} instead of {}", id, r.code, show(&r.body), show(&self.expect(id))));
        }
        if !c.buf.is_empty() {
            return fail(format!("request {}: bytes after the answer: {}", id, show(&c.buf)));
        }
        Ok(())
    }
}

fn case12(hand: &Stagehand, crowd: &Crowd, cl: &mut Classes) -> Verdict {
    let go = |cl: &mut Classes| -> Result<bool, Verdict> {
        hand.clear();
        hand.gate.store(0, Ordering::SeqCst);
        hand.gate_size.store(1, Ordering::SeqCst);
        let server = launch(crowd.pool, routes);
        let mut ids: Vec<String> = vec![];
        // the holders, fewer than the workers
        let mut held = vec![];
        for (i, h) in crowd.holders.iter().enumerate() {
            let id = format!("h{}", i);
            let mut c = must(Conn::open(server.addr), "connect")?;
            let mut from = 0;
            match h {
                Holder::Silent(_) => {}
                Holder::Part(a, at) => {
                    let b = a.bytes(&id, false);
                    from = 1 + *at as usize % (b.len() - 1);
                    c.send(&b[..from]);
                }
                Holder::Kept(a, _) => {
                    a.go(&mut c, &format!("{}-first", id), true, 0)?;
                    ids.push(format!("{}-first", id));
                }
                Holder::Busy(a) => {
                    // handled until the others are done
                    hand.gate_size.store(usize::MAX, Ordering::SeqCst);
                    let b = a.bytes(&id, false);
                    let text = String::from_utf8(b).unwrap().replacen("Host: localhost\r\n", "Host: localhost\r\nX-Do: gate\r\n", 1);
                    c.send(text.as_bytes());
                }
            }
            ids.push(id.clone());
            held.push((c, id, from));
        }
        let results: Vec<Result<(), Verdict>> = thread::scope(|s| {
            let handles: Vec<_> = crowd.clients.iter().enumerate().map(|(i, (asks, close))| {
                let addr = server.addr;
                s.spawn(move || -> Result<(), Verdict> {
                    let mut c = must(Conn::open(addr), "connect")?;
                    for (k, a) in asks.iter().enumerate() {
                        let keep = k + 1 < asks.len() || !*close;
                        a.go(&mut c, &format!("c{}-{}", i, k), keep, 0)?;
                    }
                    if !*close {
                        c.finish_sending();
                    }
                    must(c.expect_close(), &format!("client {} after its last answer", i))
                })
            }).collect();
            handles.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Verdict::Fail("client thread panicked".into())))).collect()
        });
        for r in results {
            r?;
        }
        // the holders go on, in reverse
        hand.gate_size.store(0, Ordering::SeqCst);
        for (h, (mut c, id, from)) in crowd.holders.iter().zip(held).rev() {
            match h {
                Holder::Silent(a) | Holder::Part(a, _) | Holder::Kept(_, a) => a.go(&mut c, &id, false, from)?,
                Holder::Busy(a) => a.check(&mut c, &id)?,
            }
            must(c.expect_close(), &format!("holder {} after its last answer", id))?;
        }
        for (i, (asks, _)) in crowd.clients.iter().enumerate() {
            ids.extend((0..asks.len()).map(|k| format!("c{}-{}", i, k)));
        }
        let mut count: BTreeMap<String, usize> = BTreeMap::new();
        for r in hand.runs() {
            *count.entry(r.id).or_insert(0) += 1;
        }
        for id in &ids {
            match count.remove(id) {
                Some(1) => {}
                n => return fail(format!("request {} was handled {} times", id, n.unwrap_or(0))),
            }
        }
        if let Some((id, n)) = count.into_iter().next() {
            return fail(format!("{:?} was handled {} times though never sent", id, n));
        }
        cl.when(crowd.clients.len() > crowd.pool, "more-connections-than-workers");
        cl.when(!crowd.holders.is_empty(), "with-idle-or-slow-clients");
        cl.when(crowd.holders.len() + 1 == crowd.pool && crowd.pool > 1, "one-worker-left");
        cl.when(crowd.clients.iter().any(|c| c.0.len() > 1), "kept-connections");
        Ok(crowd.clients.len() >= 2)
    };
    settle(go(cl))
}

fn ask_strategy() -> BoxedStrategy<Ask> {
    (0usize..4, gen::edge_size(9000), gen::edge_size(70_000), prop_oneof![3 => Just(0u64), 1 => 1u64..15], prop_oneof![2 => Just(0u64), 1 => 0u64..4000],
        proptest::option::weighted(0.3, (any::<u32>(), 0u64..3000)))
        .prop_map(|(method, data, out, sleep, pause, cut)| Ask { method, data, out, sleep, pause, cut }).boxed()
}

fn crowd() -> impl Strategy<Value = Crowd> {
    let holder = prop_oneof![
        ask_strategy().prop_map(Holder::Silent),
        (ask_strategy(), any::<u32>()).prop_map(|(a, n)| Holder::Part(a, n)),
        (ask_strategy(), ask_strategy()).prop_map(|(a, b)| Holder::Kept(a, b)),
        ask_strategy().prop_map(Holder::Busy),
    ];
    let clients = prop_oneof![2 => vec((vec(ask_strategy(), 1..5), any::<bool>()), 1..12), 1 => vec((vec(ask_strategy(), 1..3), any::<bool>()), 12..60)];
    (1usize..7, vec(holder, 0..6), clients).prop_map(|(pool, mut holders, clients)| {
        holders.truncate(pool - 1);
        Crowd { pool, holders, clients }
    })
}

/// More clients at a time than a listener's backlog or a small pool holds, and large pools.
fn multitude() -> impl Strategy<Value = Crowd> {
    let clients = prop_oneof![
        2 => vec((vec(ask_strategy(), 1..3), any::<bool>()), 60..300),
        1 => vec((vec(ask_strategy(), 1..2), any::<bool>()), 60..160),
    ];
    let holder = prop_oneof![
        ask_strategy().prop_map(Holder::Silent),
        (ask_strategy(), any::<u32>()).prop_map(|(a, n)| Holder::Part(a, n)),
        ask_strategy().prop_map(Holder::Busy),
    ];
    (prop_oneof![1 => 1usize..7, 2 => 7usize..100], vec(holder, 0..90), clients).prop_map(|(pool, mut holders, mut clients)| {
        holders.truncate(pool - 1);
        // a server gives up connections beyond those being served and a hundred waiting ones
        clients.truncate(pool - holders.len() + 90);
        Crowd { pool, holders, clients }
    })
}

/// The system refuses the server some of the threads or descriptors it asks for: connections may then end, but what is answered is right.
fn case12_scarce(hand: &Stagehand, lacks: What, spare: usize, conns: &[Vec<u8>], refuse: &[bool], cl: &mut Classes) -> Verdict {
    let go = || -> Result<(Server, usize), Verdict> {
        hand.clear();
        let server = launch(conns.len() + spare, routes);
        let results: Vec<Result<usize, Verdict>> = thread::scope(|s| {
            let hs: Vec<_> = conns.iter().enumerate().map(|(i, kinds)| s.spawn(move || {
                let mut ended = 0;
                let mut c = must(Conn::open(server.addr), "connect")?;
                for (k, kind) in kinds.iter().enumerate() {
                    let id = format!("{}-{}", i, k);
                    let last = k + 1 == kinds.len();
                    let panics = *kind == 0;
                    c.send(&request("GET", "/a", &[("X-Id", &id), ("X-Do", if panics { "panic" } else { "" }), ("Connection", if last { "close" } else { "keep-alive" })], b""));
                    if panics {
                        must(c.expect_close(), "a handler that panics")?;
                        c = must(Conn::open(server.addr), "connect")?;
                        continue;
                    }
                    let what = format!("request {} of a client", k);
                    let r = match c.response(false) {
                        Ok(r) => r,
                        // the answer to the request before was the last one on the connection, or there is none at all
                        Err(NetErr::Closed(_)) if (k > 0 || lacks == What::Copy) && c.blank() => {
                            ended += 1;
                            c = must(Conn::open(server.addr), "connect")?;
                            continue;
                        }
                        Err(e) => return Err(e.verdict(&what)),
                    };
                    if r.code != 200 || r.body != answer(&id, "", 0) {
                        return fail(format!("{}: answered {} {}", what, r.code, show(&r.body)));
                    }
                    if last {
                        must(c.expect_close(), "after the last answer")?;
                    }
                }
                Ok(ended)
            })).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Verdict::Fail("client thread panicked".into())))).collect()
        });
        let mut ended = 0;
        for r in results {
            ended += r?;
        }
        Ok((server, ended))
    };
    let (r, refused) = scarce_of(lacks, false, refuse, go);
    cl.when(refused > 1, "several-refused");
    settle(r.and_then(|(server, ended)| if ended > refused {
        fail(format!("{} connections ended where {} threads or descriptors were refused", ended, refused))
    } else {
        hand.rendezvous(server.addr, conns.len() + spare)?;
        Ok(refused > 0)
    }))
}

fn run12(ctx: &mut Ctx) {
    let hand = Stagehand::install();
    ctx.rule("At least two clients besides the idle and slow ones; scarce: the system refused the server a thread or descriptor.");
    ctx.run("crowds", ctx.n(3_000, 60_000), crowd(), |c, cl| case12(&hand, c, cl));
    let scarce = || (0usize..3, vec(vec(prop_oneof![1 => Just(0u8), 6 => Just(1u8)], 1..6), 1..6), vec(proptest::bool::weighted(0.4), 1..10));
    ctx.run("scarce-threads", ctx.n(1_200, 30_000), scarce(), |(m, c, r), cl| case12_scarce(&hand, What::Thread, *m, c, r, cl));
    ctx.run("scarce-copies", ctx.n(800, 20_000), scarce(), |(m, c, r), cl| case12_scarce(&hand, What::Copy, *m, c, r, cl));
    ctx.run("scarce-connections", ctx.n(400, 10_000), scarce(), |(m, c, r), cl| case12_scarce(&hand, What::Accept, *m, c, r, cl));
    ctx.run("multitudes", ctx.n(48, 1_500), multitude(), |c, cl| case12(&hand, c, cl));
}

// ------------------------------------------------------------------------------------------ C13

pub const C13: Prop = Prop {
    id: "C13",
    shards: 16,
    assumptions: &[
        "idle time is counted from the moment the handler gave the last answer to the moment the client sees the connection end; a connection that ends no earlier than the idle time after the last answer is not judged as closed too early, whatever was in flight",
        "a connection closed more than 0.6 s (more for long idle times) after the idle time counts as late if that happens to the same connection in each of five runs; one that is not closed at all, if three runs agree",
    ],
    run: run13,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gaps {
    /// before each further request: idle per cent of the idle time, handling per cent of it
    asks: Vec<(u8, u8)>,
    /// sends a part of a request just before idling
    part: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Idle {
    keepalive: u64,
    pool: usize,
    conns: Vec<Gaps>,
    /// the wall clock is set meanwhile
    #[serde(default)]
    steps: Vec<Step>,
    /// threads of the library are held up meanwhile; then nothing is judged as late
    #[serde(default)]
    stalls: Option<Stalls>,
}

enum End {
    InTime,
    /// the machine was too slow to tell
    Unclear,
    /// closed, but too long after the last answer
    Late(Duration),
}

fn idle_one(hand: &Stagehand, addr: SocketAddr, i: usize, g: &Gaps, k: u64) -> Result<End, Verdict> {
    exempt();
    let mut c = must(Conn::open(addr), "connect")?;
    let mut undecided = false;
    let mut last: Option<Instant> = None;
    let mut log: Vec<(Instant, Instant)> = vec![];
    let idle = Duration::from_millis(k);
    let margin = Duration::from_millis(20);
    // the first request has no idle time before it
    for (n, (gap, busy)) in std::iter::once(&(0u8, 0u8)).chain(&g.asks).enumerate() {
        let id = format!("{}-{}", i, n);
        thread::sleep(Duration::from_millis(k * *gap as u64 / 100));
        let sleep = (k * *busy as u64 / 100).to_string();
        c.send(&request("GET", "/a", &[("X-Id", &id), ("X-Sleep", &sleep), ("Connection", "keep-alive")], b""));
        let r = c.response(false);
        let now = Instant::now();
        let mine = hand.runs().into_iter().find(|r| r.id == id);
        let body = answer(&id, "", 0);
        match r {
            Ok(r) if r.code == 200 && r.body == body => {}
            Ok(r) => return fail(format!("connection {} request {}: answered {} {}", i, n, r.code, show(&r.body))),
            Err(NetErr::Timeout(m)) => return Err(Verdict::Slow(format!("connection {} request {}: no answer: {}", i, n, m))),
            Err(e) => {
                if let Some(last) = last {
                    if now < last + idle - margin {
                        return fail(format!("connection {}: with an idle time of {} ms, the connection ended {:?} after answer {}: {:?}", i, k, now - last, n, e));
                    }
                    if let Some(r) = &mine {
                        if r.start + margin * 2 < last + idle {
                            return fail(format!("connection {}: request {} reached its handler {:?} after the answer before, with an idle time of {} ms, but the connection ended during it: {:?}", i, n, r.start - last, k, e));
                        }
                    }
                    // the machine was too slow to tell
                    return Ok(End::Unclear);
                }
                return fail(format!("connection {}: the first request: {:?}", i, e));
            }
        }
        match mine.and_then(|r| r.end.map(|e| (r.start, e))) {
            Some((start, end)) => {
                log.push((start, end));
                last = Some(end)
            }
            None => undecided = true,
        }
    }
    let last = match last {
        Some(l) if !undecided => l,
        _ => return Ok(End::Unclear),
    };
    if g.part {
        c.send(b"GET /a HTTP/1.1\r\nHost: loc");
    }
    // now it stays idle
    c.patience = k + 600.max(k * 6 / 10);
    let in_time = c.rest();
    let late = in_time.is_err();
    c.patience = PATIENCE_MS;
    let rest = match in_time {
        Ok(rest) => rest,
        Err(_) => match c.rest() {
            Ok(rest) => rest,
            Err(_) => return Err(Verdict::Slow(format!("connection {}: still open {:?} after the last answer, with an idle time of {} ms", i, last.elapsed(), k))),
        },
    };
    let now = Instant::now();
    if now < last + idle - margin {
        let before: Vec<_> = log.iter().map(|(a, b)| (now - *a, now - *b)).collect();
        return fail(format!("connection {}: with an idle time of {} ms, the connection ended {:?} after the last answer ({}; its requests began and ended to be handled {:?} before)", i, k, now - last, if c.reset { "reset" } else { "closed" }, before));
    }
    if !rest.is_empty() && !g.part {
        return fail(format!("connection {}: bytes after the last answer: {}", i, show(&rest)));
    }
    Ok(if late { End::Late(now - last) } else { End::InTime })
}

fn case13(hand: &Stagehand, case: &Idle, cl: &mut Classes) -> Verdict {
    // connections that were closed late in every run so far
    let mut late: Option<BTreeMap<usize, Duration>> = None;
    let mut go = |cl: &mut Classes| -> Result<Result<bool, String>, Verdict> {
        hand.clear();
        let server = launch(case.pool, |s| {
            s.set_keepalive(case.keepalive as i64);
            routes(s)
        });
        let results: Vec<Result<End, Verdict>> = thread::scope(|s| {
            let hs: Vec<_> = case.conns.iter().enumerate().map(|(i, g)| s.spawn(move || idle_one(hand, server.addr, i, g, case.keepalive))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Verdict::Fail("client thread panicked".into())))).collect()
        });
        let mut unclear = false;
        let mut slow = None;
        let mut now: BTreeMap<usize, Duration> = BTreeMap::new();
        for (i, r) in results.into_iter().enumerate() {
            match r {
                Ok(End::InTime) => {}
                Ok(End::Unclear) => unclear = true,
                Ok(End::Late(_)) if case.stalls.is_some() => {}
                Ok(End::Late(d)) => {
                    now.insert(i, d);
                }
                Err(Verdict::Slow(m)) => slow = Some(m),
                Err(v) => return Err(v),
            }
        }
        if let Some(m) = slow {
            return Err(Verdict::Slow(m));
        }
        // every worker is available again
        hand.rendezvous(server.addr, case.pool)?;
        match late.take() {
            None => late = Some(now),
            Some(mut l) => {
                l.retain(|i, d| now.get(i).map(|n| *d = *n.min(d)).is_some());
                late = Some(l)
            }
        }
        if unclear && late.as_ref().map(|l| l.is_empty()).unwrap_or(true) {
            return Err(Verdict::Skip);
        }
        cl.when(case.conns.len() == case.pool, "all-workers-idle-at-once");
        cl.when(case.conns.iter().any(|g| g.asks.iter().any(|a| a.1 > 100)), "handled-longer-than-the-idle-time");
        cl.when(case.conns.iter().any(|g| g.asks.iter().map(|a| a.0 as u32).sum::<u32>() > 100), "idle-in-sum-over-the-idle-time");
        cl.when(case.conns.iter().any(|g| g.part), "idle-inside-a-request");
        match late.as_ref().and_then(|l| l.iter().next()) {
            Some((i, d)) => Ok(Err(format!("connection {}: with an idle time of {} ms, closed {:?} after the last answer at best, in each of 5 runs", i, case.keepalive, d))),
            None => Ok(Ok(case.conns.iter().any(|g| !g.asks.is_empty()))),
        }
    };
    cl.when(!case.steps.is_empty(), "clock-set-meanwhile");
    cl.when(case.stalls.is_some(), "watching-threads-held-up");
    // threads may be woken late, but not those of the same connection every time
    let mut late = String::new();
    for _ in 0..5 {
        match stepping(&case.steps, || stalling(&case.stalls, || go(cl))) {
            Ok(Err(m)) => late = m,
            Ok(Ok(b)) => return settle(Ok(b)),
            Err(v) => return v,
        }
    }
    Verdict::Fail(late)
}

/// Idle times much longer than any pause of the client, up to the largest the setting takes.
fn case13_far(hand: &Stagehand, keepalive: i64, spare: usize, conns: &[Vec<u64>], steps: &[Step], cl: &mut Classes) -> Verdict {
    let go = || -> Result<bool, Verdict> {
        hand.clear();
        let server = launch(conns.len() + spare, |s| {
            s.set_keepalive(keepalive);
            routes(s)
        });
        let results: Vec<Result<(), Verdict>> = thread::scope(|s| {
            let hs: Vec<_> = conns.iter().enumerate().map(|(i, gaps)| s.spawn(move || {
                let mut c = must(Conn::open(server.addr), "connect")?;
                let n = gaps.len();
                for (k, gap) in gaps.iter().enumerate() {
                    let id = format!("{}-{}", i, k);
                    c.send(&request("GET", "/a", &[("X-Id", &id), ("Connection", if k + 1 < n { "keep-alive" } else { "close" })], b""));
                    let what = format!("with an idle time of {} ms, request {} after pauses of {:?} ms", keepalive, k, &gaps[..k]);
                    let r = must(c.response(false), &what)?;
                    if r.code != 200 || r.body != answer(&id, "", 0) {
                        return fail(format!("{}: answered {} {}", what, r.code, show(&r.body)));
                    }
                    if k + 1 < n {
                        thread::sleep(Duration::from_millis(*gap));
                    }
                }
                must(c.expect_close(), "after the last answer")
            })).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Verdict::Fail("client thread panicked".into())))).collect()
        });
        for r in results {
            r?;
        }
        hand.rendezvous(server.addr, conns.len() + spare)?;
        Ok(true)
    };
    cl.when(keepalive > 1 << 40, "idle-time-beyond-decades");
    cl.when(!steps.is_empty(), "clock-set-meanwhile");
    settle(stepping(steps, go))
}

fn run13(ctx: &mut Ctx) {
    let hand = Stagehand::install();
    ctx.rule("A connection was idle between requests.");
    // a little above the point where a count of milliseconds, microseconds or nanoseconds of 16 to 64 bits starts anew
    let wrapped = (proptest::sample::select(vec![(16u32, 1i128), (31, 1), (32, 1), (33, 1), (48, 1), (53, 1), (31, 1_000), (32, 1_000), (53, 1_000), (63, 1_000), (64, 1_000), (31, 1_000_000), (32, 1_000_000), (63, 1_000_000), (64, 1_000_000)]), 1i128..9, 0i64..250)
        .prop_map(|((bits, per), times, more)| (((1i128 << bits) * times / per) as i64 + 1 + more).max(20_000));
    let far = prop_oneof![
        2 => 20_000i64..10_000_000,
        3 => wrapped,
        2 => (0u32..63, any::<u32>()).prop_map(|(b, n)| ((1i64 << b.max(15)) + n as i64).max(20_000)),
        1 => (0i64..3).prop_map(|n| i64::MAX - n),
        1 => proptest::sample::select(vec![i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64, u32::MAX as i64 + 1, i64::MAX / 1000, i64::MAX / 1000 + 1, i64::MAX / 1_000_000, i64::MAX / 1_000_000 + 1, 253_402_300_799_999]),
    ];
    let far = (far, 0usize..2, vec(vec(prop_oneof![2 => 0u64..50, 2 => 50u64..400, 2 => 400u64..1_500], 2..5), 1..6), steps());
    ctx.run("far", ctx.n(160, 4_000), far, |(k, m, c, s), cl| case13_far(&hand, *k, *m, c, s, cl));
    let asks = prop_oneof![3 => vec((0u8..75, Just(0u8)), 0..5), 1 => vec((0u8..75, prop_oneof![3 => Just(0u8), 1 => 30u8..140]), 1..4)];
    let conn = (asks, proptest::bool::weighted(0.2)).prop_map(|(asks, part)| Gaps { asks, part });
    let case = (600u64..1400, vec(conn, 1..16), 0usize..3, steps()).prop_map(|(keepalive, conns, more, steps)| Idle { keepalive, pool: conns.len() + more, conns, steps, stalls: None });
    ctx.run("idle-connections", ctx.n(320, 8_000), case, |c, cl| case13(&hand, c, cl));
    // connections in use for many times the idle time
    let conn = (vec((5u8..60, Just(0u8)), 10..40), proptest::bool::weighted(0.2)).prop_map(|(asks, part)| Gaps { asks, part });
    let busy = vec(vec((5u8..60, Just(0u8)), 3..12).prop_map(|asks| Gaps { asks, part: false }), 4..20);
    let stalls = (any::<u64>(), 30u64..300, 200u64..1_500);
    let held = (300u64..700, busy, 0usize..3, steps(), stalls).prop_map(|(keepalive, conns, more, steps, stalls)| Idle { keepalive, pool: conns.len() + more, conns, steps, stalls: Some(stalls) });
    ctx.run("held-up", ctx.n(96, 4_000), held, |c, cl| case13(&hand, c, cl));
    let case = (300u64..700, vec(conn, 1..12), 0usize..3, steps()).prop_map(|(keepalive, conns, more, steps)| Idle { keepalive, pool: conns.len() + more, conns, steps, stalls: None });
    ctx.run("long-lived", ctx.n(80, 2_000), case, |c, cl| case13(&hand, c, cl));
}

// ------------------------------------------------------------------------------------------ C07

pub const C07: Prop = Prop {
    id: "C07",
    shards: 8,
    assumptions: &[
        "when TCP itself discards an answer (the server closed with unread data), the part that arrived is not judged as incomplete",
        "attacking connections are ended before the full concurrency is asked for (a client that stays connected may occupy a worker)",
    ],
    run: run07,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mutation {
    Flip(u32, u8),
    Delete(u32, u16),
    Double(u32, u16),
    Insert(u32, Vec<u8>),
    Truncate(u32),
    /// replaces the value of a header line
    Value(u8, Vec<u8>),
    /// cuts the head and the body apart elsewhere
    Swap(u32, u32, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Stuff {
    Bytes(Vec<u8>),
    Mutated(Head, Body, Vec<Mutation>),
    /// that many bytes of: 0 path, 1 query, 2 header value, 3 header lines, 4 header name, 5 cookies, 6 one endless line, 7 path segments, 8 query pieces
    Huge(u8, usize),
    /// announces more than it sends
    Short(u8, u64, Vec<u8>),
    /// text typical of protocol confusion
    Odd(u8),
    /// requests one after the other on a kept connection, the last of which makes a handler (or filter) panic
    Panic(u8, u8),
    /// a well-formed request
    Fine(Ask),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Way {
    /// stop sending and read everything
    HalfClose,
    /// close at once
    Drop,
    /// close with a reset
    Reset,
    /// read what arrives for a moment, then close
    Wait,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Attack {
    stuff: Stuff,
    way: Way,
    cut: Option<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Siege {
    pool: usize,
    attacks: Vec<Attack>,
    /// how many at the same time
    parallel: usize,
}

const ODD: &[&[u8]] = &[
    b"\r\n\r\n", b"\n\n", b"\n", b"\0\0\0\0", b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", b"GET\r\n\r\n", b"GET /\r\n\r\n", b"GET  / HTTP/1.1\r\n\r\n",
    b" GET /a HTTP/1.1\r\nHost: h\r\n\r\n", b"GET /a HTTP/1.1\nHost: h\n\n", b"GET /a HTTP/1.1 \r\nHost: h\r\n\r\n", b"GET /a HTTP/1.1\rHost: h\r\r", b"GET http://h/a HTTP/1.1\r\nHost: h\r\n\r\n", b"GET * HTTP/1.1\r\nHost: h\r\n\r\n",
    b"OPTIONS * HTTP/1.1\r\nHost: h\r\n\r\n", b"CONNECT h:80 HTTP/1.1\r\nHost: h\r\n\r\n", b"GET ? HTTP/1.1\r\nHost: h\r\n\r\n", b"GET # HTTP/1.1\r\nHost: h\r\n\r\n", b"GET /a?%=&&=%zz HTTP/1.1\r\nHost: h\r\n\r\n", b"GET /%ff%00%zz HTTP/1.1\r\nHost: h\r\n\r\n",
    b"GET \xff\xfe\xc3( HTTP/1.1\r\nHost: h\r\n\r\n", b"G\xff\xfeT /a HTTP/1.1\r\nHost: h\r\n\r\n", b"GET /a HTTP/\xff.1\r\nHost: h\r\n\r\n", b"GET /a HTTP/1.1\r\n: v\r\nHost: h\r\n\r\n", b"GET /a HTTP/1.1\r\nHost\r\n\r\n", b"GET /a HTTP/1.1\r\nHost:\r\n\r\n",
    b"GET /a HTTP/1.1\r\nHost: h\r\nX-\xff: \xfe\xc3\r\n\r\n", b"GET /a HTTP/1.1\r\n Host: h\r\n\t folded\r\n\r\n", b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Length: 9223372036854775807\r\n\r\nx", b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Length: 18446744073709551615\r\n\r\nx",
    b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Length: -1\r\n\r\nabc", b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Length: -9223372036854775808\r\n\r\nabc", b"POST /a HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffff\r\nabc", b"DELETE /a HTTP/1.1\r\nHost: h\r\nContent-Length: 18446744073709551615\r\n\r\nx",
    b"GET /a HTTP/1.1\r\nHost: h\r\nAuthorization: Basic\r\n\r\n", b"GET /a HTTP/1.1\r\nHost: h\r\nAuthorization: \r\n\r\n", b"GET /a HTTP/1.1\r\nHost: h\r\nAuthorization: Basic Og==\r\n\r\n", b"GET /a HTTP/1.1\r\nHost: h\r\nAuthorization: Basic =\r\n\r\n", b"GET /a HTTP/1.1\r\nHost: h\r\nCookie: \r\n\r\n", b"GET /a HTTP/1.1\r\nHost: h\r\nCookie: =\r\n\r\n",
    b"GET /a HTTP/1.1\r\nHost: h\r\nCookie: a=b; \xff\r\n\r\n", b"GET /a HTTP/1.1\r\nHost: h\r\nContent-Type: \r\n\r\n", b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data\r\nContent-Length: 3\r\n\r\n--x", b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=\r\nContent-Length: 4\r\n\r\n----",
    b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=\"\r\nContent-Length: 4\r\n\r\n----", b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=\xff\xc3\xe4\r\nContent-Length: 4\r\n\r\n----", b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=b\r\nContent-Length: 40\r\n\r\n--b\r\nContent-Disposition: form-data; name\r\n",
    b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=b\r\nContent-Length: 58\r\n\r\n--b\r\nContent-Disposition: form-data; name=\"\xff\\\"\r\n\r\nx\r\n--b--", b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 7\r\n\r\n\xff=\xfe&&=&", b"GET /a HTTP/1.1\r\nHost: h\r\nAccept-Encoding: ,,;;q=\xff\r\n\r\n", b"GET /a HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\nGET /b HTTP/1.1\r\n", b"GET /a HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: \xff, upgrade\r\n\r\n",
];

impl Stuff {
    /// Every request of it carries the marker.
    fn bytes(&self, marker: &str) -> Vec<u8> {
        match self {
            Stuff::Bytes(b) => {
                let mut v = b.clone();
                v.extend_from_slice(marker.as_bytes());
                v
            }
            Stuff::Mutated(h, b, ms) => {
                let (more, body) = with_body(h, b);
                let more: Vec<Field> = more.into_iter().chain([Field::plain("X-Id", marker)]).collect();
                let mut v = h.bytes(&more);
                v.extend_from_slice(&body);
                for m in ms {
                    m.apply(&mut v);
                }
                v
            }
            Stuff::Huge(kind, n) => {
                let long = "h".repeat(*n);
                let head = |target: &str, lines: &str| format!("GET {} HTTP/1.1\r\nHost: h\r\nX-Id: {}\r\n{}\r\n", target, marker, lines);
                match kind % 9 {
                    0 => head(&format!("/{}", long), ""),
                    1 => head(&format!("/a?{}={}", long, long), ""),
                    2 => head("/a", &format!("X-Long: {}\r\n", long)),
                    3 => head("/a", &"X-A: b\r\n".repeat(*n / 8)),
                    4 => head("/a", &format!("{}: v\r\n", long)),
                    5 => head("/a", &format!("Cookie: {}z=1\r\n", "a=b; ".repeat(*n / 5))),
                    6 => format!("{}{}", marker, long),
                    7 => head(&"/h".repeat(*n / 2), ""),
                    _ => head(&format!("/a?{}", "h=h&".repeat(*n / 4)), ""),
                }.into_bytes()
            }
            Stuff::Short(m, len, b) => {
                let name = ["POST", "PUT", "PATCH", "GET", "DELETE"][*m as usize % 5];
                let t = ["application/x-www-form-urlencoded", "multipart/form-data; boundary=b"][(*m as usize / 5) % 2];
                let mut v = format!("{} /a HTTP/1.1\r\nHost: h\r\nX-Id: {}\r\nContent-Type: {}\r\nContent-Length: {}\r\n\r\n", name, marker, t, b.len() as u128 + *len as u128 + 1).into_bytes();
                v.extend_from_slice(b);
                v
            }
            Stuff::Odd(k) => ODD[*k as usize % ODD.len()].to_vec(),
            Stuff::Panic(..) | Stuff::Fine(_) => unreachable!(),
        }
    }
}

impl Mutation {
    fn apply(&self, v: &mut Vec<u8>) {
        if v.is_empty() {
            return;
        }
        let at = |n: &u32| *n as usize % v.len();
        match self {
            Mutation::Flip(n, b) => {
                let i = at(n);
                v[i] = *b
            }
            Mutation::Delete(n, k) => {
                let i = at(n);
                let e = (i + *k as usize).min(v.len());
                v.drain(i..e);
            }
            Mutation::Double(n, k) => {
                let i = at(n);
                let e = (i + *k as usize).min(v.len());
                let part = v[i..e].to_vec();
                v.splice(i..i, part);
            }
            Mutation::Insert(n, b) => {
                let i = at(n);
                v.splice(i..i, b.iter().cloned());
            }
            Mutation::Truncate(n) => v.truncate(at(n)),
            Mutation::Value(k, b) => {
                let lines: Vec<usize> = (0..v.len()).filter(|i| v[*i] == b':').collect();
                if lines.is_empty() {
                    return;
                }
                let i = lines[*k as usize % lines.len()] + 1;
                let e = v[i..].iter().position(|b| *b == b'\r').map(|p| i + p).unwrap_or(v.len());
                v.splice(i..e, b.iter().cloned());
            }
            Mutation::Swap(a, b, k) => {
                let (i, j) = (at(a), at(b));
                for n in 0..*k as usize {
                    if i + n < v.len() && j + n < v.len() {
                        v.swap(i + n, j + n);
                    }
                }
            }
        }
    }
}

/// Whether `data` is a sequence of complete responses (the last one possibly ended by the close).
fn valid_answers(data: &[u8], head: bool, reset: bool) -> Result<Vec<u16>, String> {
    let mut codes = vec![];
    let mut rest = data;
    while !rest.is_empty() {
        let end = match find(rest, b"\r\n\r\n") {
            Some(e) => e,
            None if reset => return Ok(codes),
            None => return Err(format!("incomplete answer {}", show(rest))),
        };
        let r = parse_head(&rest[..end])?;
        let lens = r.all("Content-Length").iter().map(|s| s.to_string()).collect::<Vec<_>>();
        rest = &rest[end + 4..];
        codes.push(r.code);
        if head {
            continue;
        }
        match lens.as_slice() {
            [] => {
                if find(rest, b"HTTP/1.").is_some() {
                    return Err(format!("an answer without a length, followed by {}", show(rest)));
                }
                return Ok(codes);
            }
            [n] => {
                let n: usize = n.parse().map_err(|_| format!("Content-Length {:?}", n))?;
                if rest.len() < n {
                    if reset {
                        return Ok(codes);
                    }
                    return Err(format!("the body of answer {} has {} of {} bytes", r.code, rest.len(), n));
                }
                rest = &rest[n..];
            }
            n => return Err(format!("Content-Length {:?}", n)),
        }
    }
    Ok(codes)
}

fn finish(mut c: Conn, way: Way) -> Result<Option<(Vec<u8>, bool)>, Verdict> {
    match way {
        Way::HalfClose => {
            c.finish_sending();
            let rest = must(c.rest(), "after the client stopped sending")?;
            Ok(Some((rest, c.reset)))
        }
        Way::Drop => Ok(None),
        Way::Reset => {
            reset(&c);
            Ok(None)
        }
        Way::Wait => {
            c.patience = 30;
            let _ = c.rest();
            let got = std::mem::take(&mut c.buf);
            // only whole answers are judged here
            let done = c.eof;
            let r = c.reset;
            Ok(if done { Some((got, r)) } else { None })
        }
    }
}

pub fn reset(c: &Conn) {
    use std::os::fd::AsRawFd;
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(c.s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of_val(&l) as libc::socklen_t);
    }
}

/// Text that only request `i` of a siege carries.
fn marker_of(i: usize) -> String {
    format!("M{:016x}", crate::drv::hash64(&[b"marker", &i.to_le_bytes()]))
}

fn one_attack(addr: SocketAddr, i: usize, a: &Attack) -> Result<Vec<u16>, Verdict> {
    let marker = marker_of(i);
    let mut c = must(Conn::open(addr), "connect")?;
    let mut head = false;
    match &a.stuff {
        Stuff::Panic(kind, before) => {
            for k in 0..*before % 3 {
                let id = format!("{}-{}", marker, k);
                c.send(&request("GET", "/a/b", &[("X-Id", &id), ("Connection", "keep-alive")], b""));
                let r = must(c.response(false), "a request before the one that makes the handler panic")?;
                if r.body != answer(&id, "", 0) {
                    return fail(format!("answered {} {}", r.code, show(&r.body)));
                }
            }
            let todo = ["panic", "panic-after", "panic-filter", "panic"][*kind as usize % 4];
            let path = if *kind & 4 == 0 { "/a" } else { "/a/b/c" };
            let id = format!("{}-last", marker);
            let keep = if *kind & 8 == 0 { "keep-alive" } else { "close" };
            c.send(&request("GET", path, &[("X-Id", &id), ("X-Do", todo), ("Connection", keep)], b""));
            if todo == "panic-after" && a.way != Way::Drop && a.way != Way::Reset {
                let r = must(c.response(false), "the answer given before the panic")?;
                if r.body != answer(&id, "", 0) {
                    return fail(format!("answered {} {}", r.code, show(&r.body)));
                }
            }
            // whatever the client does now, the server ends the connection
            match a.way {
                Way::Drop => return Ok(vec![]),
                Way::Reset => {
                    reset(&c);
                    return Ok(vec![]);
                }
                _ => {}
            }
            let rest = must(c.rest(), "after a handler panicked")?;
            return valid_answers(&rest, false, c.reset).map_err(|e| Verdict::Fail(format!("after a handler panicked: {}", e)));
        }
        Stuff::Fine(ask) => {
            ask.go(&mut c, &marker, a.way != Way::Wait, 0)?;
            return Ok(vec![200]);
        }
        stuff => {
            let bytes = stuff.bytes(&marker);
            if let Stuff::Mutated(h, ..) = stuff {
                head = METHODS[h.method] == "HEAD";
            }
            head |= bytes.starts_with(b"HEAD");
            match a.cut {
                Some(at) if bytes.len() > 1 => {
                    let at = 1 + at as usize % (bytes.len() - 1);
                    c.send(&bytes[..at]);
                    thread::sleep(Duration::from_micros(200));
                    c.send(&bytes[at..]);
                }
                _ => c.send(&bytes),
            }
        }
    }
    match finish(c, a.way)? {
        None => Ok(vec![]),
        Some((rest, reset)) => {
            // no other request's data
            for j in (0..64).filter(|j| *j != i) {
                if find(&rest, marker_of(j).as_bytes()).is_some() {
                    return fail(format!("the answer to request {} has data of request {}: {}", i, j, show(&rest)));
                }
            }
            if head {
                return Ok(vec![]);
            }
            valid_answers(&rest, false, reset).map_err(|e| Verdict::Fail(format!("attack {}: {}", i, e)))
        }
    }
}

/// A request that the server must serve correctly.
fn probe(addr: SocketAddr, n: usize) -> Result<(), Verdict> {
    let a = Ask { method: n % 4, data: n * 37 % 2000, out: n * 91 % 3000, sleep: 0, pause: 0, cut: None };
    let mut c = must(Conn::open(addr), "connect")?;
    a.go(&mut c, &format!("probe{}", n), true, 0)?;
    a.go(&mut c, &format!("probe{}-again", n), false, 0)?;
    must(c.expect_close(), "after a well-formed request")
}

type Kept = RefCell<BTreeMap<usize, SocketAddr>>;

fn case07(hand: &Stagehand, servers: &Kept, case: &Siege, cl: &mut Classes) -> Verdict {
    let addr = match servers.borrow().get(&case.pool) {
        Some(a) => *a,
        None => launch(case.pool, routes).addr,
    };
    servers.borrow_mut().remove(&case.pool);
    let go = |cl: &mut Classes| -> Result<bool, Verdict> {
        hand.clear();
        let mut done: Vec<Result<Vec<u16>, Verdict>> = vec![];
        for (b, batch) in case.attacks.chunks(case.parallel.max(1)).enumerate() {
            let base = b * case.parallel.max(1);
            if batch.len() == 1 {
                done.push(one_attack(addr, base, &batch[0]));
            } else {
                let r: Vec<_> = thread::scope(|s| {
                    let hs: Vec<_> = batch.iter().enumerate().map(|(k, a)| s.spawn(move || one_attack(addr, base + k, a))).collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Verdict::Fail("client thread panicked".into())))).collect()
                });
                done.extend(r);
            }
        }
        for (d, a) in done.into_iter().zip(&case.attacks) {
            let codes = d?;
            for c in codes {
                cl.hit(&format!("answered-{}", c));
            }
            cl.hit(match a.stuff {
                Stuff::Bytes(_) => "random-bytes",
                Stuff::Mutated(..) => "mutated-request",
                Stuff::Huge(..) => "oversized",
                Stuff::Short(..) => "shorter-than-announced",
                Stuff::Odd(_) => "odd-text",
                Stuff::Panic(..) => "panic",
                Stuff::Fine(_) => "well-formed-in-between",
            });
        }
        for n in 0..2 {
            probe(addr, n + case.attacks.len())?;
        }
        hand.rendezvous(addr, case.pool)?;
        Ok(case.attacks.iter().any(|a| !matches!(a.stuff, Stuff::Fine(_))))
    };
    let r = go(cl);
    if r.is_ok() {
        // only a server known to be healthy is used again
        servers.borrow_mut().insert(case.pool, addr);
    }
    settle(r)
}

fn attack() -> BoxedStrategy<Attack> {
    let crumb = || prop_oneof![
        2 => vec(any::<u8>(), 0..6),
        2 => gen::few(&["\r\n", "\n", "\r", "\r\n\r\n", " ", ":", ";", "=", "&", "?", "#", "/", "\"", "\\", "--", "\0", "%", "é", "-1", "99999999999999999999", "\t", ","]).prop_map(String::into_bytes),
        1 => Just(vec![0xff, 0xfe]),
    ];
    let mutation = prop_oneof![
        3 => (any::<u32>(), prop_oneof![any::<u8>(), proptest::sample::select(b"\r\n :;=&?#/\"\\\0\xff".to_vec())]).prop_map(|(n, b)| Mutation::Flip(n, b)),
        2 => (any::<u32>(), 1u16..30).prop_map(|(n, k)| Mutation::Delete(n, k)),
        1 => (any::<u32>(), 1u16..80).prop_map(|(n, k)| Mutation::Double(n, k)),
        3 => (any::<u32>(), crumb()).prop_map(|(n, b)| Mutation::Insert(n, b)),
        1 => any::<u32>().prop_map(Mutation::Truncate),
        2 => (any::<u8>(), crumb()).prop_map(|(k, b)| Mutation::Value(k, b)),
        1 => (any::<u32>(), any::<u32>(), 1u16..20).prop_map(|(a, b, k)| Mutation::Swap(a, b, k)),
    ];
    let tokens = vec(gen::few(&["GET", "POST", " ", "/", "HTTP/1.1", "\r\n", "\n", "Host: h", ":", "Content-Length: ", "5", "-1", "multipart/form-data; boundary=b", "--b", "Cookie: ", "a=b", "Connection: keep-alive", "\r\n\r\n", "Authorization: Basic ", "?", "&", "\0"]), 0..20)
        .prop_map(|v| v.concat().into_bytes());
    let stuff = prop_oneof![
        2 => gen::bytes(1500).prop_map(Stuff::Bytes),
        2 => tokens.prop_map(Stuff::Bytes),
        6 => (light_head(any_method()), body(2500), vec(mutation, 1..5)).prop_map(|(h, b, m)| Stuff::Mutated(h, b, m)),
        1 => (any::<u8>(), prop_oneof![4 => 1000usize..20_000, 1 => 100_000usize..300_000]).prop_map(|(k, n)| Stuff::Huge(k, n)),
        1 => (any::<u8>(), prop_oneof![0u64..3000, any::<u64>()], gen::bytes(2000)).prop_map(|(m, n, b)| Stuff::Short(m, n, b)),
        3 => any::<u8>().prop_map(Stuff::Odd),
        4 => (any::<u8>(), any::<u8>()).prop_map(|(k, b)| Stuff::Panic(k, b)),
        1 => ask_strategy().prop_map(|mut a| {
            a.data = a.data.min(2000);
            a.out = a.out.min(5000);
            Stuff::Fine(a)
        }),
    ];
    let way = prop_oneof![6 => Just(Way::HalfClose), 1 => Just(Way::Drop), 1 => Just(Way::Reset), 1 => Just(Way::Wait)];
    (stuff, way, proptest::option::weighted(0.3, any::<u32>())).prop_map(|(stuff, way, cut)| Attack { stuff, way, cut }).boxed()
}

/// Sets the soft limit on open descriptors; returns the one before.
fn descriptors(n: u64) -> u64 {
    let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe {
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        let before = l.rlim_cur;
        l.rlim_cur = n;
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
        before
    }
}

fn highest_descriptor() -> u64 {
    std::fs::read_dir("/proc/self/fd").map(|d| d.flatten().filter_map(|e| e.file_name().to_str().and_then(|n| n.parse().ok())).max().unwrap_or(0)).unwrap_or(0)
}

fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

/// The same few attacks again and again, with few descriptors to spare.
fn case07_wear(hand: &Stagehand, pool: usize, attacks: &[Attack], total: usize, spare: u64, cl: &mut Classes) -> Verdict {
    let before = descriptors(20_000);
    let go = |cl: &mut Classes| -> Result<bool, Verdict> {
        hand.clear();
        let addr = launch(pool, |s| {
            s.set_keepalive(2_000);
            routes(s)
        }).addr;
        for n in 0..pool * 2 {
            probe(addr, n)?;
        }
        hand.rendezvous(addr, pool)?;
        hand.clear();
        let at_first = threads();
        descriptors(highest_descriptor() + spare);
        for n in 0..total {
            let a = &attacks[n % attacks.len()];
            one_attack(addr, n % attacks.len(), a)?;
            if n % 500 == 499 {
                hand.clear();
            }
        }
        for n in 0..2 {
            probe(addr, n).map_err(|v| v.after(&format!("after {} connections", total)))?;
        }
        hand.rendezvous(addr, pool).map_err(|v| v.after(&format!("after {} connections", total)))?;
        if !wait_until(PATIENCE_MS, || threads() < at_first + total / 4) {
            return Err(Verdict::Slow(format!("{} threads after {} connections have ended, {} before", threads(), total, at_first)));
        }
        cl.when(total > 1000, "over-1000-connections");
        Ok(true)
    };
    let r = go(cl);
    descriptors(before);
    settle(r)
}

fn run07(ctx: &mut Ctx) {
    let hand = Stagehand::install();
    let lasting = attack().prop_map(|mut a| {
        if a.way == Way::Wait {
            a.way = Way::HalfClose;
        }
        if let Stuff::Huge(_, n) = &mut a.stuff {
            *n %= 20_000;
        }
        if let Stuff::Fine(f) = &mut a.stuff {
            f.sleep = 0;
        }
        a
    });
    ctx.run("wear", ctx.n(64, 2_000), (1usize..4, vec(lasting, 1..5), 400usize..2_000, 60u64..200), |(pool, a, total, spare), cl| case07_wear(&hand, *pool, a, *total, *spare, cl));
    let servers: Kept = RefCell::new(BTreeMap::new());
    ctx.rule("At least one connection was hostile or made a handler panic.");
    let siege = (1usize..5, vec(attack(), 1..12), 1usize..7).prop_map(|(pool, attacks, parallel)| Siege { pool, attacks, parallel });
    ctx.run("sieges", ctx.n(14_000, 240_000), siege, |c, cl| case07(&hand, &servers, c, cl));
    // the longest heads the server takes, and longer ones
    let big = (1usize..3, any::<u8>(), prop_oneof![900_000usize..1_048_000, 1_049_000usize..3_000_000], any::<bool>()).prop_map(|(pool, k, n, half)| Siege {
        pool,
        attacks: vec![Attack { stuff: Stuff::Huge(k, n), way: if half { Way::HalfClose } else { Way::Wait }, cut: None }],
        parallel: 1,
    });
    ctx.run("oversized", ctx.n(64, 1_000), big, |c, cl| case07(&hand, &servers, c, cl));
    // many panics
    let panics = (1usize..5, vec((any::<u8>(), any::<u8>()), 10..60), 1usize..20).prop_map(|(pool, v, parallel)| Siege {
        pool,
        attacks: v.into_iter().map(|(k, b)| Attack { stuff: Stuff::Panic(k, b), way: Way::HalfClose, cut: None }).collect(),
        parallel,
    });
    ctx.run("many-panics", ctx.n(200, 5_000), panics, |c, cl| case07(&hand, &servers, c, cl));
}
