//! C30: routes added while the server runs.
use super::routing::{self, Ask, Seg, Table};
use super::web::*;
use super::Prop;
use crate::drv::{last_panic, Classes, Ctx, Verdict};
use crate::net::*;
use crate::scarce::scarce;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use starry::{Extend, HttpServer, Limit};
use std::net::SocketAddr;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::Duration;

pub const C30: Prop = Prop {
    id: "C30",
    shards: 8,
    assumptions: &[
        "routes as for C01; a refused registration is one of a method and pattern (parameter names aside) that exist already, or of a pattern that does not start with '/'",
        "what a refused registration does to its caller (the library panics) is not judged",
    ],
    run: run30,
};

/// Longer than any generated path, so that it never meets a generated route.
const HOLD: &str = "/hold/1/2/3/4/5/6/7/8/9/10/11";
const DO: &str = "/do/1/2/3/4/5/6/7/8/9/10/11";
const HOLD_HANDLER: usize = MAX_HANDLERS - 1;
const DO_HANDLER: usize = MAX_HANDLERS - 2;
const OTHER_HANDLER: usize = MAX_HANDLERS - 3;
const OWN_FILTER: usize = 0;
const OTHER_FILTER: usize = 1;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// the next route; by 0 the same thread, 1 another thread with a clone of the server, 2 a running handler
    Add(u8),
    /// a route that exists already
    Again(u8, u8),
    /// a pattern without a leading slash
    Bad(u8),
    Ask(Ask),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Growth {
    table: Table,
    /// routes registered before the start
    first: usize,
    /// 0 silent, 1 part of a head, 2 part of a body, 3 being handled
    holders: Vec<u8>,
    steps: Vec<Step>,
}

type Job = Box<dyn FnOnce() + Send>;

struct Desk {
    server: HttpServer,
    addr: SocketAddr,
    job: Arc<Mutex<Option<Job>>>,
}

fn locked<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    match m.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

impl Desk {
    /// Registers by way of `by`; tells whether the registration was accepted.
    fn register(&self, by: u8, f: impl FnOnce(&HttpServer) + Send + 'static) -> Result<bool, Verdict> {
        let s = self.server.clone();
        let slot = Arc::new(AtomicUsize::new(0));
        let s2 = slot.clone();
        let go = move || {
            f(&s);
            s2.store(1, SeqCst)
        };
        match by % 3 {
            0 | 1 => {
                let s = if by % 3 == 0 { Some(self.server.clone()) } else { None };
                let (tx, rx) = std::sync::mpsc::channel();
                thread::spawn(move || {
                    let r = catch_unwind(AssertUnwindSafe(go));
                    drop((s, tx.send(r.is_ok())));
                });
                if rx.recv_timeout(Duration::from_millis(PATIENCE_MS)).is_err() {
                    return Err(Verdict::Slow(String::from("a registration does not return")));
                }
            }
            _ => {
                *locked(&self.job) = Some(Box::new(go));
                let mut c = must(Conn::open(self.addr), "connect")?;
                c.send(&request("GET", DO, &[], b""));
                must(c.rest(), "a handler that registers a route")?;
                if locked(&self.job).take().is_some() {
                    return fail(String::from("the request to a route registered before the start did not reach its handler"));
                }
            }
        }
        Ok(slot.load(SeqCst) == 1)
    }
}

fn put(s: &HttpServer, t: &Table, i: usize, handler: usize) {
    let r = &t.routes[i];
    let g = starry_router::Router::new(s, &routing::pattern(&t.groups[r.group]), None);
    g.register(METHODS[r.method], &routing::pattern(&r.segs), HANDLERS[handler], if r.ext { Some(Extend::e1(vec![FILTERS[OWN_FILTER]])) } else { None });
}

/// The same route again in other dress: other parameter names, handler and filter.
fn put_again(s: &HttpServer, t: &Table, i: usize, ext: bool) {
    let r = &t.routes[i];
    let other: Vec<Seg> = t.full(i).into_iter().map(|s| match s {
        Seg::Par(n) => Seg::Par(format!("other{}", n)),
        l => l,
    }).collect();
    let g = starry_router::Router::new(s, "", if ext { Some(Extend::e1(vec![FILTERS[OTHER_FILTER]])) } else { None });
    g.register(METHODS[r.method], &routing::pattern(&other), HANDLERS[OTHER_HANDLER], None);
}

fn fields_text(t: &Table, i: usize, segs: &[String]) -> String {
    let mut v: Vec<String> = t.full(i).iter().zip(segs).filter_map(|(p, s)| if let Seg::Par(n) = p { Some(format!("{}={}", n, s)) } else { None }).collect();
    v.sort();
    v.join("&")
}

fn case30(case: &Growth, cl: &mut Classes) -> Verdict {
    let open = Arc::new(AtomicBool::new(false));
    let busy = Arc::new(AtomicUsize::new(0));
    let job: Arc<Mutex<Option<Job>>> = Arc::new(Mutex::new(None));
    let (o2, b2, j2) = (open.clone(), busy.clone(), job.clone());
    set_script(Arc::new(move |stage, ctx| {
        if let Stage::Handler(n) = stage {
            if n == DO_HANDLER {
                let j = locked(&j2).take();
                if let Some(j) = j {
                    j()
                }
            }
            if n == HOLD_HANDLER && ctx.req_header_get("X-Busy").is_some() {
                b2.fetch_add(1, SeqCst);
                wait_until(PATIENCE_MS * 2, || o2.load(SeqCst));
            }
            let form = if n == HOLD_HANDLER {
                ctx.req_form("d").unwrap_or(None).unwrap_or_default()
            } else {
                let mut v: Vec<String> = routing::NAMES.iter().filter_map(|k| ctx.req_field(*k).map(|v| format!("{}={}", k, v))).collect();
                v.sort();
                v.join("&")
            };
            ctx.resp_body(format!("handler {} {}", n, form).into_bytes());
            ctx.response();
        }
        if let Stage::Filter(n) = stage {
            ctx.resp_set_header_str("X-Filter", if n == OWN_FILTER { "own" } else { "other" });
        }
    }));
    let t = &case.table;
    let mut known = case.first.min(t.routes.len());
    let mut kept = None;
    let addr = launch(case.holders.len() + 1, |s| {
        let g = starry_router::Router::new(s, "", None);
        g.register("POST", HOLD, HANDLERS[HOLD_HANDLER], None);
        g.register("GET", DO, HANDLERS[DO_HANDLER], None);
        for i in 0..known {
            put(s, t, i, i);
        }
        kept = Some(s.clone());
    }).addr;
    let desk = Desk { server: kept.unwrap(), addr, job };
    let mut go = |cl: &mut Classes| -> Result<bool, Verdict> {
        let mut held = vec![];
        let held_req = |busy: bool| {
            let mut h = vec![("Content-Type", "application/x-www-form-urlencoded"), ("Content-Length", "7")];
            if busy {
                h.push(("X-Busy", "1"));
            }
            request("POST", HOLD, &h, b"d=12345")
        };
        let mut busy_ones = 0;
        for kind in &case.holders {
            let mut c = must(Conn::open(addr), "connect")?;
            let bytes = held_req(*kind == 3);
            let at = match kind {
                0 => 0,
                1 => bytes.len() / 3,
                2 => bytes.len() - 4,
                _ => bytes.len(),
            };
            c.send(&bytes[..at]);
            if *kind == 3 {
                busy_ones += 1;
                if !wait_until(PATIENCE_MS, || busy.load(SeqCst) >= busy_ones) {
                    return Err(Verdict::Slow(String::from("a request is not handled")));
                }
            }
            held.push((c, bytes, at));
        }
        let (mut grown, mut refused, mut after) = (0, 0, 0);
        for (n, step) in case.steps.iter().enumerate() {
            let what = format!("step {} ({:?})", n, step);
            match step {
                Step::Add(by) => {
                    if known < t.routes.len() {
                        let (t2, i) = (t.clone(), known);
                        if !desk.register(*by, move |s| put(s, &t2, i, i)).map_err(|v| v.after(&what))? {
                            return fail(format!("{}: route {} {} is refused", what, METHODS[t.routes[i].method], routing::pattern(&t.full(i))));
                        }
                        known += 1;
                        grown += 1;
                    }
                }
                Step::Again(by, i) => {
                    if known > 0 {
                        let (t2, i, ext) = (t.clone(), *i as usize % known, *i >= 128);
                        if !desk.register(*by, move |s| put_again(s, &t2, i, ext)).map_err(|v| v.after(&what))? {
                            refused += 1;
                        }
                    }
                }
                Step::Bad(by) => {
                    let bad = desk.register(*by, |s| s.router("").get("no-slash", HANDLERS[OTHER_HANDLER])).map_err(|v| v.after(&what))?;
                    if !bad {
                        refused += 1;
                    }
                }
                Step::Ask(a) => {
                    let now = Table { groups: t.groups.clone(), routes: t.routes[..known].to_vec() };
                    let (m, segs) = routing::concrete(t, a);
                    let path: String = segs.iter().map(|s| format!("/{}", s)).collect();
                    let strs: Vec<&str> = segs.iter().map(|s| s.as_str()).collect();
                    let what = format!("{} with {} of {} routes: {} {}", what, known, t.routes.len(), METHODS[m], path);
                    let r = must(exchange(addr, &request(METHODS[m], &path, &[], b""), METHODS[m] == "HEAD"), &what)?;
                    match now.select(m, &strs) {
                        None if r.code == 404 => cl.when(t.select(m, &strs).is_some(), "asked-before-it-exists"),
                        None => return fail(format!("{}: no route matches, but status {} {}", what, r.code, show(&r.body))),
                        Some(i) => {
                            let body = if METHODS[m] == "HEAD" { String::new() } else { format!("handler {} {}", i, fields_text(t, i, &segs)) };
                            if r.code != 200 || r.body != body.as_bytes() {
                                return fail(format!("{}: answered {} {} instead of {:?}", what, r.code, show(&r.body), body));
                            }
                            let filter = if t.routes[i].ext { Some("own") } else { None };
                            if r.get("X-Filter") != filter {
                                return fail(format!("{}: ran the filter {:?} instead of {:?}", what, r.get("X-Filter"), filter));
                            }
                            cl.when(i >= case.first, "late-route-served");
                            after += (grown + refused > 0) as usize;
                        }
                    }
                }
            }
        }
        open.store(true, SeqCst);
        for (k, (mut c, bytes, at)) in held.into_iter().enumerate() {
            c.send(&bytes[at..]);
            let r = must(c.response(false), &format!("connection {} held open meanwhile", k))?;
            if r.code != 200 || r.body != format!("handler {} 12345", HOLD_HANDLER).as_bytes() {
                return fail(format!("connection {} held open meanwhile: answered {} {}", k, r.code, show(&r.body)));
            }
            must(c.expect_close(), "after the last answer")?;
        }
        cl.when(refused > 0, "refused-registration");
        cl.when(refused > 0 && after > 0, "served-after-a-refusal");
        cl.when(!case.holders.is_empty(), "with-open-connections");
        Ok(after > 0)
    };
    let r = go(cl);
    open.store(true, SeqCst);
    settle(r)
}

fn growth() -> impl Strategy<Value = Growth> {
    let step = prop_oneof![
        4 => (0u8..3).prop_map(Step::Add),
        1 => (0u8..3, any::<u8>()).prop_map(|(b, i)| Step::Again(b, i)),
        1 => (0u8..12).prop_map(|b| if b < 3 { Step::Bad(b) } else { Step::Add(b % 3) }),
        6 => routing::ask().prop_map(Step::Ask),
    ];
    (routing::table(), 0usize..6, vec(0u8..4, 0..4), vec(step, 4..24)).prop_map(|(table, first, holders, steps)| Growth { table, first, holders, steps })
}

/// Clients ask while routes are registered one after another.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Load {
    clients: usize,
    spare: usize,
    /// microseconds before each registration; odd ones are followed by a refused one
    pauses: Vec<u16>,
    params: bool,
    keep: bool,
}

fn case30_load(l: &Load, cl: &mut Classes) -> Verdict {
    set_script(Arc::new(|stage, ctx| {
        if let Stage::Handler(n) = stage {
            ctx.resp_body(format!("handler {}", n).into_bytes());
            ctx.response();
        }
    }));
    let n = l.pauses.len();
    let path = |j: usize| if l.params { format!("/n/:a/{}/:b", j) } else { format!("/n/x/{}/y", j) };
    let mut kept = None;
    let addr = launch(l.clients + l.spare, |s| {
        s.router("").get("/known", HANDLERS[MAX_HANDLERS - 1]);
        kept = Some(s.clone());
    }).addr;
    let server = kept.unwrap();
    let begun: Vec<AtomicBool> = (0..n).map(|_| AtomicBool::new(false)).collect();
    let there: Vec<AtomicBool> = (0..n).map(|_| AtomicBool::new(false)).collect();
    let done = AtomicBool::new(false);
    let (begun, there, done) = (&begun, &there, &done);
    let served = AtomicUsize::new(0);
    let served = &served;
    let mut refused = 0;
    let results: Vec<Result<(), Verdict>> = thread::scope(|s| {
        let hs: Vec<_> = (0..l.clients).map(|k| s.spawn(move || -> Result<(), Verdict> {
            let mut c: Option<Conn> = None;
            let mut i = k;
            let mut rounds = 0;
            while rounds < 2 {
                if done.load(SeqCst) {
                    rounds += 1;
                }
                for _ in 0..n + 1 {
                    i += 1;
                    let j = i % (n + 1);
                    let mut con = match c.take() {
                        Some(c) => c,
                        None => must(Conn::open(addr), "connect")?,
                    };
                    let target = if j == n { String::from("/known") } else { format!("/n/x/{}/y", j) };
                    let must_be = j == n || there[j].load(SeqCst);
                    con.send(&request("GET", &target, &[("Connection", if l.keep { "keep-alive" } else { "close" })], b""));
                    let r = must(con.response(false), &target)?;
                    let may_be = j == n || begun[j].load(SeqCst);
                    let want = format!("handler {}", if j == n { MAX_HANDLERS - 1 } else { j });
                    if r.code == 200 && r.body == want.as_bytes() {
                        if !may_be {
                            return fail(format!("{} is served before it is registered", target));
                        }
                        served.fetch_add(1, SeqCst);
                    } else if r.code != 404 || must_be {
                        return fail(format!("{}: answered {} {} ({})", target, r.code, show(&r.body), if must_be { "registered before the request" } else { "being registered" }));
                    }
                    if l.keep && r.code == 200 {
                        c = Some(con);
                    }
                }
            }
            Ok(())
        })).collect();
        for (j, p) in l.pauses.iter().enumerate() {
            thread::sleep(Duration::from_micros(*p as u64));
            begun[j].store(true, SeqCst);
            server.router("").get(&path(j), HANDLERS[j]);
            there[j].store(true, SeqCst);
            if p % 2 == 1 {
                let _ = catch_unwind(AssertUnwindSafe(|| server.router("").get(&path(j / 2), HANDLERS[MAX_HANDLERS - 2])));
                refused += 1;
            }
        }
        done.store(true, SeqCst);
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Verdict::Fail("client thread panicked".into())))).collect()
    });
    for r in results {
        if let Err(v) = r {
            return v;
        }
    }
    cl.when(refused > 0, "refused-under-load");
    Verdict::Ok(served.load(SeqCst) > n)
}

/// Registers limited routes on a running server, for some of which the system refuses a thread.
fn case30_scarce(refuse: &[bool], params: bool, deeper: bool, cl: &mut Classes) -> Verdict {
    set_script(Arc::new(|stage, ctx| {
        if let Stage::Handler(n) = stage {
            ctx.resp_body(format!("handler {}", n).into_bytes());
            ctx.response();
        }
    }));
    let path = |j: usize| if params { format!("/n/:a/{}/:b", j) } else { format!("/n/x/{}/y", j) };
    let mut kept = None;
    let addr = launch(2, |s| {
        s.router("").get("/known", HANDLERS[MAX_HANDLERS - 1]);
        if deeper {
            // the routes' places in the tree are there before the routes
            for j in 0..refuse.len() {
                s.router("").get(&(path(j) + "/z"), HANDLERS[MAX_HANDLERS - 1]);
            }
        }
        kept = Some(s.clone());
    }).addr;
    let server = kept.unwrap();
    let mut there = vec![];
    let mut failed = 0;
    let mut go = || -> Result<(), Verdict> {
        // a second round, in which nothing is refused, for what was refused in the first
        for j in (0..refuse.len()).chain(0..refuse.len()) {
            if !there.contains(&j) {
                let second = there.len() + failed >= refuse.len();
                let (r, n) = scarce(true, &[refuse[j] && !second], || catch_unwind(AssertUnwindSafe(|| {
                    starry_router::Router::new(&server, "", None).register("GET", &path(j), HANDLERS[j], Some(Extend::e2(Limit::new(1, 4, 0))))
                })));
                match r {
                    Ok(()) => there.push(j),
                    Err(_) if n == 0 => return fail(format!("registering {} failed: {}", path(j), last_panic())),
                    Err(_) => failed += 1,
                }
            }
            for k in 0..=refuse.len() {
                let target = if k == refuse.len() { String::from("/known") } else { format!("/n/x/{}/y", k) };
                let mut c = must(Conn::open(addr), "connect")?;
                c.send(&request("GET", &target, &[], b""));
                let r = must(c.response(false), &format!("{} ({})", target, if k == refuse.len() || there.contains(&k) { "registered" } else { "not registered" }))?;
                let want = if k == refuse.len() { format!("handler {}", MAX_HANDLERS - 1) } else { format!("handler {}", k) };
                if k == refuse.len() || there.contains(&k) {
                    if r.code != 200 || r.body != want.as_bytes() {
                        return fail(format!("{}: answered {} {}", target, r.code, show(&r.body)));
                    }
                } else if r.code != 404 {
                    return fail(format!("{}, not registered: answered {} {}", target, r.code, show(&r.body)));
                }
            }
        }
        Ok(())
    };
    if let Err(v) = go() {
        return v;
    }
    cl.when(failed > 0, "limit-could-not-run");
    Verdict::Ok(failed > 0)
}

fn run30(ctx: &mut Ctx) {
    ctx.rule("A route was served after another one was registered or refused; under load: more answers than routes; scarce threads: a limited route could not be registered at first.");
    ctx.run("growing", ctx.n(16_000, 300_000), growth(), case30);
    ctx.run("scarce-threads", ctx.n(240, 6_000), (vec(any::<bool>(), 1..4), any::<bool>(), any::<bool>()), |(r, p, d), cl| case30_scarce(r, *p, *d, cl));
    let load = (1usize..6, 0usize..3, vec(0u16..1500, 2..30), any::<bool>(), any::<bool>()).prop_map(|(clients, spare, pauses, params, keep)| Load { clients, spare, pauses, params, keep });
    ctx.run("under-load", ctx.n(1_200, 24_000), load, case30_load);
}
