//! C14 rate limits.
use super::web::*;
use super::Prop;
use crate::clock::{stepping, steps, Step};
use crate::drv::{Classes, Ctx, Verdict};
use crate::net::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use starry::{Extend, Limit};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::thread;
use std::time::{Duration, Instant};

pub const C14: Prop = Prop {
    id: "C14",
    shards: 8,
    assumptions: &[
        "the rate is judged by lower bounds only: of the requests sent since a moment T, the k-th to be let through cannot be handled earlier than T plus what sections and intervals demand, whatever the delays (8 ms allowed for clock rounding)",
        "a request of an unlimited route that takes over 500 ms while workers are free counts as affected, if three runs agree",
    ],
    run: run14,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rule {
    section: i64,
    count: usize,
    interval: i64,
    filter: bool,
    /// the route ends in a parameter, which differs from request to request
    field: bool,
    method: usize,
}

/// What becomes of a request.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Fate {
    Served,
    /// its handler takes some milliseconds
    Slow(u64),
    /// its handler panics
    Panics,
    /// its client closes the connection without waiting for the answer (after ms; with a reset)
    Leaves(u64, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Burst {
    /// ms since the burst before began to be sent (or ended, if `idle`)
    gap: u64,
    idle: bool,
    route: usize,
    n: usize,
    /// one after the other on a kept connection, instead of at once
    chain: bool,
    spread: u64,
    /// of the burst's requests, in turn
    fates: Vec<Fate>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Traffic {
    rules: Vec<Rule>,
    bursts: Vec<Burst>,
    /// the wall clock is set meanwhile
    #[serde(default)]
    steps: Vec<Step>,
}

impl Rule {
    /// Earliest time of each of `n` passes since the first, in ms.
    fn earliest(&self, n: usize) -> Vec<i64> {
        let mut v: Vec<i64> = vec![];
        for k in 0..n {
            let mut t = 0;
            if k > 0 {
                t = v[k - 1] + self.interval.max(0);
            }
            if k >= self.count {
                t = t.max(v[k - self.count] + self.section.max(0));
            }
            v.push(t);
        }
        v
    }
}

#[derive(Clone, Debug)]
struct Pass {
    id: String,
    at: Instant,
}

struct Sent {
    id: String,
    route: usize,
    at: Instant,
    fate: Fate,
}

const NAMES: [&str; 6] = ["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS"];
/// Numbers the cases of this process: whoever left may still turn up in a later one.
static CASES: AtomicUsize = AtomicUsize::new(0);
const TOLERANCE: Duration = Duration::from_millis(8);

fn ask(method: usize, path: &str, id: &str, fate: Fate, keep: bool) -> Vec<u8> {
    let fate = match fate {
        Fate::Slow(ms) => format!("slow {}", ms),
        Fate::Panics => String::from("panics"),
        _ => String::from("served"),
    };
    let keep = if keep { "keep-alive" } else { "close" };
    let head = [("X-Id", id), ("X-Fate", &fate), ("Connection", keep), ("Content-Length", "2")];
    match NAMES[method] {
        m @ ("POST" | "PUT") => request(m, path, &head, b"ab"),
        m => request(m, path, &head[..3], b""),
    }
}

fn get(c: &mut Conn, method: usize, path: &str, id: &str, fate: Fate, keep: bool) -> Result<(), Verdict> {
    c.send(&ask(method, path, id, fate, keep));
    let what = format!("request {} of {} ({:?})", id, path, fate);
    match fate {
        Fate::Leaves(ms, reset) => {
            thread::sleep(Duration::from_millis(ms));
            if reset {
                super::live::reset(c);
            }
            return Ok(());
        }
        Fate::Panics => {
            must(c.rest(), &what)?;
            return Ok(());
        }
        _ => {}
    }
    let r = must(c.response(false), &what)?;
    if r.code != 200 || r.body != id.as_bytes() {
        return fail(format!("{}: answered {} {}", what, r.code, show(&r.body)));
    }
    Ok(())
}

fn case14(passes: &Events<Pass>, handled: &Events<String>, case: &Traffic, cl: &mut Classes) -> Verdict {
    let go = |cl: &mut Classes| -> Result<bool, Verdict> {
        let total: usize = case.bursts.iter().map(|b| b.n).sum();
        let server = launch(total + 3, |s| {
            let g = starry_router::Router::new(s, "", None);
            for (i, r) in case.rules.iter().enumerate() {
                let l = Limit::new(r.section, r.count, r.interval);
                let e = if r.filter { Extend::e3(vec![FILTERS[0]], l) } else { Extend::e2(l) };
                // handlers with an even number record the pass themselves
                g.register(NAMES[r.method], &format!("/limited{}{}", i, if r.field { "/:p" } else { "" }), HANDLERS[if r.filter { 1 } else { 0 }], Some(e));
            }
            g.register("GET", "/free", HANDLERS[1], None);
        });
        let case_no = CASES.fetch_add(1, Ordering::Relaxed);
        passes.take();
        handled.take();
        let mut sent: Vec<Sent> = vec![];
        let results: Vec<Result<Vec<Sent>, Verdict>> = thread::scope(|s| {
            let mut hs = vec![];
            for (b, burst) in case.bursts.iter().enumerate() {
                if burst.idle {
                    // everything before is served first
                    while hs.iter().any(|h: &thread::ScopedJoinHandle<'_, _>| !h.is_finished()) {
                        thread::sleep(Duration::from_millis(2));
                    }
                }
                thread::sleep(Duration::from_millis(burst.gap));
                let addr = server.addr;
                let route = burst.route % case.rules.len();
                let rule = &case.rules[route];
                let path = move |id: &str| if rule.field { format!("/limited{}/{}", route, id) } else { format!("/limited{}", route) };
                let fate = move |k: usize| burst.fates[k % burst.fates.len()];
                if burst.chain {
                    hs.push(s.spawn(move || {
                        let mut out = vec![];
                        let mut c = must(Conn::open(addr), "connect")?;
                        for k in 0..burst.n {
                            let id = format!("c{}-b{}-{}", case_no, b, k);
                            out.push(Sent { id: id.clone(), route, at: Instant::now(), fate: fate(k) });
                            get(&mut c, rule.method, &path(&id), &id, fate(k), k + 1 < burst.n)?;
                            if k + 1 < burst.n && matches!(fate(k), Fate::Panics | Fate::Leaves(_, _)) {
                                c = must(Conn::open(addr), "connect")?;
                            }
                        }
                        Ok(out)
                    }));
                } else {
                    for k in 0..burst.n {
                        hs.push(s.spawn(move || {
                            thread::sleep(Duration::from_micros(burst.spread * k as u64));
                            let id = format!("c{}-b{}-{}", case_no, b, k);
                            let at = Instant::now();
                            let mut c = must(Conn::open(addr), "connect")?;
                            get(&mut c, rule.method, &path(&id), &id, fate(k), false)?;
                            Ok(vec![Sent { id, route, at, fate: fate(k) }])
                        }));
                    }
                }
                if burst.n > 20 {
                    // so many at once may overflow the listener's backlog, which delays everybody
                    continue;
                }
                // meanwhile, a route without a limit
                hs.push(s.spawn(move || {
                    thread::sleep(Duration::from_millis(5));
                    for k in 0..2 {
                        let slow = Deadline::ms(500);
                        let mut c = must(Conn::open(addr), "connect")?;
                        get(&mut c, 0, "/free", &format!("f{}-{}", b, k), Fate::Served, false)?;
                        if slow.over() {
                            return Err(Verdict::Slow(String::from("a request of the route without a limit took over 500 ms")));
                        }
                    }
                    Ok(vec![])
                }));
            }
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Verdict::Fail("client thread panicked".into())))).collect()
        });
        let mut slow = None;
        for r in results {
            match r {
                Ok(v) => sent.extend(v),
                Err(Verdict::Slow(m)) => slow = Some(m),
                Err(v) => return Err(v),
            }
        }
        let passes = passes.take();
        let mut times: BTreeMap<String, Vec<Instant>> = BTreeMap::new();
        for p in passes {
            times.entry(p.id).or_default().push(p.at);
        }
        let mut runs: BTreeMap<String, usize> = BTreeMap::new();
        for id in handled.take() {
            *runs.entry(id).or_insert(0) += 1;
        }
        if slow.is_none() {
            for s in &sent {
                let t = times.get(&s.id).map(|v| v.len()).unwrap_or(0);
                let n = runs.get(&s.id).cloned().unwrap_or(0);
                // whoever leaves may be noticed in time, or not
                let left = matches!(s.fate, Fate::Leaves(_, _)) && t <= 1 && n <= 1;
                if (t, n) != (1, 1) && !left {
                    return fail(format!("request {} passed {} times and was handled {} times", s.id, t, n));
                }
            }
        }
        for (i, r) in case.rules.iter().enumerate() {
            let mine: Vec<(Instant, Instant)> = sent.iter().filter(|s| s.route == i).filter_map(|s| times.get(&s.id).map(|t| (s.at, t[0]))).collect();
            let earliest = r.earliest(mine.len());
            for (from, _) in &mine {
                let mut h: Vec<Instant> = mine.iter().filter(|(s, _)| s >= from).map(|(_, h)| *h).collect();
                h.sort();
                for (k, t) in h.iter().enumerate() {
                    let bound = Duration::from_millis(earliest[k] as u64);
                    if *t + TOLERANCE < *from + bound {
                        return fail(format!("limited to {} per {} ms, {} ms apart: {} requests were let through in the {:?} since one was sent; the last of them should take {:?} at least", r.count, r.section, r.interval, k + 1, *t - *from, bound));
                    }
                }
            }
            cl.when(mine.len() > r.count, "more-than-one-section");
        }
        if let Some(m) = slow {
            return Err(Verdict::Slow(m));
        }
        cl.when(case.bursts.iter().skip(1).any(|b| b.idle), "burst-after-idling");
        cl.when(case.bursts.iter().any(|b| b.chain && b.n > 1), "kept-connection");
        cl.when(case.rules.len() > 1, "several-limited-routes");
        cl.when(case.rules.iter().any(|r| r.filter), "with-filter");
        cl.when(case.rules.iter().any(|r| r.field), "with-field");
        cl.when(sent.iter().any(|s| s.fate == Fate::Panics), "panicking");
        cl.when(sent.iter().any(|s| matches!(s.fate, Fate::Leaves(_, _))), "leaving");
        let mut per: Vec<usize> = vec![0; case.rules.len()];
        for s in &sent {
            per[s.route] += 1;
        }
        Ok(case.rules.iter().zip(per).any(|(r, n)| n > r.count))
    };
    cl.when(!case.steps.is_empty(), "clock-set-meanwhile");
    settle(stepping(&case.steps, || go(cl)))
}

fn fates() -> BoxedStrategy<Vec<Fate>> {
    let fate = prop_oneof![
        6 => Just(Fate::Served),
        2 => (1u64..60).prop_map(Fate::Slow),
        1 => Just(Fate::Panics),
        1 => (0u64..120, any::<bool>()).prop_map(|(ms, r)| Fate::Leaves(ms, r)),
    ];
    prop_oneof![1 => Just(vec![Fate::Served]), 1 => vec(fate, 1..6)].boxed()
}

/// Limits that let many through at a time.
fn wide() -> impl Strategy<Value = Traffic> {
    let rule = (300i64..900, 20usize..300, any::<bool>(), any::<bool>())
        .prop_map(|(section, count, filter, field)| Rule { section, count, interval: 0, filter, field, method: 0 });
    (rule, 10usize..160, any::<bool>(), 0u64..300, steps()).prop_map(|(rule, more, idle, gap, steps)| {
        let n = rule.count + more.min(rule.count);
        let burst = |gap, idle, n| Burst { gap, idle, route: 0, n, chain: false, spread: 0, fates: vec![Fate::Served] };
        Traffic { bursts: vec![burst(0, false, n), burst(gap, idle, more.min(rule.count))], rules: vec![rule], steps }
    })
}

fn traffic() -> impl Strategy<Value = Traffic> {
    let rule = (prop_oneof![6 => 60i64..400, 1 => Just(0i64)], 1usize..6, prop_oneof![2 => Just(0i64), 1 => Just(-5i64), 4 => 10i64..80], any::<bool>(), any::<bool>(), prop_oneof![2 => Just(0usize), 1 => 0..NAMES.len()])
        .prop_map(|(section, count, interval, filter, field, method)| Rule { section, count, interval, filter, field, method });
    let burst = (prop_oneof![0u64..60, 100u64..600], any::<bool>(), any::<usize>(), 1usize..11, proptest::bool::weighted(0.25), prop_oneof![Just(0u64), 0u64..20_000], fates())
        .prop_map(|(gap, idle, route, n, chain, spread, fates)| Burst { gap, idle, route: route % 4, n, chain, spread, fates });
    (vec(rule, 1..5), vec(burst, 1..5), steps()).prop_map(|(rules, mut bursts, steps)| {
        // at most some seconds in all
        let mut left: i64 = 3000;
        for b in &mut bursts {
            let r = &rules[b.route % rules.len()];
            while b.n > 1 && *r.earliest(b.n).last().unwrap() > left {
                b.n -= 1;
            }
            left -= *r.earliest(b.n).last().unwrap();
            left = left.max(0);
        }
        Traffic { rules, bursts, steps }
    })
}

fn run14(ctx: &mut Ctx) {
    ctx.rule("Some limited route got more requests than it lets through per section.");
    let passes: Events<Pass> = Events::new();
    let handled: Events<String> = Events::new();
    let (p2, h2) = (passes.clone(), handled.clone());
    set_script(Arc::new(move |stage, ctx| {
        let id = ctx.req_header_get("X-Id").unwrap_or_default();
        match stage {
            Stage::Filter(_) => p2.push(Pass { id, at: Instant::now() }),
            Stage::Handler(n) => {
                if n == 0 {
                    p2.push(Pass { id: id.clone(), at: Instant::now() });
                }
                h2.push(id.clone());
                let fate = ctx.req_header_get("X-Fate").unwrap_or_default();
                if let Some(ms) = fate.strip_prefix("slow ") {
                    thread::sleep(Duration::from_millis(ms.parse().unwrap_or(0)));
                }
                if fate == "panics" {
                    panic!("as told");
                }
                ctx.resp_body(id.into_bytes());
                ctx.response();
            }
        }
    }));
    ctx.run("traffic", ctx.n(240, 6_000), traffic(), |t, cl| case14(&passes, &handled, t, cl));
    ctx.run("wide", ctx.n(24, 800), wide(), |t, cl| case14(&passes, &handled, t, cl));
}
