//! C01: routing against a reference router; C02: filter chains.
use super::web::*;
use super::Prop;
use crate::drv::{Classes, Ctx, Verdict};
use crate::gen;
use crate::net::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use starry::{Extend, Limit, Status};
use std::sync::Arc;

pub const C01: Prop = Prop {
    id: "C01",
    shards: 8,
    assumptions: &[
        "route patterns use segments that are literals other than '?' or ':name' with names distinct within a route; the full pattern is the group's prefix followed by the route's pattern",
        "request targets start with '/' (or are '*'); percent-encoding is not interpreted",
    ],
    run: run01,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct Route {
    pub(super) method: usize,
    /// number of the group's prefix, and whether the group carries an (empty) extension
    pub(super) group: usize,
    pub(super) segs: Vec<Seg>,
    pub(super) ext: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub(super) enum Seg {
    Lit(String),
    Par(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct Table {
    pub(super) groups: Vec<Vec<Seg>>,
    pub(super) routes: Vec<Route>,
}

pub(super) fn pattern(segs: &[Seg]) -> String {
    segs.iter().map(|s| match s {
        Seg::Lit(l) => format!("/{}", l),
        Seg::Par(p) => format!("/:{}", p),
    }).collect()
}

impl Table {
    pub(super) fn full(&self, i: usize) -> Vec<Seg> {
        let r = &self.routes[i];
        let mut v = self.groups[r.group].clone();
        v.extend(r.segs.iter().cloned());
        v
    }

    /// Drops routes the server does not take: duplicates (same method and shape), repeated names.
    fn normalise(mut self) -> Table {
        let mut keep: Vec<Route> = vec![];
        let mut seen: Vec<(usize, Vec<Option<String>>)> = vec![];
        for i in 0..self.routes.len() {
            let full = self.full(i);
            let mut names: Vec<&String> = full.iter().filter_map(|s| if let Seg::Par(p) = s { Some(p) } else { None }).collect();
            let n = names.len();
            names.sort();
            names.dedup();
            let key = (self.routes[i].method, full.iter().map(|s| if let Seg::Lit(l) = s { Some(l.clone()) } else { None }).collect::<Vec<_>>());
            if full.is_empty() || names.len() != n || seen.contains(&key) || keep.len() == MAX_HANDLERS {
                continue;
            }
            seen.push(key);
            keep.push(self.routes[i].clone());
        }
        self.routes = keep;
        self
    }

    /// The reference router: among the matching routes, at the first segment where they take different
    /// alternatives, the alternative some route of this method (under the same earlier alternatives)
    /// registered first wins.
    pub(super) fn select(&self, method: usize, segs: &[&str]) -> Option<usize> {
        let routes: Vec<(usize, Vec<Seg>)> = (0..self.routes.len()).filter(|i| self.routes[*i].method == method).map(|i| (i, self.full(i))).collect();
        let alt = |s: &Seg| match s {
            Seg::Lit(l) => Some(l.clone()),
            Seg::Par(_) => None,
        };
        let mut alive: Vec<usize> = (0..routes.len()).filter(|r| {
            let p = &routes[*r].1;
            p.len() == segs.len() && p.iter().zip(segs).all(|(a, b)| alt(a).map_or(true, |l| l == *b))
        }).collect();
        // all routes sharing the alternatives taken so far decide which alternative came first
        let mut prefix: Vec<Option<String>> = vec![];
        for pos in 0..segs.len() {
            if alive.is_empty() {
                return None;
            }
            let family = |r: &usize| -> bool {
                let p = &routes[*r].1;
                p.len() > pos && p[..pos].iter().map(alt).collect::<Vec<_>>() == prefix
            };
            let order: Vec<Option<String>> = (0..routes.len()).filter(family).map(|r| alt(&routes[r].1[pos])).collect();
            let best = alive.iter().map(|r| order.iter().position(|a| *a == alt(&routes[*r].1[pos])).unwrap()).min().unwrap();
            let choice = order[best].clone();
            alive.retain(|r| alt(&routes[*r].1[pos]) == choice);
            prefix.push(choice);
        }
        alive.first().map(|r| routes[*r].0)
    }
}

const LITS: &[&str] = &["a", "b", "c", "ab", "A", "", "a.b", "x"];
/// literals of other kinds
const ODD: &[&str] = &["é", "文", "%41", "*", "a:b", "{a}", "a+b", "..", "~", "=&;", "a,b"];
pub(super) const NAMES: &[&str] = &["x", "y", "z", "id", "a", "é-_.1", "X"];

fn seg() -> impl Strategy<Value = Seg> {
    prop_oneof![6 => gen::few(LITS).prop_map(Seg::Lit), 1 => gen::few(ODD).prop_map(Seg::Lit), 4 => gen::few(NAMES).prop_map(Seg::Par), 2 => gen::few(&["a", "b"]).prop_map(Seg::Lit)]
}

fn method() -> impl Strategy<Value = usize> {
    prop_oneof![3 => Just(0usize), 1 => Just(1usize), 1 => 0usize..12]
}

pub(super) fn table() -> impl Strategy<Value = Table> {
    let group = vec(seg(), 0..3);
    vec(group, 1..4).prop_flat_map(|mut groups| {
        groups[0].clear();
        let n = groups.len();
        let route = (method(), 0..n, vec(seg(), 1..5), any::<bool>()).prop_map(|(method, group, segs, ext)| Route { method, group, segs, ext });
        (Just(groups), vec(route, 1..14)).prop_map(|(groups, routes)| Table { groups, routes }.normalise())
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct Ask {
    method: usize,
    segs: Vec<String>,
    query: Option<String>,
    /// take method and path of this route (if any), filling parameters from `segs`
    from: Option<u8>,
    /// then change this segment
    twist: Option<(u8, String)>,
    keep_method: bool,
}

fn path_seg() -> impl Strategy<Value = String> {
    prop_oneof![
        4 => gen::few(LITS),
        1 => gen::few(ODD),
        1 => gen::few(&["?x", ":x", ":", "zz", "%41", "a%2Fb", "é", "文", "=&;", "..", "."]).prop_map(|s| s.replace('?', "q")),
        1 => gen::over("abcxyz019-._~!$&'()*+,;=:@%", 1, 12),
    ]
}

pub(super) fn ask() -> impl Strategy<Value = Ask> {
    (method(), vec(path_seg(), 6), proptest::option::weighted(0.2, gen::few(&["", "a=b", "x=/a/b", "a?b/c"])), proptest::option::weighted(0.85, any::<u8>()),
        proptest::option::weighted(0.35, (any::<u8>(), path_seg())), any::<bool>(), 1usize..7)
        .prop_map(|(method, mut segs, query, from, twist, keep_method, n)| {
            if from.is_none() {
                segs.truncate(n);
            }
            Ask { method, segs, query, from, twist, keep_method }
        })
}

pub(super) fn concrete(t: &Table, a: &Ask) -> (usize, Vec<String>) {
    let (mut m, mut segs) = (a.method, a.segs.clone());
    if let (Some(f), false) = (a.from, t.routes.is_empty()) {
        let i = f as usize % t.routes.len();
        if a.keep_method {
            m = t.routes[i].method;
        }
        segs = t.full(i).iter().enumerate().map(|(k, s)| match s {
            Seg::Lit(l) => l.clone(),
            Seg::Par(_) => a.segs[k % a.segs.len()].clone(),
        }).collect();
    }
    if let Some((p, s)) = &a.twist {
        let p = *p as usize % (segs.len() + 2);
        if p < segs.len() {
            segs[p] = s.clone();
        } else if p == segs.len() {
            segs.push(s.clone());
        } else {
            segs.pop();
        }
    }
    if segs.is_empty() {
        segs.push(String::new());
    }
    (m, segs)
}

#[derive(Clone, Debug, PartialEq)]
struct Ran {
    handler: usize,
    count: usize,
    fields: Vec<(String, Option<String>, bool)>,
}

fn case01((t, asks): &(Table, Vec<Ask>), cl: &mut Classes) -> Verdict {
    let ran: Events<Ran> = Events::new();
    let probe: Vec<String> = NAMES.iter().map(|s| s.to_string()).chain([String::new(), String::from("nope")]).collect();
    let (r2, p2) = (ran.clone(), probe.clone());
    set_script(Arc::new(move |stage, ctx| {
        if let Stage::Handler(n) = stage {
            r2.push(Ran { handler: n, count: ctx.req_count_fields(), fields: p2.iter().map(|k| (k.clone(), ctx.req_field(k.as_str()), ctx.req_have_field(k.as_str()))).collect() });
            ctx.resp_body(format!("handler {}", n).into_bytes());
            ctx.response();
        }
    }));
    let server = launch(1, |s| {
        for (i, r) in t.routes.iter().enumerate() {
            let g = starry_router::Router::new(s, &pattern(&t.groups[r.group]), None);
            let ext = if r.ext { Some(Extend::e1(vec![])) } else { None };
            g.register(METHODS[r.method], &pattern(&r.segs), HANDLERS[i], ext);
        }
    });
    let mut interesting = false;
    let mut body = || -> Result<(), Verdict> {
        for a in asks {
            let (m, segs) = concrete(t, a);
            let path: String = segs.iter().map(|s| format!("/{}", s)).collect();
            let target = match &a.query {
                Some(q) => format!("{}?{}", path, q),
                None => path.clone(),
            };
            let strs: Vec<&str> = segs.iter().map(|s| s.as_str()).collect();
            let want = t.select(m, &strs);
            let what = format!("{} {}", METHODS[m], target);
            ran.take();
            let r = must(exchange(server.addr, &request(METHODS[m], &target, &[], b""), METHODS[m] == "HEAD"), &what)?;
            let got = ran.take();
            match want {
                None => {
                    if r.code != 404 || !got.is_empty() {
                        return fail(format!("{}: no route matches, but status {} and handlers {:?}", what, r.code, got));
                    }
                    cl.hit("no-route");
                }
                Some(i) => {
                    let full = t.full(i);
                    let fields: Vec<(String, String)> = full.iter().zip(&segs).filter_map(|(p, s)| if let Seg::Par(n) = p { Some((n.clone(), s.clone())) } else { None }).collect();
                    let wanted = Ran {
                        handler: i,
                        count: fields.len(),
                        fields: probe.iter().map(|k| {
                            let v = fields.iter().find(|(n, _)| n == k).map(|(_, v)| v.clone());
                            (k.clone(), v.clone(), v.is_some())
                        }).collect(),
                    };
                    if got != vec![wanted.clone()] {
                        return fail(format!("{}: ran {:?} instead of {:?} ({})", what, got, wanted, pattern(&full)));
                    }
                    let body = if METHODS[m] == "HEAD" { String::new() } else { format!("handler {}", i) };
                    if r.code != 200 || r.body != body.as_bytes() {
                        return fail(format!("{}: answered {} {:?}", what, r.code, show(&r.body)));
                    }
                    cl.when(fields.len() > 0, "with-parameters");
                    // how many routes of the method match at all
                    let n = (0..t.routes.len()).filter(|j| t.routes[*j].method == m && {
                        let f = t.full(*j);
                        f.len() == segs.len() && f.iter().zip(&segs).all(|(p, s)| match p { Seg::Lit(l) => l == s, Seg::Par(_) => true })
                    }).count();
                    if n > 1 {
                        cl.hit("several-routes-match");
                        interesting = true;
                    }
                    interesting |= fields.len() > 0;
                }
            }
        }
        Ok(())
    };
    let r = body();
    settle(r.map(|_| interesting))
}

/// Many routes, long patterns, long segments.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowded {
    /// number of routes, of shared and of own segments, every how many segments are parameters
    routes: usize,
    shared: usize,
    own: usize,
    every: usize,
    /// which routes to ask for, with values of this length
    asks: Vec<(u32, usize)>,
}

fn case01_crowded(c: &Crowded, cl: &mut Classes) -> Verdict {
    // own segments count in base 26, so that routes share beginnings at every level
    let digits = |mut i: usize| -> Vec<usize> {
        (0..c.own).map(|_| {
            let d = i % 26;
            i /= 26;
            d
        }).collect()
    };
    let is_par = |k: usize| c.every > 0 && k % c.every == c.every - 1;
    let segs = |i: usize| -> Vec<Seg> {
        let mut v: Vec<Seg> = (0..c.shared).map(|k| if is_par(k) { Seg::Par(format!("s{}", k)) } else { Seg::Lit(format!("shared{}", k)) }).collect();
        v.push(Seg::Lit(format!("route{}", i)));
        v.extend(digits(i).into_iter().enumerate().map(|(k, d)| if is_par(k) { Seg::Par(format!("o{}", k)) } else { Seg::Lit(format!("{}", (b'a' + d as u8) as char)) }));
        v
    };
    type Saw = (usize, usize, Vec<Option<String>>);
    let saw: Events<Saw> = Events::new();
    let names: Vec<String> = segs(0).into_iter().filter_map(|s| if let Seg::Par(n) = s { Some(n) } else { None }).collect();
    let (s2, n2) = (saw.clone(), names.clone());
    set_script(Arc::new(move |stage, ctx| {
        if let Stage::Handler(n) = stage {
            s2.push((n, ctx.req_count_fields(), n2.iter().map(|k| ctx.req_field(k.as_str())).collect()));
            ctx.response();
        }
    }));
    let server = launch(1, |s| {
        let g = starry_router::Router::new(s, "", None);
        for i in 0..c.routes {
            g.register("GET", &pattern(&segs(i)), HANDLERS[i % 47], None);
        }
        g.register("GET", "/shared0", HANDLERS[47], None);
    });
    let go = || -> Result<(), Verdict> {
        for (k, (r, len)) in c.asks.iter().enumerate() {
            let i = *r as usize % (c.routes + 1);
            let mut values = vec![];
            let path: String = segs(i).iter().enumerate().map(|(j, s)| match s {
                Seg::Lit(l) => format!("/{}", l),
                Seg::Par(_) => {
                    let v: String = "value-".chars().chain((j + k).to_string().chars()).cycle().take((*len).max(1)).collect();
                    values.push(Some(v.clone()));
                    format!("/{}", v)
                }
            }).collect();
            let what = format!("route {} of {}, path of {} characters", i, c.routes, path.len());
            saw.take();
            let r = must(exchange(server.addr, &request("GET", &path, &[], b""), false), &what)?;
            let got = saw.take();
            let want = if i < c.routes { vec![(i % 47, values.len(), values)] } else { vec![] };
            if got != want || r.code != if i < c.routes { 200 } else { 404 } {
                return fail(format!("{}: answered {} after {:?} instead of {:?}", what, r.code, got, want).chars().take(1500).collect());
            }
        }
        Ok(())
    };
    cl.when(c.routes > 256, "over-256-routes");
    cl.when(c.shared + c.own > 32, "over-32-segments");
    settle(go().map(|_| c.routes > 50 || c.shared + c.own > 16))
}

fn run01(ctx: &mut Ctx) {
    ctx.rule("A request matched a route with parameters or more than one route; crowded: more than 50 routes or 16 segments.");
    ctx.run("routes", ctx.n(30_000, 300_000), (table(), vec(ask(), 4..20)), case01);
    let many = (prop_oneof![1 => 1usize..40, 2 => 40usize..1_500], prop_oneof![2 => 0usize..6, 1 => 6usize..120], prop_oneof![2 => 0usize..5, 1 => 5usize..60], 0usize..5,
        vec((any::<u32>(), prop_oneof![3 => 1usize..20, 1 => 20usize..600, 1 => 600usize..9_000]), 2..20))
        .prop_map(|(mut routes, shared, own, every, mut asks)| {
            if shared + own > 40 {
                routes %= 200;
                asks.iter_mut().for_each(|a| a.1 = a.1.min(300));
            }
            Crowded { routes: routes.max(1), shared, own, every, asks }
        });
    ctx.run("crowded", ctx.n(600, 20_000), many, case01_crowded);
}

// ------------------------------------------------------------------------------------------ C02

pub const C02: Prop = Prop {
    id: "C02",
    shards: 8,
    assumptions: &["no filter is listed twice for one route", "every handler answers; what a request without any answer receives is left open"],
    run: run02,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Act {
    before: Vec<Touch>,
    answer: bool,
    after: Vec<Touch>,
    again: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Touch {
    Add(u8, u8),
    Set(u8, u8),
    Status(u8),
    Body(u8),
}

const STATUSES: [(u16, Status); 5] = [(200, Status::OK), (201, Status::CREATED), (403, Status::FORBIDDEN), (404, Status::NOT_FOUND), (503, Status::SERVICE_UNAVAILABLE)];

fn touch() -> impl Strategy<Value = Touch> {
    prop_oneof![
        3 => (0u8..3, any::<u8>()).prop_map(|(k, v)| Touch::Add(k, v)),
        2 => (0u8..3, any::<u8>()).prop_map(|(k, v)| Touch::Set(k, v)),
        1 => (0u8..5).prop_map(Touch::Status),
        1 => any::<u8>().prop_map(Touch::Body),
    ]
}

fn act() -> impl Strategy<Value = Act> {
    (vec(touch(), 0..3), proptest::bool::weighted(0.12), vec(touch(), 0..2), any::<bool>()).prop_map(|(before, answer, after, again)| Act { before, answer, after, again })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chain {
    /// group filters, per group
    groups: Vec<Vec<usize>>,
    /// group, own filters
    routes: Vec<(usize, Option<Vec<usize>>)>,
    acts: Vec<Act>,
    hacts: Vec<Act>,
    /// route number, keep-alive
    requests: Vec<(u8, bool)>,
    /// rate limits of the routes and of the groups: section, count, interval; all so loose that they hold nobody up
    #[serde(default)]
    limits: (Vec<Option<Loose>>, Vec<Option<Loose>>),
    /// bit n: group n has no prefix of its own, its routes spell out the whole path
    #[serde(default)]
    bare: u8,
}

type Loose = (i8, u8, i8);

fn loose() -> impl Strategy<Value = Loose> {
    (-1i8..3, 1u8..6, -1i8..2)
}

fn limit_of(l: &[Option<Loose>], i: usize) -> Option<Limit> {
    l.get(i).copied().flatten().map(|(s, c, i)| Limit::new(s as i64, c as usize, i as i64))
}

fn extend_of(filters: Option<&[usize]>, limit: Option<Limit>) -> Option<Extend> {
    let fs = filters.map(|f| f.iter().map(|n| FILTERS[*n]).collect::<Vec<_>>());
    match (fs, limit) {
        (None, None) => None,
        (None, Some(l)) => Some(Extend::e2(l)),
        (Some(f), None) => Some(Extend::e1(f)),
        (Some(f), Some(l)) => Some(Extend::e3(f, l)),
    }
}

const NF: usize = 10;

/// Chains of up to 44 filters that mostly let the request pass.
fn long_chain() -> impl Strategy<Value = Chain> {
    let own = proptest::option::weighted(0.9, proptest::sample::subsequence((0..22).collect::<Vec<usize>>(), 0..=22).prop_shuffle());
    let grp = proptest::sample::subsequence((22..44).collect::<Vec<usize>>(), 0..=22).prop_shuffle();
    (vec(grp, 1..4), vec((0usize..3, own), 1..5), vec(act(), 44), vec(act(), 5), vec((any::<u8>(), any::<bool>()), 1..8), any::<u8>(), option_answer()).prop_map(|(groups, mut routes, mut acts, mut hacts, requests, bare, answer)| {
        for r in routes.iter_mut() {
            r.0 %= groups.len();
        }
        for (i, a) in acts.iter_mut().enumerate() {
            a.answer = Some(i) == answer;
        }
        for h in hacts.iter_mut() {
            h.answer = true;
        }
        Chain { groups, routes, acts, hacts, requests, limits: (vec![], vec![]), bare }
    })
}

fn option_answer() -> impl Strategy<Value = Option<usize>> {
    proptest::option::weighted(0.4, 0usize..44)
}

fn chain() -> impl Strategy<Value = Chain> {
    // several requests must not repeat a filter within one route: own and group filters come from disjoint halves
    let own = proptest::option::weighted(0.8, proptest::sample::subsequence((0..5).collect::<Vec<usize>>(), 0..5).prop_shuffle());
    let grp = proptest::sample::subsequence((5..NF).collect::<Vec<usize>>(), 0..5).prop_shuffle();
    (vec(grp, 1..4), vec((0usize..3, own), 1..5), vec(act(), NF), vec(act(), 5), vec((any::<u8>(), any::<bool>()), 1..8), prop_oneof![Just(0u8), any::<u8>()]).prop_map(|(groups, mut routes, acts, mut hacts, requests, bare)| {
        for r in routes.iter_mut() {
            r.0 %= groups.len();
        }
        for h in hacts.iter_mut() {
            h.answer = true;
        }
        Chain { groups, routes, acts, hacts, requests, limits: (vec![], vec![]), bare }
    })
}

fn limited_chain() -> impl Strategy<Value = Chain> {
    (chain(), vec(proptest::option::weighted(0.6, loose()), 5), vec(proptest::option::weighted(0.2, loose()), 3)).prop_map(|(mut c, r, g)| {
        c.limits = (r, g);
        c
    })
}

fn apply(touches: &[Touch], ctx: &mut starry::Context) {
    for t in touches {
        match t {
            Touch::Add(k, v) => ctx.resp_add_header(format!("X-T{}", k), format!("v{}", v)),
            Touch::Set(k, v) => ctx.resp_set_header(format!("X-T{}", k), format!("s{}", v)),
            Touch::Status(s) => ctx.resp_status(STATUSES[*s as usize].1.clone()),
            Touch::Body(b) => ctx.resp_body(vec![*b; *b as usize]),
        }
    }
}

#[derive(Default, Clone, Debug, PartialEq)]
struct Answer {
    headers: [Vec<String>; 3],
    status: u16,
    body: Vec<u8>,
}

fn model(touches: &[Touch], a: &mut Answer) {
    for t in touches {
        match t {
            Touch::Add(k, v) => a.headers[*k as usize].push(format!("v{}", v)),
            Touch::Set(k, v) => a.headers[*k as usize] = vec![format!("s{}", v)],
            Touch::Status(s) => a.status = STATUSES[*s as usize].0,
            Touch::Body(b) => a.body = vec![*b; *b as usize],
        }
    }
}

fn case02(c: &Chain, cl: &mut Classes) -> Verdict {
    let events: Events<(bool, usize)> = Events::new();
    let (e2, c2) = (events.clone(), c.clone());
    set_script(Arc::new(move |stage, ctx| {
        let act = match stage {
            Stage::Filter(n) => {
                e2.push((false, n));
                c2.acts[n].clone()
            }
            Stage::Handler(n) => {
                e2.push((true, n));
                c2.hacts[n].clone()
            }
        };
        apply(&act.before, ctx);
        if act.answer {
            ctx.response();
            apply(&act.after, ctx);
            if act.again {
                ctx.response();
            }
        }
    }));
    let server = launch(1, |s| {
        for (i, (g, own)) in c.routes.iter().enumerate() {
            let gf = if c.groups[*g].is_empty() && i % 2 == 0 { None } else { Some(&c.groups[*g][..]) };
            let ext = extend_of(gf, limit_of(&c.limits.1, *g));
            let bare = c.bare >> g & 1 == 1;
            let r = starry_router::Router::new(s, &if bare { String::new() } else { format!("/g{}", g) }, ext);
            r.register("GET", &if bare { format!("/g{}/r{}", g, i) } else { format!("/r{}", i) }, HANDLERS[i], extend_of(own.as_deref(), limit_of(&c.limits.0, i)));
        }
    });
    let mut interesting = false;
    let mut conn: Option<Conn> = None;
    let mut body = || -> Result<(), Verdict> {
        for (k, (r, keep)) in c.requests.iter().enumerate() {
            let i = *r as usize % c.routes.len();
            let (g, own) = &c.routes[i];
            // what should happen
            let mut want_events = vec![];
            let mut want = Answer { status: 200, ..Answer::default() };
            let mut answered = false;
            for f in own.iter().flatten().chain(&c.groups[*g]) {
                want_events.push((false, *f));
                model(&c.acts[*f].before, &mut want);
                if c.acts[*f].answer {
                    answered = true;
                    break;
                }
            }
            if !answered {
                want_events.push((true, i));
                model(&c.hacts[i].before, &mut want);
            }
            events.take();
            let what = format!("request {} to /g{}/r{}", k, g, i);
            let mut s = match conn.take() {
                Some(s) => s,
                None => must(Conn::open(server.addr), &what)?,
            };
            s.send(&request("GET", &format!("/g{}/r{}", g, i), &[("Connection", if *keep { "keep-alive" } else { "close" })], b""));
            let resp = must(s.response(false), &what)?;
            if *keep {
                conn = Some(s);
            } else {
                must(s.expect_close(), &what)?;
            }
            // the chain has ended once a non-kept connection is closed; otherwise give it a moment
            if *keep && events.len() < want_events.len() {
                wait_until(2000, || events.len() >= want_events.len());
            }
            let got = events.take();
            if got != want_events {
                return fail(format!("{}: ran {} instead of {}", what, shows(&got), shows(&want_events)));
            }
            let have = Answer {
                headers: [0, 1, 2].map(|n| resp.all(&format!("X-T{}", n)).iter().map(|s| s.to_string()).collect()),
                status: resp.code,
                body: resp.body.clone(),
            };
            if have != want {
                return fail(format!("{}: answered {:?} instead of {:?}", what, have, want));
            }
            cl.when(answered, "filter-answers");
            cl.when(c.bare >> g & 1 == 1 && !c.groups[*g].is_empty(), "group-without-prefix");
            let limited = limit_of_route(c, i);
            cl.when(limited, "limited-route");
            cl.when(limited && want_events.len() > 2, "limited-route-long-chain");
            cl.when(!answered && want_events.len() > 2, "long-chain");
            interesting |= want_events.len() >= 2;
        }
        if let Some(mut s) = conn.take() {
            s.finish_sending();
            must(s.expect_close(), "end of the connection")?;
        }
        Ok(())
    };
    let r = body();
    settle(r.map(|_| interesting))
}

fn limit_of_route(c: &Chain, i: usize) -> bool {
    c.limits.0.get(i).map_or(false, |l| l.is_some())
}

fn shows(e: &[(bool, usize)]) -> String {
    e.iter().map(|(h, n)| if *h { format!("handler{}", n) } else { format!("filter{}", n) }).collect::<Vec<_>>().join(" ")
}

fn run02(ctx: &mut Ctx) {
    ctx.rule("At least two stages (filters, handler) ran for a request.");
    ctx.run("chains", ctx.n(30_000, 300_000), chain(), case02);
    ctx.run("limited", ctx.n(2_000, 20_000), limited_chain(), case02);
    ctx.run("long", ctx.n(4_000, 40_000), long_chain(), case02);
}
