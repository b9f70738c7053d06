//! C03 request heads, C04 segmentation, C05 urlencoded forms, C06 multipart forms.
use super::observe::*;
use super::web::*;
use super::Prop;
use crate::drv::{Classes, Ctx, Verdict};
use crate::gen;
use crate::net::*;
use crate::signals::interrupted;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::thread;
use std::time::Duration;

pub const C03: Prop = Prop {
    id: "C03",
    shards: 8,
    assumptions: &[
        "header names are used in one letter case each; the names are distinct tokens, and the values carry no control characters other than inner tabs",
        "cookie names are not the attribute names; a Basic user name is not empty; percent-encoding is not interpreted",
        "the query parameter or header sent last wins where a name repeats",
    ],
    run: run03,
};

/// One request on a connection of its own; returns what the handler saw and the response.
fn deliver(w: &Watch, pieces: &[(&[u8], u64)], probes: &Probes, head: bool) -> Result<(Obs, Resp, std::net::SocketAddr), Verdict> {
    deliver_then(w, pieces, false, probes, head)
}

/// The same; the client may tell with the last piece that nothing follows.
fn deliver_then(w: &Watch, pieces: &[(&[u8], u64)], ends: bool, probes: &Probes, head: bool) -> Result<(Obs, Resp, std::net::SocketAddr), Verdict> {
    w.probe(probes.clone());
    let mut c = must(Conn::open(w.addr), "connect")?;
    let local = c.local();
    for (p, pause) in pieces {
        c.send(p);
        if *pause > 0 {
            thread::sleep(Duration::from_micros(*pause));
        }
    }
    if ends {
        c.finish_sending();
    }
    let r = must(c.response(head), if ends { "request, sending then ended" } else { "request" })?;
    c.finish_sending();
    must(c.expect_close(), "after the response")?;
    let mut seen = w.seen.take();
    if seen.len() != 1 {
        return fail(format!("the handlers ran {} times, answer {} {}", seen.len(), r.code, show(&r.body)));
    }
    Ok((seen.remove(0), r, local))
}

fn check_answer(h: &Head, r: &Resp) -> Result<(), Verdict> {
    let want = if METHODS[h.method] == "HEAD" { String::new() } else { format!("{} {}", METHODS[h.method], h.path()) };
    if r.code != 200 || r.body != want.as_bytes() {
        return fail(format!("answered {} {:?} instead of 200 {:?}", r.code, show(&r.body), want));
    }
    Ok(())
}

fn case03(w: &Watch, h: &Head, cl: &mut Classes) -> Verdict {
    let p = h.probes();
    let go = || -> Result<bool, Verdict> {
        let bytes = h.bytes(&[]);
        let (got, r, local) = deliver(w, &[(&bytes, 0)], &p, METHODS[h.method] == "HEAD")?;
        if let Some(d) = diff(&got, &h.expected(&[], &p, local)) {
            return fail(format!("{}: {}", show(&bytes), d));
        }
        check_answer(h, &r)?;
        Ok(h.query.is_some() || h.cookies.is_some() || h.auth.is_some() || h.headers.len() > 1)
    };
    cl.when(h.auth.is_some(), "authorization");
    cl.when(h.websocket(), "websocket");
    cl.when(h.upgrade.is_some() && !h.websocket(), "other-upgrade");
    cl.when(h.cookies.is_some(), "cookies");
    cl.when(h.query.is_some(), "query");
    cl.when(h.old, "http-1.0");
    cl.when(h.case != 0, "unusual-letter-case");
    cl.when(h.bytes(&[]).len() > 1024, "head-over-1024-bytes");
    settle(go())
}

fn run03(ctx: &mut Ctx) {
    let w = watch(2);
    ctx.rule("The head has a query, cookies, credentials or several headers.");
    ctx.run("heads", ctx.n(160_000, 2_000_000), head(any_method()), |h, cl| case03(&w, h, cl));
    let cookie = (super::cookies::name(), super::cookies::plain_value().prop_map(|v| v.trim().to_string()));
    let many = (head(any_method()), vec(field(), 8..120), proptest::option::of(vec(piece(), 0..100)), proptest::option::of((vec(cookie, 1..60), any::<bool>())), proptest::option::of(gen::big_size(60_000)));
    ctx.run("long-heads", ctx.n(4_000, 80_000), many.prop_map(|(mut h, fields, query, cookies, pad)| {
        h.headers.extend(fields);
        h.query = query;
        h.cookies = cookies;
        if let Some(n) = pad {
            h.headers.push(Field::plain("X-Pad", &"pad: ".chars().cycle().take(n).collect::<String>().trim().to_string()));
        }
        h
    }), |h, cl| case03(&w, h, cl));
    // a client of the other family
    let w = watch6(2);
    ctx.run("ipv6", ctx.n(2_000, 40_000), head(any_method()), |h, cl| {
        cl.when(w.addr.is_ipv6(), "over-ipv6");
        case03(&w, h, cl)
    });
}

// ------------------------------------------------------------------------------------------ C05, C06

pub fn with_body(h: &Head, b: &Body) -> (Vec<Field>, Vec<u8>) {
    let (bytes, t) = b.build();
    let mut more = vec![];
    if let Some(t) = t {
        more.push(Field::plain(&h.spell(5, "Content-Type"), &t));
    }
    if *b != Body::None {
        more.push(Field::plain(&h.spell(6, "Content-Length"), &bytes.len().to_string()));
    }
    if h.order & 1 == 1 {
        more.reverse();
    }
    (more, bytes)
}

pub fn takes_body(h: &Head) -> bool {
    ["POST", "PUT", "PATCH"].contains(&METHODS[h.method])
}

fn case_form(w: &Watch, h: &Head, b: &Body) -> Verdict {
    let mut p = h.probes();
    b.probe(&mut p);
    let go = || -> Result<bool, Verdict> {
        let (more, body) = with_body(h, b);
        let mut bytes = h.bytes(&more);
        let split = bytes.len();
        bytes.extend_from_slice(&body);
        let pieces: Vec<(&[u8], u64)> = if h.order & 6 == 0 { vec![(&bytes[..split], 300), (&bytes[split..], 0)] } else { vec![(&bytes[..], 0)] };
        let (got, r, local) = deliver(w, &pieces, &p, METHODS[h.method] == "HEAD")?;
        let mut want = h.expected(&more, &p, local);
        b.expect(&mut want, &p, takes_body(h));
        if let Some(d) = diff(&got, &want) {
            return fail(format!("{} … body {}: {}", show(&bytes), show(&body), d));
        }
        check_answer(h, &r)?;
        Ok(takes_body(h) && (b.form().len() + b.files().len()) > 0)
    };
    settle(go())
}

pub const C05: Prop = Prop {
    id: "C05",
    shards: 8,
    assumptions: &["form bodies are UTF-8 text; percent-encoding and '+' are not interpreted (the library hands out the text as sent)"],
    run: run05,
};

pub fn light_head(methods: BoxedStrategy<usize>) -> BoxedStrategy<Head> {
    (head(methods), any::<bool>()).prop_map(|(mut h, slim)| {
        if slim {
            h.headers.truncate(1);
            h.cookies = None;
            h.auth = None;
            h.upgrade = None;
        }
        h
    }).boxed()
}

fn run05(ctx: &mut Ctx) {
    let w = watch(2);
    ctx.rule("A POST, PUT or PATCH whose form has at least one field.");
    let m = prop_oneof![5 => body_method(), 1 => any_method()].boxed();
    ctx.run("forms", ctx.n(150_000, 2_000_000), (light_head(m.clone()), (form_pieces(), any::<u8>()).prop_map(|(p, t)| Body::Form(p, t))), |(h, b), cl| {
        let n = b.build().0.len();
        cl.when(n > 1024, "body-over-1024-bytes");
        cl.when(!takes_body(h), "method-without-body");
        case_form(&w, h, b)
    });
    ctx.run("large", ctx.n(3_000, 50_000), (light_head(m.clone()), (big_form(), any::<u8>()).prop_map(|(p, t)| Body::Form(p, t))), |(h, b), cl| {
        cl.when(b.build().0.len() > 65536, "over-64-KiB");
        case_form(&w, h, b)
    });
    ctx.run("other-types", ctx.n(16_000, 200_000), (light_head(m), raw()), |(h, b), _| match case_form(&w, h, b) {
        Verdict::Ok(_) => Verdict::Ok(takes_body(h)),
        v => v,
    });
}

pub const C06: Prop = Prop {
    id: "C06",
    shards: 8,
    assumptions: &[
        "bodies start with the first delimiter (no preamble) and end with the closing one; no line of a part's content is itself a delimiter",
        "plain fields are UTF-8 text; a backslash in a name only stands before a quote or an ordinary character",
    ],
    run: run06,
};

fn run06(ctx: &mut Ctx) {
    let w = watch(2);
    ctx.rule("At least one part reached a POST, PUT or PATCH.");
    let m = prop_oneof![9 => body_method(), 1 => any_method()].boxed();
    ctx.run("multipart", ctx.n(150_000, 2_000_000), (light_head(m.clone()), multipart(9000)), |(h, b), cl| {
        if let Body::Multipart { parts, .. } = b {
            cl.when(parts.len() > 1, "several-parts");
            cl.when(parts.iter().any(|p| p.content.0.iter().any(|c| matches!(c, Chunk::Mark(_)))), "boundary-like-content");
            cl.when(parts.iter().any(|p| p.file.is_some()) && parts.iter().any(|p| p.file.is_none()), "fields-and-files");
        }
        case_form(&w, h, b)
    });
    let many = (multipart(60), vec(part(60), 20..800)).prop_map(|(mut b, more)| {
        if let Body::Multipart { parts, .. } = &mut b {
            parts.extend(more.into_iter().enumerate().map(|(i, mut p)| {
                if i % 4 != 0 {
                    p.name.push_str(&i.to_string());
                }
                p
            }));
        }
        b
    });
    ctx.run("many-parts", ctx.n(1_200, 24_000), (light_head(m.clone()), many), |(h, b), cl| {
        cl.when(matches!(b, Body::Multipart { parts, .. } if parts.len() > 256), "over-256-parts");
        case_form(&w, h, b)
    });
    ctx.run("large", ctx.n(2_000, 40_000), (light_head(m), multipart(3 << 20)), |(h, b), cl| {
        cl.when(b.build().0.len() > 65536, "over-64-KiB");
        case_form(&w, h, b)
    });
}

// ------------------------------------------------------------------------------------------ C04

pub const C04: Prop = Prop {
    id: "C04",
    shards: 8,
    assumptions: &[
        "pieces are separately written, mostly with pauses of up to 2 ms, in the sub-check `slow` of up to 5.2 s (thorough: 31 s); the kernel may still join some of them",
        "slow requests go to a server whose idle time is far longer than the pauses",
    ],
    run: run04,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cuts {
    /// how lines end: 0 CRLF, 1 LF, otherwise mixed by these bits
    eol: u64,
    /// cut points, as (kind, number)
    cuts: Vec<(u8, u32)>,
    pauses: Vec<u64>,
    /// the client ends sending with the last piece
    #[serde(default)]
    ends: bool,
}

fn cuts() -> impl Strategy<Value = Cuts> {
    let eol = prop_oneof![3 => Just(0u64), 2 => Just(u64::MAX), 1 => any::<u64>()];
    (eol, vec((0u8..5, any::<u32>()), 1..10), vec(prop_oneof![Just(200u64), Just(600), Just(2000)], 10), proptest::bool::weighted(0.25)).prop_map(|(eol, cuts, pauses, ends)| Cuts { eol, cuts, pauses, ends })
}

impl Cuts {
    fn eol(&self, n: usize) -> &'static str {
        if (self.eol >> (n % 64)) & 1 == 1 { "\n" } else { "\r\n" }
    }

    /// Positions strictly inside `len`, favouring line ends, the head's end and buffer sizes.
    fn positions(&self, bytes: &[u8], head: usize) -> Vec<usize> {
        let len = bytes.len();
        let ends: Vec<usize> = (0..head).filter(|i| bytes[*i] == b'\n').collect();
        let mut v: Vec<usize> = self.cuts.iter().map(|(kind, n)| {
            let n = *n as usize;
            match kind {
                0 => n % len,
                // around a line end of the head
                1 => ends[n % ends.len()] + (n / 7) % 3,
                // around the end of the head
                2 => (head + (n % 9)).saturating_sub(4),
                // a multiple of the read buffer, give or take one
                3 => 1024 * (1 + n % 3) + (n / 5) % 3 - 1,
                _ => n % head,
            }
        }).filter(|p| *p > 0 && *p < len).collect();
        v.sort();
        v.dedup();
        v
    }
}

fn same_response(a: &Resp, b: &Resp) -> bool {
    let sorted = |r: &Resp| {
        let mut h = r.headers.clone();
        h.sort();
        h
    };
    a.code == b.code && a.version == b.version && a.body == b.body && sorted(a) == sorted(b)
}

fn case04(w: &Watch, h: &Head, b: &Body, variants: &[Cuts], cl: &mut Classes) -> Verdict {
    let mut p = h.probes();
    b.probe(&mut p);
    let is_head = METHODS[h.method] == "HEAD";
    let go = |cl: &mut Classes| -> Result<bool, Verdict> {
        let (more, body) = with_body(h, b);
        let mut whole = h.bytes(&more);
        whole.extend_from_slice(&body);
        let (base, base_r, base_local) = deliver(w, &[(&whole, 0)], &p, is_head)?;
        let mut want = h.expected(&more, &p, base_local);
        b.expect(&mut want, &p, takes_body(h));
        if let Some(d) = diff(&base, &want) {
            return fail(format!("in one piece, {}: {}", show(&whole), d));
        }
        let mut cut = 0;
        for v in variants {
            let mut bytes = h.bytes_with(&more, |n| v.eol(n));
            let head_len = bytes.len();
            bytes.extend_from_slice(&body);
            let pos = v.positions(&bytes, head_len);
            let mut pieces: Vec<(&[u8], u64)> = vec![];
            let mut from = 0;
            for (i, at) in pos.iter().enumerate() {
                pieces.push((&bytes[from..*at], v.pauses[i % v.pauses.len()]));
                from = *at;
            }
            pieces.push((&bytes[from..], 0));
            cut += pieces.len() - 1;
            cl.when(v.eol != 0, "other-line-ends");
            cl.when(pos.iter().any(|x| *x < head_len), "cut-inside-head");
            cl.when(pos.iter().any(|x| *x >= head_len), "cut-inside-body");
            cl.when(v.ends, "sending-ended");
            let (mut got, r, local) = deliver_then(w, &pieces, v.ends, &p, is_head)?;
            if got.client != (local.ip().to_string(), local.port()) {
                return fail(format!("client {:?}", got.client));
            }
            got.client = base.client.clone();
            if let Some(d) = diff(&got, &base) {
                return fail(format!("cut at {:?}, {}: {}", pos, show(&bytes), d));
            }
            if !same_response(&base_r, &r) {
                return fail(format!("cut at {:?}, {}: answered {:?} instead of {:?}", pos, show(&bytes), r, base_r));
            }
        }
        Ok(cut > 0)
    };
    settle(go(cl))
}

/// A connection that ends inside the head.
fn case04_short(w: &Watch, h: &Head, b: &Body, v: &Cuts, at: u32, cl: &mut Classes) -> Verdict {
    let go = |cl: &mut Classes| -> Result<bool, Verdict> {
        w.probe(Probes::default());
        let (more, _) = with_body(h, b);
        let bytes = h.bytes_with(&more, |n| v.eol(n));
        let last = if v.eol(h.fields().len() + more.len() + 1) == "\n" { 1 } else { 2 };
        // everything before the last line break is an incomplete head
        let at = at as usize % (bytes.len() - last + 1);
        let mut c = must(Conn::open(w.addr), "connect")?;
        let half = at / 2;
        c.send(&bytes[..half]);
        if v.cuts.len() % 2 == 0 {
            thread::sleep(Duration::from_micros(300));
        }
        c.send(&bytes[half..at]);
        c.finish_sending();
        let rest = must(c.rest(), "short head")?;
        let ran = w.seen.take();
        if !ran.is_empty() {
            return fail(format!("a handler ran for {}", show(&bytes[..at])));
        }
        if rest.is_empty() {
            cl.hit("just-closed");
            return Ok(at > 0);
        }
        let end = find(&rest, b"\r\n\r\n").ok_or_else(|| Verdict::Fail(format!("answered {}", show(&rest))))?;
        let r = parse_head(&rest[..end]).map_err(Verdict::Fail)?;
        if r.code != 400 || end + 4 != rest.len() {
            return fail(format!("{} answered {}", show(&bytes[..at]), show(&rest)));
        }
        cl.hit("answered-400");
        Ok(at > 0)
    };
    settle(go(cl))
}

/// The same request over several connections at a time, each with long pauses of its own.
fn case04_slow(w: &Watch, h: &Head, b: &Body, lines: &[Vec<(u8, u32, u64)>], cl: &mut Classes) -> Verdict {
    let mut p = h.probes();
    b.probe(&mut p);
    let is_head = METHODS[h.method] == "HEAD";
    let go = |cl: &mut Classes| -> Result<bool, Verdict> {
        let (more, body) = with_body(h, b);
        let mut bytes = h.bytes(&more);
        let head_len = bytes.len();
        bytes.extend_from_slice(&body);
        let bytes = &bytes;
        let (base, base_r, _) = deliver(w, &[(bytes, 0)], &p, is_head)?;
        w.probe(p.clone());
        let answers: Vec<Result<(Resp, std::net::SocketAddr), Verdict>> = thread::scope(|s| {
            let hs: Vec<_> = lines.iter().map(|line| s.spawn(move || {
                let mut c = must(Conn::open(w.addr), "connect")?;
                let local = c.local();
                // cuts in the head or anywhere; the pauses follow each piece, a first one may precede everything
                let mut cuts: Vec<(usize, u64)> = line.iter().map(|(kind, n, ms)| (*n as usize % if *kind == 0 { head_len } else { bytes.len() }, *ms)).collect();
                cuts.sort();
                let mut from = 0;
                for (at, ms) in cuts {
                    c.send(&bytes[from..at]);
                    from = at;
                    thread::sleep(Duration::from_millis(ms));
                }
                c.send(&bytes[from..]);
                let r = must(c.response(is_head), "slowly sent request")?;
                c.finish_sending();
                must(c.expect_close(), "after the response")?;
                Ok((r, local))
            })).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Verdict::Fail("client thread panicked".into())))).collect()
        });
        let mut clients = vec![];
        for (a, line) in answers.into_iter().zip(lines) {
            let (r, local) = a.map_err(|v| match v {
                Verdict::Fail(m) => Verdict::Fail(format!("{} cut with pauses {:?}: {}", show(bytes), line, m)),
                v => v,
            })?;
            if !same_response(&base_r, &r) {
                return fail(format!("{} cut with pauses {:?}: answered {:?} instead of {:?}", show(bytes), line, r, base_r));
            }
            clients.push((local.ip().to_string(), local.port()));
            cl.when(line.iter().any(|l| l.2 > 5_000), "pause-over-5-s");
        }
        let seen = w.seen.take();
        if seen.len() != lines.len() {
            return fail(format!("the handlers ran {} times for {} requests", seen.len(), lines.len()));
        }
        for mut got in seen {
            match clients.iter().position(|c| *c == got.client) {
                Some(i) => clients.remove(i),
                None => return fail(format!("client {:?} instead of one of {:?}", got.client, clients)),
            };
            got.client = base.client.clone();
            if let Some(d) = diff(&got, &base) {
                return fail(format!("slowly sent, {}: {}", show(bytes), d));
            }
        }
        Ok(true)
    };
    settle(go(cl))
}

fn run04(ctx: &mut Ctx) {
    let w = watch_with(32, |s| s.set_keepalive(600_000));
    let long = ctx.n(5_200, 31_000) as u64;
    let line = prop_oneof![
        3 => vec((0u8..2, any::<u32>(), prop_oneof![Just(300u64), Just(1_100), Just(2_100)]), 1..4),
        2 => (0u8..2, any::<u32>()).prop_map(move |(k, n)| vec![(k, n, long)]),
    ];
    let slow_m = prop_oneof![3 => body_method(), 1 => any_method()].boxed();
    ctx.run("slow", ctx.n(24, 200), (light_head(slow_m), body(3000), vec(line, 12..24)), |(h, b, l), cl| case04_slow(&w, h, b, l, cl));
    ctx.rule("The request was cut at least once (for ended connections: inside the head).");
    let m = prop_oneof![5 => body_method(), 1 => any_method()].boxed();
    ctx.run("cuts", ctx.n(20_000, 400_000), (light_head(m.clone()), body(3000), vec(cuts(), 1..4)), |(h, b, v), cl| case04(&w, h, b, v, cl));
    // waiting for the rest is interrupted by signals
    ctx.run("signals", ctx.n(1_600, 60_000), (light_head(m.clone()), body(3000), vec(cuts(), 1..3), 200u64..4_000), |(h, b, v, us), cl| interrupted(*us, || case04(&w, h, b, v, cl)));
    ctx.run("large", ctx.n(600, 20_000), (light_head(m.clone()), body(300_000), vec(cuts(), 1..3)), |(h, b, v), cl| case04(&w, h, b, v, cl));
    let get = Just(Head { method: 0, segs: vec!["a".into(), "b".into()], query: None, fragment: None, old: false, headers: vec![], cookies: None, auth: None, connection: None, upgrade: None, order: 0, case: 0, host: "localhost:80".into() });
    // long heads: padded so that the end of the head falls around multiples of the read buffer
    ctx.run("head-sizes", ctx.n(1_600, 40_000), (get, 0usize..6, 0i32..12, cuts(), gen::few(&["", "x=y"])), |(h, k, off, v, q), cl| {
        let mut h = h.clone();
        if !q.is_empty() {
            h.query = Some(vec![q.clone()]);
        }
        h.headers.push(Field::plain("X-Pad", ""));
        let len = h.bytes_with(&[], |n| v.eol(n)).len() as i32;
        let target = 1024 * (*k as i32) + 6 - *off;
        let pad = if target > len { target - len } else { (target - len).rem_euclid(1024) };
        h.headers[0].value = "p".repeat(pad as usize);
        let mut plain = v.clone();
        plain.cuts = vec![(3, 0)];
        case04(&w, &h, &Body::None, &[plain, v.clone()], cl)
    });
    ctx.run("ended-inside-head", ctx.n(10_000, 100_000), (light_head(m), body(50), cuts(), any::<u32>()), |(h, b, v, at), cl| case04_short(&w, h, b, v, *at, cl));
}
