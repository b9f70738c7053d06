//! C09 the response on the wire, C10 compression negotiation.
use super::codec::{independent, Codec};
use super::cookies;
use super::observe::field;
use super::tokens::statuses;
use super::web::*;
use super::Prop;
use crate::drv::{Classes, Ctx, Verdict};
use crate::gen;
use crate::net::*;
use flate2::Compression;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use starry::header::{AcceptEncoding, ContentType};
use starry::{Context, Version};
use std::collections::BTreeMap;
use std::io::Write;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex, OnceLock};

pub const C09: Prop = Prop {
    id: "C09",
    shards: 8,
    assumptions: &[
        "handlers do not set Content-Length, Connection, Transfer-Encoding or Content-Encoding themselves, use each header name in one letter case, and values without control characters or surrounding blanks",
        "a response may carry Date, Server, Connection and Keep-Alive besides what the handler set",
    ],
    run: run09,
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Status(usize),
    Version(bool),
    Add(String, String, bool),
    Set(String, String, bool),
    Cookie(cookies::Spec),
    Type(usize),
    Body(Vec<u8>),
    Slice(usize),
    Bodies(Vec<u8>, usize),
    Slices(usize, usize),
    /// takes a copy of the response and changes the copy
    Peek(u8),
    Respond,
}

/// Bodies that live as long as the process.
fn fixed() -> &'static Vec<&'static [u8]> {
    static T: OnceLock<Vec<&'static [u8]>> = OnceLock::new();
    T.get_or_init(|| {
        let leak = |v: Vec<u8>| -> &'static [u8] { Box::leak(v.into_boxed_slice()) };
        vec![
            b"", b"x", b"hello, world", b"\r\n\r\n", b"\0\xff\xfe", leak(gen::noise(300, 7)), leak(vec![b'a'; 2000]),
            leak(gen::noise(5000, 9)), leak((0..40_000u32).map(|i| (i / 50) as u8).collect()), leak(b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc".to_vec()),
        ]
    })
}

fn content_type(n: usize) -> (ContentType, String) {
    match n % 10 {
        0 => (ContentType::TEXT_HTML, "text/html".into()),
        1 => (ContentType::TEXT_PLAIN, "text/plain".into()),
        2 => (ContentType::IMAGE_PNG, "image/png".into()),
        3 => (ContentType::APPLICATION_JSON, "application/json".into()),
        4 => (ContentType::APPLICATION_OCTET_STREAM, "application/octet-stream".into()),
        5 => (ContentType::APPLICATION_XHTML_XML, "application/xhtml+xml".into()),
        6 => (ContentType::TEXT_XML, "text/xml".into()),
        7 => (ContentType::IMAGE_GIF, "image/gif".into()),
        8 => (ContentType::APPLICATION_PDF, "application/pdf".into()),
        _ => (ContentType::IMAGE_JPEG, "image/jpeg".into()),
    }
}

impl Op {
    pub fn apply(&self, ctx: &mut Context) {
        match self {
            Op::Status(n) => ctx.resp_status(statuses()[*n].2.clone()),
            Op::Version(old) => ctx.resp_version(if *old { Version::HTTP_10 } else { Version::HTTP_11 }),
            Op::Add(k, v, s) => if *s { ctx.resp_add_header_str(k, v) } else { ctx.resp_add_header(k.clone(), v.clone()) },
            Op::Set(k, v, s) => if *s { ctx.resp_set_header_str(k, v) } else { ctx.resp_set_header(k.clone(), v.clone()) },
            Op::Cookie(c) => ctx.resp_add_cookie(c.build()),
            Op::Type(t) => ctx.resp_content_type(content_type(*t).0),
            Op::Body(b) => ctx.resp_body(b.clone()),
            Op::Slice(n) => ctx.resp_body_slice(fixed()[*n]),
            Op::Bodies(b, t) => ctx.resp_bodies(b.clone(), content_type(*t).0),
            Op::Slices(n, t) => ctx.resp_body_slices(fixed()[*n], content_type(*t).0),
            Op::Peek(n) => {
                let mut r = ctx.get_response();
                r.add_header_str("X-A", "from the copy");
                r.set_header_str("X-B", "from the copy");
                r.set_content_type(ContentType::IMAGE_GIF);
                if n % 2 == 0 {
                    r.write(b"the copy's body".to_vec(), AcceptEncoding::GZip);
                } else {
                    r.write_slice_type(b"the copy's body", ContentType::TEXT_XML, AcceptEncoding::None);
                }
                if n % 3 == 0 {
                    let _ = r.body();
                }
            }
            Op::Respond => ctx.response(),
        }
    }
}

#[derive(Debug, PartialEq)]
pub struct Model {
    pub status: (u16, String),
    pub version: String,
    pub headers: BTreeMap<String, Vec<String>>,
    pub cookies: Vec<cookies::Spec>,
    pub ctype: String,
    pub body: Vec<u8>,
}

pub fn model(ops: &[Op], request_old: bool) -> Model {
    let ver = |old: bool| if old { "HTTP/1.0".to_string() } else { "HTTP/1.1".to_string() };
    let mut m = Model { status: (200, "OK".into()), version: ver(request_old), headers: BTreeMap::new(), cookies: vec![], ctype: "text/plain".into(), body: vec![] };
    for op in ops {
        match op {
            Op::Status(n) => {
                let (c, p, _) = &statuses()[*n];
                m.status = (*c, p.to_string());
            }
            Op::Version(old) => m.version = ver(*old),
            Op::Add(k, v, _) => m.headers.entry(k.clone()).or_default().push(v.clone()),
            Op::Set(k, v, _) => {
                m.headers.insert(k.clone(), vec![v.clone()]);
            }
            Op::Cookie(c) => m.cookies.push(c.clone()),
            Op::Type(t) => m.ctype = content_type(*t).1,
            Op::Body(b) => {
                m.body = b.clone();
                m.ctype = "text/plain".into();
            }
            Op::Slice(n) => {
                m.body = fixed()[*n].to_vec();
                m.ctype = "text/plain".into();
            }
            Op::Bodies(b, t) => {
                m.body = b.clone();
                m.ctype = content_type(*t).1;
            }
            Op::Slices(n, t) => {
                m.body = fixed()[*n].to_vec();
                m.ctype = content_type(*t).1;
            }
            Op::Peek(_) => {}
            Op::Respond => return m,
        }
    }
    m
}

pub fn op() -> BoxedStrategy<Op> {
    let name = || prop_oneof![
        3 => gen::few(&["X-A", "X-B", "Location", "Cache-Control", "ETag", "Vary", "WWW-Authenticate", "Link", "Allow"]),
        1 => gen::over(gen::TOKEN, 1, 10).prop_map(|s| format!("X-{}", s)),
    ];
    let value = || field().prop_map(|f| f.value);
    prop_oneof![
        3 => (0..statuses().len()).prop_map(Op::Status),
        1 => any::<bool>().prop_map(Op::Version),
        6 => (name(), value(), any::<bool>()).prop_map(|(k, v, s)| Op::Add(k, v, s)),
        4 => (name(), value(), any::<bool>()).prop_map(|(k, v, s)| Op::Set(k, v, s)),
        2 => cookies::spec().prop_map(Op::Cookie),
        2 => (0usize..10).prop_map(Op::Type),
        3 => gen::bytes(3000).prop_map(Op::Body),
        2 => (0..fixed().len()).prop_map(Op::Slice),
        2 => (gen::bytes(3000), 0usize..10).prop_map(|(b, t)| Op::Bodies(b, t)),
        1 => (0..fixed().len(), 0usize..10).prop_map(|(b, t)| Op::Slices(b, t)),
        1 => gen::edge_size(120_000).prop_map(|n| Op::Body(gen::noise(n, n as u64))),
        1 => any::<u8>().prop_map(Op::Peek),
        1 => Just(Op::Respond),
    ].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ask {
    method: usize,
    old: bool,
    keep: bool,
    ops: Vec<Op>,
}

fn ask() -> BoxedStrategy<Ask> {
    (0usize..12, proptest::bool::weighted(0.2), any::<bool>(), vec(op(), 0..14)).prop_map(|(method, old, keep, ops)| Ask { method, old, keep, ops }).boxed()
}

/// A server whose handlers do what the current case says.
struct Puppet {
    addr: SocketAddr,
    ops: Arc<Mutex<Vec<Op>>>,
    packed: SocketAddr,
}

fn puppet() -> Puppet {
    let ops: Arc<Mutex<Vec<Op>>> = Arc::new(Mutex::new(vec![]));
    let o2 = ops.clone();
    set_script(Arc::new(move |stage, ctx| {
        if let Stage::Handler(_) = stage {
            let ops = o2.lock().unwrap().clone();
            for o in &ops {
                o.apply(ctx);
            }
            ctx.response();
        }
    }));
    let reg = |s: &mut starry::HttpServer| {
        for (m, name) in METHODS.iter().enumerate() {
            starry_router::Router::new(s, "", None).register(name, "/r", HANDLERS[m], None);
        }
    };
    let plain = launch(2, reg);
    let packed = launch(2, |s| {
        s.set_compress();
        reg(s)
    });
    Puppet { addr: plain.addr, ops, packed: packed.addr }
}

const OURS: &[&str] = &["date", "server", "connection", "keep-alive"];

pub fn check_headers(r: &Resp, m: &Model, length: usize) -> Result<(), String> {
    let mut want = m.headers.clone();
    want.insert("Content-Type".into(), vec![m.ctype.clone()]);
    want.insert("Content-Length".into(), vec![length.to_string()]);
    let mut got: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut cookies = vec![];
    for (k, v) in &r.headers {
        if k.eq_ignore_ascii_case("set-cookie") {
            cookies.push(v.clone());
        } else {
            got.entry(k.clone()).or_default().push(v.clone());
        }
    }
    // the library's own headers are known by any letter case
    let lower = |m: BTreeMap<String, Vec<String>>| -> BTreeMap<String, Vec<String>> {
        m.into_iter().filter(|(k, _)| !OURS.contains(&k.to_ascii_lowercase().as_str()))
            .map(|(k, v)| (if k.eq_ignore_ascii_case("content-type") || k.eq_ignore_ascii_case("content-length") { k.to_ascii_lowercase() } else { k }, v)).collect()
    };
    let (got, want) = (lower(got), lower(want));
    if got != want {
        return Err(format!("headers {:?} instead of {:?}", got, want));
    }
    if cookies.len() != m.cookies.len() {
        return Err(format!("cookies {:?} instead of {:?}", cookies, m.cookies));
    }
    for (t, c) in cookies.iter().zip(&m.cookies) {
        c.matches(t)?;
    }
    Ok(())
}

fn case09(p: &Puppet, a: &Ask, cl: &mut Classes) -> Verdict {
    let go = || -> Result<bool, Verdict> {
        *p.ops.lock().unwrap() = a.ops.clone();
        let m = model(&a.ops, a.old);
        let head = METHODS[a.method] == "HEAD";
        let mut c = must(Conn::open(p.addr), "connect")?;
        c.send(format!("{} /r HTTP/1.{}\r\nHost: h\r\nAccept-Encoding: gzip\r\n{}\r\n", METHODS[a.method], if a.old { 0 } else { 1 }, if a.keep { "Connection: keep-alive\r\n" } else { "" }).as_bytes());
        let r = must(c.response(head), "request")?;
        if a.keep {
            c.finish_sending();
        }
        must(c.expect_close(), "after the response")?;
        if (r.code, r.phrase.clone()) != m.status || r.version != m.version {
            return fail(format!("status line {} {} {} instead of {} {:?}", r.version, r.code, r.phrase, m.version, m.status));
        }
        check_headers(&r, &m, m.body.len()).map_err(Verdict::Fail)?;
        let want: &[u8] = if head { b"" } else { &m.body };
        if r.body != want {
            return fail(format!("body {} instead of {}", show(&r.body), show(want)));
        }
        Ok(a.ops.len() >= 2)
    };
    let writes = a.ops.iter().filter(|o| matches!(o, Op::Body(_) | Op::Slice(_) | Op::Bodies(..) | Op::Slices(..))).count();
    cl.when(writes > 1, "several-bodies-written");
    cl.when(a.ops.contains(&Op::Respond), "answered-before-the-end");
    cl.when(METHODS[a.method] == "HEAD", "head");
    cl.when(a.ops.iter().any(|o| matches!(o, Op::Cookie(_))), "cookies");
    settle(go())
}

fn run09(ctx: &mut Ctx) {
    let p = puppet();
    ctx.rule("The handler made at least two response-building calls.");
    ctx.run("responses", ctx.n(120_000, 2_000_000), ask(), |a, cl| case09(&p, a, cl));
    ctx.run("large", ctx.n(2_000, 30_000), (ask(), gen::big_size(6 << 20), any::<(u64, u8)>(), any::<u16>()), |(a, n, (seed, kind), at), cl| {
        let mut a = a.clone();
        a.ops.insert(*at as usize % (a.ops.len() + 1), Op::Body(gen::bulk(*n, *seed, *kind)));
        cl.when(model(&a.ops, a.old).body.len() > 1 << 20, "over-a-mebibyte");
        case09(&p, &a, cl)
    });
    // many headers and cookies
    let small = prop_oneof![
        4 => (gen::over(gen::TOKEN, 1, 10), field().prop_map(|f| f.value), any::<bool>()).prop_map(|(k, v, s)| Op::Add(format!("X-{}", k), v, s)),
        2 => (gen::few(&["X-A", "X-B", "Link"]), field().prop_map(|f| f.value), any::<bool>()).prop_map(|(k, v, s)| Op::Add(k, v, s)),
        1 => (gen::over(gen::TOKEN, 1, 3), field().prop_map(|f| f.value), any::<bool>()).prop_map(|(k, v, s)| Op::Set(format!("X-{}", k), v, s)),
        2 => cookies::spec().prop_map(Op::Cookie),
    ];
    let many = (ask(), vec(small, 30..250), 0usize..30).prop_map(|(mut a, more, long)| {
        a.ops.retain(|o| *o != Op::Respond);
        a.ops.extend(more);
        if long % 3 == 0 {
            a.ops.push(Op::Add("X-Long".into(), "v".repeat(900 * (long + 1)), true));
        }
        a
    });
    ctx.run("many", ctx.n(3_000, 60_000), many, |a, cl| case09(&p, a, cl));
    // every status with every method, with and without a body
    let mut all = vec![];
    for s in 0..statuses().len() {
        for method in 0..12 {
            let mut ops = vec![Op::Status(s)];
            if (s + method) % 2 == 0 {
                ops.push(Op::Body(b"body".to_vec()));
            }
            all.push(Ask { method, old: (s + method) % 3 == 0, keep: method % 2 == 0, ops });
        }
    }
    ctx.each("every-status", all, |a, cl| case09(&p, a, cl));
}

// ------------------------------------------------------------------------------------------ C10

pub const C10: Prop = Prop {
    id: "C10",
    shards: 8,
    assumptions: &[
        "encodings listed in capitals or with a weight may be used or not, except that a weight of 0 forbids them",
        "a body counts as one compression shortens when flate2 at its default level makes it shorter by more than an eighth and 32 bytes; closer cases may go either way",
        "\"deflate\" is raw DEFLATE or zlib-wrapped",
    ],
    run: run10,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pack {
    method: usize,
    compress: bool,
    accept: Option<Vec<(String, String)>>,
    writes: Vec<Op>,
    keep: bool,
}

fn pack() -> BoxedStrategy<Pack> {
    let names = gen::few(&["gzip", "deflate", "zlib", "br", "identity", "compress", "zstd", "x-gzip", "gzipped", "gzip;q=0.5", "deflate;q=0", "GZIP", "", "deflate64"]);
    let plain = gen::few(&["gzip", "deflate", "zlib", "br", "identity"]);
    let sep = gen::few(&[",", ", ", " , ", ",  "]);
    let list = prop_oneof![3 => vec((plain, sep.clone()), 1..5), 1 => vec((names, sep), 1..6)];
    let text = (gen::over("abcde \n", 1, 12), gen::edge_size(60_000)).prop_map(|(p, n)| p.bytes().cycle().take(n).collect::<Vec<u8>>());
    let data = || prop_oneof![2 => gen::bytes(4000), 2 => text.clone(), 1 => gen::edge_size(60_000).prop_map(|n| gen::noise(n, 3))];
    let write = prop_oneof![
        3 => data().prop_map(Op::Body),
        2 => (data(), 0usize..10).prop_map(|(b, t)| Op::Bodies(b, t)),
        2 => (0..fixed().len()).prop_map(Op::Slice),
        2 => (0..fixed().len(), 0usize..10).prop_map(|(b, t)| Op::Slices(b, t)),
        1 => (0usize..10).prop_map(Op::Type),
        1 => Just(Op::Respond),
    ];
    let method = prop_oneof![3 => Just(0usize), 1 => 0usize..12];
    (method, proptest::bool::weighted(0.8), option::weighted(0.9, list), vec(write, 0..4), any::<bool>())
        .prop_map(|(method, compress, accept, writes, keep)| Pack { method, compress, accept, writes, keep }).boxed()
}

fn encoder_len(c: Codec, data: &[u8]) -> usize {
    let l = Compression::default();
    match c {
        Codec::Gzip => {
            let mut e = flate2::write::GzEncoder::new(vec![], l);
            e.write_all(data).unwrap();
            e.finish().unwrap().len()
        }
        Codec::Zlib => {
            let mut e = flate2::write::ZlibEncoder::new(vec![], l);
            e.write_all(data).unwrap();
            e.finish().unwrap().len()
        }
        Codec::Deflate => {
            let mut e = flate2::write::DeflateEncoder::new(vec![], l);
            e.write_all(data).unwrap();
            e.finish().unwrap().len()
        }
    }
}

pub fn decode_as(name: &str, data: &[u8]) -> Result<Vec<u8>, String> {
    let whole = |c: Codec| independent(c, data).and_then(|(d, n)| if n == data.len() { Ok(d) } else { Err(format!("{} bytes after the end", data.len() - n)) });
    match name {
        "gzip" => whole(Codec::Gzip),
        "zlib" => whole(Codec::Zlib),
        "deflate" => whole(Codec::Deflate).or_else(|e| whole(Codec::Zlib).map_err(|_| e)),
        n => Err(format!("unknown encoding {:?}", n)),
    }
}

fn case10(p: &Puppet, a: &Pack, cl: &mut Classes) -> Verdict {
    let go = |cl: &mut Classes| -> Result<bool, Verdict> {
        *p.ops.lock().unwrap() = a.writes.clone();
        let m = model(&a.writes, false);
        let accept: Option<String> = a.accept.as_ref().map(|l| {
            let mut s = String::new();
            for (i, (n, sep)) in l.iter().enumerate() {
                if i > 0 {
                    s.push_str(sep);
                }
                s.push_str(n);
            }
            s.trim().to_string()
        });
        let listed: Vec<&str> = a.accept.iter().flatten().map(|(n, _)| n.as_str()).collect();
        let ask = |method: &str| -> Result<Resp, Verdict> {
            let mut c = must(Conn::open(if a.compress { p.packed } else { p.addr }), "connect")?;
            let acc = accept.as_ref().map(|s| format!("Accept-Encoding: {}\r\n", s)).unwrap_or_default();
            c.send(format!("{} /r HTTP/1.1\r\nHost: h\r\n{}{}\r\n", method, acc, if a.keep { "Connection: keep-alive\r\n" } else { "" }).as_bytes());
            let r = must(c.response(method == "HEAD"), "request")?;
            if a.keep {
                c.finish_sending();
            }
            must(c.expect_close(), "after the response")?;
            Ok(r)
        };
        let method = METHODS[a.method];
        let r = ask(method)?;
        let named = r.all("Content-Encoding").iter().map(|s| s.to_string()).collect::<Vec<_>>();
        let what = format!("accepting {:?}, compression {}", accept, a.compress);
        if named.len() > 1 {
            return fail(format!("{}: encodings {:?}", what, named));
        }
        let named = named.first().cloned();
        // the listed encodings, in order of preference
        let best = ["gzip", "deflate", "zlib"].into_iter().find(|n| listed.contains(n));
        let maybe = |n: &str| listed.iter().any(|l| {
            let mut parts = l.splitn(2, ';');
            parts.next().unwrap_or("").eq_ignore_ascii_case(n) && parts.next() != Some("q=0")
        });
        if let Some(n) = &named {
            if !a.compress || !maybe(n) {
                return fail(format!("{}: encoded as {:?}", what, n));
            }
            if best.map_or(false, |b| b != n.as_str() && (b == "gzip" || n == "zlib")) {
                return fail(format!("{}: encoded as {:?} though {:?} is listed", what, n, best));
            }
        }
        if method == "HEAD" {
            // the same head as for GET
            let g = ask("GET")?;
            for h in ["Content-Length", "Content-Type", "Content-Encoding"] {
                if g.all(h) != r.all(h) {
                    return fail(format!("{}: HEAD has {} {:?}, GET {:?}", what, h, r.all(h), g.all(h)));
                }
            }
            return Ok(false);
        }
        let body = match &named {
            Some(n) => decode_as(n, &r.body).map_err(|e| Verdict::Fail(format!("{}: {} body does not decode: {}", what, n, e)))?,
            None => r.body.clone(),
        };
        if body != m.body {
            return fail(format!("{}: body (as {:?}) {} instead of {}", what, named, show(&body), show(&m.body)));
        }
        check_headers(&Resp { headers: r.headers.iter().filter(|(k, _)| !k.eq_ignore_ascii_case("content-encoding")).cloned().collect(), ..r.clone() }, &m, r.body.len())
            .map_err(|e| Verdict::Fail(format!("{}: {}", what, e)))?;
        if let (true, None, Some(b)) = (a.compress, &named, best) {
            let c = match b {
                "gzip" => Codec::Gzip,
                "deflate" => Codec::Deflate,
                _ => Codec::Zlib,
            };
            let n = encoder_len(c, &m.body);
            if n + 32 + m.body.len() / 8 < m.body.len() {
                return fail(format!("{}: a body of {} bytes, which {} makes {}, was not encoded", what, m.body.len(), b, n));
            }
        }
        if let Some(n) = &named {
            cl.hit(&format!("encoded-{}", n));
        }
        cl.when(a.compress && best.is_some() && named.is_none(), "left-unencoded");
        cl.when(!a.compress && best.is_some(), "compression-disabled");
        Ok(a.compress && best.is_some() && !m.body.is_empty())
    };
    settle(go(cl))
}

fn run10(ctx: &mut Ctx) {
    let p = puppet();
    ctx.rule("Compression is on, a supported encoding is listed and the body is not empty.");
    ctx.run("negotiation", ctx.n(100_000, 1_000_000), pack(), |a, cl| case10(&p, a, cl));
    ctx.run("large", ctx.n(1_600, 25_000), (pack(), gen::big_size(3 << 20), any::<(u64, u8)>()), |(a, n, (seed, kind)), cl| {
        let mut a = a.clone();
        a.writes.push(Op::Body(gen::bulk(*n, *seed, *kind)));
        cl.when(*n > 1 << 20, "over-a-mebibyte");
        case10(&p, &a, cl)
    });
}
