//! C08 requests that cannot be served, C11 histories of one connection.
use super::codec::ref_b64;
use super::observe::*;
use super::request::{light_head, takes_body, with_body};
use super::response::{check_headers, decode_as, model, op, Op};
use super::web::*;
use super::Prop;
use crate::drv::{Classes, Ctx, Verdict};
use crate::gen;
use crate::net::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use starry::Extend;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::Duration;

// ------------------------------------------------------------------------------------------ C08

pub const C08: Prop = Prop {
    id: "C08",
    shards: 8,
    assumptions: &[
        "of several defects in one request any one's status may be reported",
        "defective requests that carry a body fit into one read (1024 bytes, sent at once): closing a connection with unread data may make TCP discard the answer",
        "cookies without '=' count as undecodable; credentials count as undecodable when they are not Base64, not UTF-8, or have no ':'",
    ],
    run: run08,
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Defect {
    Method(String),
    Version(String),
    /// more segments than any route has
    Path(Vec<String>),
    Host,
    Basic(String),
    Cookies(String),
    Length(String),
}

impl Defect {
    fn status(&self) -> u16 {
        match self {
            Defect::Method(_) => 405,
            Defect::Version(_) => 505,
            Defect::Path(_) => 404,
            Defect::Host => 417,
            Defect::Basic(_) | Defect::Cookies(_) => 400,
            Defect::Length(_) => 411,
        }
    }
}

fn defect() -> BoxedStrategy<Defect> {
    let method = prop_oneof![
        2 => gen::few(&["get", "Get", "GETS", "GE", "POSTS", "FOO", "HEADER", "PROPFIND", "put", "G\u{e9}T", "QUERY", "OPTION", "\u{1}", "GET\t", "UNKNOWN", "HTTP/1.1"]),
        1 => gen::over("ABCDEFGHIJKLMNOPQRSTUVWXYZabc-", 1, 12).prop_map(|m| if METHODS.contains(&m.as_str()) { format!("{}X", m) } else { m }),
        1 => (0usize..12, gen::over("ABCXYZ.", 1, 2), any::<bool>()).prop_map(|(m, x, front)| if front { format!("{}{}", x, METHODS[m]) } else { format!("{}{}", METHODS[m], x) })
            .prop_map(|m| if METHODS.contains(&m.as_str()) { format!("{}X", m) } else { m }),
    ];
    let version = prop_oneof![
        3 => gen::few(&["HTTP/2.0", "HTTP/3.0", "HTTP/0.9", "HTTP/1.2", "HTTP/1.10", "http/1.1", "HTTP/1", "HTTP/11", "HTTP/", "HTTP", "XTTP/1.1", "HTTP/1.1x", "HTTP/1.0.", "xHTTP/1.1", "1.1", "HTTPS/1.1", "HTTP/2"]),
        1 => gen::over("HTP/.0123", 0, 9).prop_map(|v| if v == "HTTP/1.0" || v == "HTTP/1.1" { String::from("HTTP/1.3") } else { v }),
    ].prop_map(|v| v.replace(' ', ""));
    let basic = prop_oneof![
        1 => gen::few(&["Basic !!!!", "Basic dXNlcjpwYXNz=", "Basic dXNlcjpwYXN", "Basic dXNl$jpwYXNz", "basic dXNlcjpwYXNz====", "BASIC dXNl cjpwYXNz", "Basic =", "Basic dXN=cjpwYXNz"]),
        1 => gen::over("abcXYZ01", 1, 12).prop_map(|u| format!("Basic {}", ref_b64(u.as_bytes()))),
        1 => (gen::over("abc", 1, 5), proptest::sample::select(vec![vec![0xffu8], vec![0xc3], vec![0xe4, 0xb8], vec![0xed, 0xa0, 0x80], vec![0xc0, 0x80]]), any::<bool>()).prop_map(|(u, bad, in_user)| {
            let mut v = u.into_bytes();
            if in_user {
                v.extend_from_slice(&bad);
            }
            v.extend_from_slice(b":pass");
            if !in_user {
                v.extend_from_slice(&bad);
            }
            format!("Basic {}", ref_b64(&v))
        }),
    ];
    let cookie = gen::few(&["novalue", "a=b; novalue", "novalue; a=b", "a=b; c; d=e", "a=1;b", "x y", "a:b"]);
    let length = prop_oneof![
        2 => gen::few(&["abc", "12abc", "0x10", "-2", "-3", "-17", "1.5", "1,000", "5 5", "99999999999999999999999", "-99999999999999999999999", "1e3", "\u{664}\u{662}", "--1", "five", "3;", "5, 5"]),
        1 => gen::over("abcxyz", 1, 5),
        1 => (2i64..100_000).prop_map(|n| format!("-{}", n)),
    ];
    prop_oneof![
        method.prop_map(Defect::Method),
        version.prop_map(Defect::Version),
        vec(segment(), MAX_SEGS + 1..MAX_SEGS + 4).prop_map(Defect::Path),
        Just(Defect::Host),
        basic.prop_map(Defect::Basic),
        cookie.prop_map(Defect::Cookies),
        length.prop_map(Defect::Length),
    ].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Broken {
    head: Head,
    body: Vec<u8>,
    defects: Vec<Defect>,
    /// a well-formed request before it, on the same connection
    first: Option<(Head, Body)>,
    cut: Option<u32>,
}

/// A server whose every route has a filter; filters and handlers record.
struct Guarded {
    addr: SocketAddr,
    handlers: Events<Result<(), String>>,
    filters: Events<()>,
}

fn guarded_server() -> Guarded {
    let (handlers, filters) = (Events::new(), Events::new());
    let (h2, f2) = (handlers.clone(), filters.clone());
    set_script(Arc::new(move |stage, ctx| match stage {
        Stage::Filter(_) => f2.push(()),
        Stage::Handler(n) => {
            // each of the questions about the form can be the first; only that one must tell
            let first = crate::drv::hash64(&[ctx.req_path().as_bytes()]) % 4;
            let ask = |ctx: &mut starry::Context, k: u64| match k {
                0 => ctx.req_form("a").map(|_| ()),
                1 => ctx.req_have_form("a").map(|_| ()),
                2 => ctx.req_count_form().map(|_| ()),
                _ => ctx.req_form_file("a").map(|_| ()),
            };
            let r = ask(ctx, first).map_err(|e| e.to_string());
            let _ = ask(ctx, 3 - first);
            h2.push(r);
            ctx.resp_body(format!("handled {}", METHODS[n]).into_bytes());
            ctx.response();
        }
    }));
    let server = launch(2, |s| {
        for (m, name) in METHODS.iter().enumerate() {
            let g = starry_router::Router::new(s, "", None);
            let mut pattern = String::new();
            for i in 0..MAX_SEGS {
                pattern.push_str(&format!("/:p{}", i));
                g.register(name, &pattern, HANDLERS[m], Some(Extend::e1(vec![FILTERS[0]])));
            }
        }
    });
    Guarded { addr: server.addr, handlers, filters }
}

/// Everything after a defective request: one error response of an allowed status, then the end.
fn one_error(rest: &[u8], allowed: &[u16], what: &str) -> Result<u16, Verdict> {
    let end = match find(rest, b"\r\n\r\n") {
        Some(e) => e,
        None => return fail(format!("{}: answered {}", what, show(rest))),
    };
    let r = parse_head(&rest[..end]).map_err(|e| Verdict::Fail(format!("{}: {}", what, e)))?;
    let body = &rest[end + 4..];
    if !allowed.contains(&r.code) {
        return fail(format!("{}: answered {} instead of {:?}", what, show(rest), allowed));
    }
    let phrase = super::tokens::statuses().iter().find(|s| s.0 == r.code).map(|s| s.1.to_string());
    if Some(&r.phrase) != phrase.as_ref() {
        return fail(format!("{}: status line of {}", what, show(rest)));
    }
    match r.all("Content-Length").as_slice() {
        [] => {}
        [n] if n.parse::<usize>().ok() == Some(body.len()) => {}
        n => return fail(format!("{}: Content-Length {:?}: {}", what, n, show(rest))),
    }
    if find(body, b"HTTP/").is_some() {
        return fail(format!("{}: more than one response: {}", what, show(rest)));
    }
    Ok(r.code)
}

fn first_request(c: &mut Conn, h: &Head, b: &Body) -> Result<Resp, Verdict> {
    let mut h = h.clone();
    h.connection = Some(vec!["keep-alive".into()]);
    let (more, body) = with_body(&h, b);
    let mut bytes = h.bytes(&more);
    bytes.extend_from_slice(&body);
    c.send(&bytes);
    let r = must(c.response(METHODS[h.method] == "HEAD"), "the request before")?;
    if r.code != 200 {
        return fail(format!("the request before was answered {}", r.code));
    }
    Ok(r)
}

impl Broken {
    fn build(&self) -> (Vec<u8>, Vec<u16>) {
        let mut method = METHODS[self.head.method].to_string();
        let mut version = self.head.version().to_string();
        let mut target = self.head.target();
        let mut fields = self.head.fields();
        let mut length = None;
        let mut applies = vec![];
        let drop = |fields: &mut Vec<Field>, n: &str| fields.retain(|f| !f.name.eq_ignore_ascii_case(n));
        for d in &self.defects {
            match d {
                Defect::Method(m) => method = m.clone(),
                Defect::Version(v) => version = v.clone(),
                Defect::Path(segs) => {
                    let mut h = self.head.clone();
                    h.segs = segs.clone();
                    target = h.target();
                }
                Defect::Host => drop(&mut fields, "Host"),
                Defect::Basic(t) => {
                    drop(&mut fields, "Authorization");
                    let at = self.head.order as usize % (fields.len() + 1);
                    fields.insert(at, Field::plain(&self.head.spell(2, "Authorization"), t));
                }
                Defect::Cookies(t) => {
                    drop(&mut fields, "Cookie");
                    let at = self.head.order as usize % (fields.len() + 1);
                    fields.insert(at, Field::plain(&self.head.spell(3, "Cookie"), t));
                }
                Defect::Length(t) => {
                    if !takes_body(&self.head) {
                        continue;
                    }
                    length = Some(t.clone())
                }
            }
            applies.push(d.status());
        }
        let mut v = format!("{} {} {}\r\n", method, target, version).into_bytes();
        if length.is_none() && !self.body.is_empty() {
            length = Some(self.body.len().to_string());
        }
        if let Some(l) = length {
            let at = (self.head.order >> 8) as usize % (fields.len() + 1);
            fields.insert(at, Field::plain(&self.head.spell(6, "Content-Length"), &l));
        }
        for f in &fields {
            v.extend_from_slice(format!("{}:{}{}{}\r\n", f.name, f.before, f.value, f.after).as_bytes());
        }
        v.extend_from_slice(b"\r\n");
        if v.len() + self.body.len() <= 1024 {
            v.extend_from_slice(&self.body);
        }
        (v, applies)
    }
}

fn case08(g: &Guarded, b: &Broken, cl: &mut Classes) -> Verdict {
    let go = |cl: &mut Classes| -> Result<bool, Verdict> {
        let (bytes, allowed) = b.build();
        if allowed.is_empty() {
            return Err(Verdict::Skip);
        }
        let head_only = bytes.ends_with(b"\r\n\r\n") && b.body.is_empty();
        if !head_only && bytes.len() > 1024 {
            return Err(Verdict::Skip);
        }
        g.handlers.take();
        g.filters.take();
        let mut c = must(Conn::open(g.addr), "connect")?;
        let mut ran = 0;
        if let Some((h, body)) = &b.first {
            first_request(&mut c, h, body)?;
            ran = 1;
            cl.hit("second-request");
        }
        match b.cut {
            Some(at) if head_only && bytes.len() > 1 => {
                let at = 1 + at as usize % (bytes.len() - 1);
                c.send(&bytes[..at]);
                thread::sleep(Duration::from_micros(300));
                c.send(&bytes[at..]);
            }
            _ => c.send(&bytes),
        }
        let rest = must(c.rest(), &format!("the connection after {}", show(&bytes)))?;
        let code = one_error(&rest, &allowed, &show(&bytes))?;
        if g.handlers.len() != ran || g.filters.len() != ran {
            return fail(format!("{} answered {}: {} handlers and {} filters ran besides {} for the request before", show(&bytes), code, g.handlers.len(), g.filters.len(), ran));
        }
        cl.hit(&format!("answered-{}", code));
        cl.when(b.head.kept_alive(), "asking-to-keep-alive");
        Ok(true)
    };
    settle(go(cl))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Rot {
    /// another first line
    Start(u8),
    /// a part without a name
    Nameless(u8),
    /// a disposition that is not form-data
    Disposition(u8),
}

/// A multipart body broken in its `at`-th part.
fn rotten(parts: &[Part], boundary: &str, rot: &Rot, at: usize, dress: u8) -> (Vec<u8>, String) {
    let good = Body::Multipart { parts: parts.to_vec(), boundary: boundary.into(), quoted: false, dress: dress & !1, epilogue: vec![] };
    let (bytes, t) = good.build();
    let delim = format!("--{}\r\n", boundary).into_bytes();
    // where each part begins: delimiters at line starts
    let mut starts = vec![];
    let mut i = 0;
    for line in bytes.split_inclusive(|b| *b == b'\n') {
        if line == &delim[..] {
            starts.push(i);
        }
        i += line.len();
    }
    let s = starts[at % starts.len()];
    let head_end = s + find(&bytes[s..], b"\r\n\r\n").unwrap();
    let mut v = bytes.clone();
    match rot {
        Rot::Start(k) => {
            let text: &[u8] = [&b"garbage\r\n"[..], b"\r\n", b"--\r\n", b"\n", b"--x\r\n", b"-"][*k as usize % 6];
            v.splice(0..0, text.iter().cloned());
        }
        Rot::Nameless(k) => {
            let head: &[u8] = [&b"Content-Disposition: form-data\r\n\r\n"[..], b"\r\n", b"Content-Type: text/plain\r\n\r\n", b"Content-Disposition: form-data; filename=\"f\"\r\n\r\n"][*k as usize % 4];
            v.splice(s + delim.len()..head_end + 4, head.iter().cloned());
        }
        Rot::Disposition(k) => {
            let head: &[u8] = [&b"Content-Disposition: attachment; name=\"a\"\r\n\r\n"[..], b"Content-Disposition: file; name=\"a\"; filename=\"b\"\r\n\r\n", b"Content-Disposition: ; name=\"a\"\r\n\r\n", b"Content-Disposition: form-datax; name=\"a\"\r\n\r\n"][*k as usize % 4];
            v.splice(s + delim.len()..head_end + 4, head.iter().cloned());
        }
    }
    (v, t.unwrap())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rotten {
    head: Head,
    parts: Vec<Part>,
    boundary: String,
    rot: Rot,
    at: u8,
    dress: u8,
    first: Option<(Head, Body)>,
}

fn case08_multipart(g: &Guarded, r: &Rotten, cl: &mut Classes) -> Verdict {
    let go = |cl: &mut Classes| -> Result<bool, Verdict> {
        let (body, t) = rotten(&r.parts, &r.boundary, &r.rot, r.at as usize, r.dress);
        // a body that starts with the delimiter again, or has a part named otherwise, is not broken
        if matches!(r.rot, Rot::Start(_)) && body.starts_with(format!("--{}\r\n", r.boundary).as_bytes()) {
            return Err(Verdict::Skip);
        }
        let h = &r.head;
        let mut bytes = h.bytes(&[Field::plain(&h.spell(5, "Content-Type"), &t), Field::plain(&h.spell(6, "Content-Length"), &body.len().to_string())]);
        bytes.extend_from_slice(&body);
        g.handlers.take();
        g.filters.take();
        let mut c = must(Conn::open(g.addr), "connect")?;
        let mut ran = 0;
        if let Some((h, b)) = &r.first {
            first_request(&mut c, h, b)?;
            ran = 1;
        }
        c.send(&bytes);
        if h.kept_alive() {
            cl.hit("multipart-kept-alive");
            let e = must(c.response(false), "a broken multipart body")?;
            if e.code != 400 || !e.body.is_empty() {
                return fail(format!("{}: answered {} {}", show(&body), e.code, show(&e.body)));
            }
            // without a length, only the close can end it
            if e.get("Content-Length").is_some() {
                c.finish_sending();
            }
            must(c.expect_close(), "the connection after a broken multipart body")?;
            let seen = g.handlers.take();
            if seen.len() != ran + 1 || seen[ran].is_ok() {
                return fail(format!("{}: the handler was not told: {:?}", show(&body), seen));
            }
            return Ok(true);
        }
        let rest = must(c.rest(), "the connection after a broken multipart body")?;
        one_error(&rest, &[400], &show(&body))?;
        let seen = g.handlers.take();
        if seen.len() != ran + 1 || seen[ran].is_ok() {
            return fail(format!("{}: the handler was not told: {:?}", show(&body), seen));
        }
        cl.hit(match r.rot {
            Rot::Start(_) => "multipart-start",
            Rot::Nameless(_) => "multipart-nameless",
            Rot::Disposition(_) => "multipart-disposition",
        });
        Ok(true)
    };
    settle(go(cl))
}

fn run08(ctx: &mut Ctx) {
    let g = guarded_server();
    ctx.rule("The request has at least one defect that applies to its method.");
    let first = || proptest::option::weighted(0.4, (light_head(any_method()), body(800)));
    let m = || prop_oneof![1 => any_method(), 1 => body_method()].boxed();
    let small = prop_oneof![3 => Just(vec![]), 1 => gen::bytes(200)];
    let case = (light_head(m()), small, prop_oneof![4 => vec(defect(), 1), 1 => vec(defect(), 2..4)], first(), proptest::option::of(any::<u32>()))
        .prop_map(|(head, body, defects, first, cut)| Broken { head, body, defects, first, cut });
    ctx.run("defects", ctx.n(120_000, 2_000_000), case, |b, cl| case08(&g, b, cl));
    let rot = prop_oneof![any::<u8>().prop_map(Rot::Start), any::<u8>().prop_map(Rot::Nameless), any::<u8>().prop_map(Rot::Disposition)];
    let case = (light_head(body_method()), vec(part(3000), 1..4), super::tokens::boundary(), rot, any::<u8>(), any::<u8>(), first())
        .prop_map(|(head, parts, (boundary, _), rot, at, dress, first)| Rotten { head, parts, boundary, rot, at, dress, first });
    ctx.run("broken-multipart", ctx.n(40_000, 800_000), case, |r, cl| case08_multipart(&g, r, cl));
}

// ------------------------------------------------------------------------------------------ C11

pub const C11: Prop = Prop {
    id: "C11",
    shards: 8,
    assumptions: &["clients wait for each answer before the next request (no pipelining); the idle time is not reached"],
    run: run11,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    head: Head,
    body: Body,
    /// whether the handler reads the form
    reads: bool,
    ops: Vec<Op>,
    pause: u64,
    /// where the request is cut in two
    cut: Option<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum End {
    /// the last request does not ask to keep the connection
    Close(Option<String>),
    /// a defective request
    Defect(Defect),
    /// the client stops sending after the last answer
    Quit,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    steps: Vec<Step>,
    end: End,
    packed: bool,
}

struct Stage11 {
    plain: SocketAddr,
    packed: SocketAddr,
    seen: Events<Obs>,
    filters: Events<()>,
    next: Arc<Mutex<(Probes, Vec<Op>)>>,
}

fn stage11() -> Stage11 {
    let seen: Events<Obs> = Events::new();
    let filters: Events<()> = Events::new();
    let next: Arc<Mutex<(Probes, Vec<Op>)>> = Arc::new(Mutex::new((Probes::default(), vec![])));
    let (s2, n2, f2) = (seen.clone(), next.clone(), filters.clone());
    set_script(Arc::new(move |stage, ctx| match stage {
        Stage::Filter(_) => f2.push(()),
        Stage::Handler(n) => {
            let (p, ops) = n2.lock().unwrap().clone();
            s2.push(look(n, ctx, &p));
            for o in &ops {
                o.apply(ctx);
            }
            ctx.response();
        }
    }));
    let plain = launch(2, register_all);
    let packed = launch(2, |s| {
        s.set_compress();
        register_all(s)
    });
    Stage11 { plain: plain.addr, packed: packed.addr, seen, filters, next }
}

fn case11(st: &Stage11, hist: &History, cl: &mut Classes) -> Verdict {
    let go = |cl: &mut Classes| -> Result<bool, Verdict> {
        st.seen.take();
        st.filters.take();
        let mut c = must(Conn::open(if hist.packed { st.packed } else { st.plain }), "connect")?;
        let local = c.local();
        let n = hist.steps.len();
        for (i, s) in hist.steps.iter().enumerate() {
            let mut h = s.head.clone();
            let last = i + 1 == n && matches!(hist.end, End::Close(_));
            h.connection = if last {
                match &hist.end {
                    End::Close(Some(t)) => Some(vec![t.clone()]),
                    _ => None,
                }
            } else {
                Some(vec!["keep-alive".into()])
            };
            let what = format!("request {} of {}", i + 1, n);
            let (mut more, body) = with_body(&h, &s.body);
            if hist.packed {
                more.push(Field::plain("Accept-Encoding", "gzip, deflate"));
            }
            let mut bytes = h.bytes(&more);
            bytes.extend_from_slice(&body);
            let mut p = h.probes();
            s.body.probe(&mut p);
            p.read_form = s.reads;
            // names of the request before must be absent now
            if i > 0 {
                let b = &hist.steps[i - 1];
                let bp = b.head.probes();
                p.headers.extend(bp.headers.into_iter().filter(|x| !p.headers.contains(x)).collect::<Vec<_>>());
                p.params.extend(bp.params.into_iter().filter(|x| !p.params.contains(x)).collect::<Vec<_>>());
                p.cookies.extend(bp.cookies.into_iter().filter(|x| !p.cookies.contains(x)).collect::<Vec<_>>());
                let mut q = Probes::default();
                b.body.probe(&mut q);
                p.form.extend(q.form.into_iter().filter(|x| !p.form.contains(x)).collect::<Vec<_>>());
                p.files.extend(q.files.into_iter().filter(|x| !p.files.contains(x)).collect::<Vec<_>>());
            }
            *st.next.lock().unwrap() = (p.clone(), s.ops.clone());
            match s.cut {
                Some(at) if bytes.len() > 1 => {
                    let at = 1 + at as usize % (bytes.len() - 1);
                    c.send(&bytes[..at]);
                    thread::sleep(Duration::from_micros(300));
                    c.send(&bytes[at..]);
                }
                _ => c.send(&bytes),
            }
            let is_head = METHODS[h.method] == "HEAD";
            let r = must(c.response(is_head), &what)?;
            let mut seen = st.seen.take();
            if seen.len() != 1 {
                return fail(format!("{}: the handlers ran {} times", what, seen.len()));
            }
            let mut want = h.expected(&more, &p, local);
            if s.reads {
                s.body.expect(&mut want, &p, takes_body(&h));
            }
            if let Some(d) = diff(&seen.remove(0), &want) {
                return fail(format!("{}: {}: {}", what, show(&bytes), d));
            }
            let m = model(&s.ops, h.old);
            if (r.code, r.phrase.clone()) != m.status || r.version != m.version {
                return fail(format!("{}: status line {} {} {} instead of {} {:?}", what, r.version, r.code, r.phrase, m.version, m.status));
            }
            let coding = r.get("Content-Encoding").map(|s| s.to_string());
            if coding.is_some() && !hist.packed {
                return fail(format!("{}: encoded as {:?}", what, coding));
            }
            if !(is_head && hist.packed) {
                let plain = Resp { headers: r.headers.iter().filter(|(k, _)| !k.eq_ignore_ascii_case("content-encoding")).cloned().collect(), ..r.clone() };
                check_headers(&plain, &m, if is_head { m.body.len() } else { r.body.len() }).map_err(|e| Verdict::Fail(format!("{}: {}", what, e)))?;
            }
            let expect: &[u8] = if is_head { b"" } else { &m.body };
            let got = match &coding {
                Some(n) if !is_head => decode_as(n, &r.body).map_err(|e| Verdict::Fail(format!("{}: {}", what, e)))?,
                _ => r.body.clone(),
            };
            if got != expect {
                return fail(format!("{}: body {} instead of {}", what, show(&got), show(expect)));
            }
            cl.when(coding.is_some(), "compressed-answer");
            if last {
                must(c.expect_close(), &format!("after {}", what))?;
                cl.hit("closed-by-request");
            } else if !c.buf.is_empty() {
                return fail(format!("{}: bytes after the answer: {}", what, show(&c.buf)));
            } else if s.pause > 0 {
                thread::sleep(Duration::from_micros(s.pause));
            }
        }
        match &hist.end {
            End::Close(_) => {}
            End::Quit => {
                c.finish_sending();
                must(c.expect_close(), "after the client stopped sending")?;
            }
            End::Defect(d) => {
                let mut head = hist.steps[0].head.clone();
                head.connection = Some(vec!["keep-alive".into()]);
                head.headers.clear();
                let b = Broken { head, body: vec![], defects: vec![d.clone()], first: None, cut: None };
                let (bytes, allowed) = b.build();
                if !allowed.is_empty() {
                    c.send(&bytes);
                    let rest = must(c.rest(), "the connection after a defective request")?;
                    one_error(&rest, &allowed, &show(&bytes))?;
                    cl.hit("ended-by-a-defect");
                }
            }
        }
        if !st.seen.take().is_empty() {
            return fail(String::from("a handler ran after the last request"));
        }
        cl.when(n > 8, "over-8-requests");
        cl.when(hist.steps.iter().any(|s| !s.reads && s.body != Body::None), "body-left-unread");
        cl.when(hist.steps.iter().any(|s| !takes_body(&s.head) && s.body != Body::None), "body-on-other-method");
        Ok(n >= 2)
    };
    settle(go(cl))
}

fn history(steps: std::ops::Range<usize>, size: usize) -> impl Strategy<Value = History> {
    let m = prop_oneof![2 => any_method(), 3 => body_method()].boxed();
    let step = (light_head(m), body(size), proptest::bool::weighted(0.7), vec(op(), 0..5), prop_oneof![4 => Just(0u64), 1 => 0u64..3000], proptest::option::weighted(0.3, any::<u32>()))
        .prop_map(|(head, body, reads, ops, pause, cut)| Step { head, body, reads, ops, pause, cut });
    let end = prop_oneof![
        2 => proptest::option::of(gen::few(&["close", "Close", "upgrade"])).prop_map(End::Close),
        1 => Just(End::Quit),
        1 => defect().prop_map(End::Defect),
    ];
    (vec(step, steps), end, any::<bool>()).prop_map(|(steps, end, packed)| History { steps, end, packed })
}

fn run11(ctx: &mut Ctx) {
    let st = stage11();
    ctx.rule("The connection served at least two requests.");
    ctx.run("histories", ctx.n(24_000, 400_000), history(1..10, 3000), |h, cl| case11(&st, h, cl));
    ctx.run("long", ctx.n(400, 8_000), history(30..80, 200), |h, cl| case11(&st, h, cl));
    ctx.run("large", ctx.n(800, 16_000), history(2..5, 300_000), |h, cl| case11(&st, h, cl));
    // a few requests over and over
    ctx.run("marathon", ctx.n(64, 2_000), (history(3..8, 200), 100usize..2_500), |(h, total), cl| {
        let mut h = h.clone();
        h.steps = h.steps.iter().cloned().map(|mut s| {
            s.pause = 0;
            s.cut = None;
            s
        }).cycle().take(*total).collect();
        cl.when(*total > 1000, "over-1000-requests");
        case11(&st, &h, cl)
    });
}
