//! C17 the client's request, C18 the client's reading of a response, C27 client against server.
use super::codec::ref_b64;
use super::cookies;
use super::observe::{field, Field};
use super::response::{model, op, Op};
use super::tokens::statuses;
use super::web::*;
use super::Prop;
use crate::drv::{guarded, Classes, Ctx, Verdict};
use crate::gen;
use crate::net::*;
use crate::signals::interrupted;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use starry::header::Cookie;
use starry::HttpClient;
use std::collections::BTreeMap;
use std::io::{ErrorKind, Read, Write};
use std::net::{IpAddr, Ipv4Addr, Shutdown, SocketAddr, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::{Arc, Mutex};
use std::thread::{self, JoinHandle};
use std::time::Duration;

// ---------------------------------------------------------------- the call

/// What a call of the client gave.
#[derive(Debug, Clone)]
struct Got {
    code: u16,
    body: Vec<u8>,
    cookies: Result<Vec<Cookie>, String>,
}

type Outcome = Result<Result<Got, String>, String>;

/// Calls the client in a thread of its own: Err is a panic, Ok(Err) an error it reports.
fn call(url: &str) -> JoinHandle<Outcome> {
    let url = url.to_string();
    thread::spawn(move || {
        guarded(|| {
            HttpClient::get(&url).map_err(|e| e.to_string()).map(|mut r| {
                // the status can only be seen in the debug output
                let text = format!("{:?}", r);
                let code = text.split("status: ").nth(1).and_then(|t| t.split(' ').next()).and_then(|t| t.parse().ok()).unwrap_or(0);
                let cookies = r.read_set_cookies().map_err(|e| e.to_string());
                Got { code, body: r.body(), cookies }
            })
        })
    })
}

fn joined(h: JoinHandle<Outcome>) -> Outcome {
    match h.join() {
        Ok(o) => o,
        Err(_) => Err("panicked".into()),
    }
}

// ---------------------------------------------------------------- listening

struct Post {
    listeners: Vec<(TcpListener, SocketAddr)>,
}

#[derive(Debug)]
struct Visit {
    at: SocketAddr,
    bytes: Vec<u8>,
}

fn listen(addr: SocketAddr) -> Option<(TcpListener, SocketAddr)> {
    let l = TcpListener::bind(addr).ok()?;
    l.set_nonblocking(true).ok()?;
    let a = l.local_addr().ok()?;
    Some((l, a))
}

impl Post {
    /// Waits for connections until the call has returned; `answer` deals with each.
    fn attend(&self, h: &JoinHandle<Outcome>, answer: &mut dyn FnMut(&mut TcpStream) -> bool) -> Result<Vec<Visit>, Verdict> {
        let mut visits = vec![];
        let d = Deadline::ms(PATIENCE_MS);
        loop {
            let over = h.is_finished();
            for (l, at) in &self.listeners {
                while let Ok((s, _)) = l.accept() {
                    visits.push(Visit { at: *at, bytes: host(s, answer, &d) });
                }
            }
            if over {
                return Ok(visits);
            }
            if d.over() {
                return Err(Verdict::Slow(format!("the client has not returned; visits so far: {:?}", visits)));
            }
            let mut fds: Vec<libc::pollfd> = self.listeners.iter().map(|(l, _)| libc::pollfd { fd: l.as_raw_fd(), events: libc::POLLIN, revents: 0 }).collect();
            unsafe {
                libc::poll(fds.as_mut_ptr(), fds.len() as libc::nfds_t, 1);
            }
        }
    }
}

/// Reads one request head, answers it, and returns everything the client sent.
fn host(mut s: TcpStream, answer: &mut dyn FnMut(&mut TcpStream) -> bool, d: &Deadline) -> Vec<u8> {
    let _ = s.set_nonblocking(false);
    let _ = s.set_nodelay(true);
    let _ = s.set_read_timeout(Some(Duration::from_millis(20)));
    let _ = s.set_write_timeout(Some(Duration::from_secs(20)));
    let mut bytes = vec![];
    let mut tmp = [0u8; 4096];
    let mut read = |s: &mut TcpStream, bytes: &mut Vec<u8>, until_head: bool, d: &Deadline| loop {
        if until_head && find(bytes, b"\r\n\r\n").is_some() {
            return;
        }
        match s.read(&mut tmp) {
            Ok(0) => return,
            Ok(n) => bytes.extend_from_slice(&tmp[..n]),
            Err(e) if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::TimedOut => {
                if d.over() {
                    return;
                }
            }
            Err(e) if e.kind() == ErrorKind::Interrupted => {}
            Err(_) => return,
        }
    };
    read(&mut s, &mut bytes, true, d);
    if answer(&mut s) {
        // closed with a reset
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of_val(&l) as libc::socklen_t);
        }
        return bytes;
    }
    let _ = s.shutdown(Shutdown::Write);
    // the client closes once it has read the response
    read(&mut s, &mut bytes, false, &Deadline::ms(2000));
    bytes
}

// ------------------------------------------------------------------------------------------ C17

pub const C17: Prop = Prop {
    id: "C17",
    shards: 8,
    assumptions: &[
        "user names contain none of ':' '/' '?' '#' '@' and are not empty; passwords contain none of '/' '?' '#' '@'",
        "hosts are IPv4 addresses of this machine or \"localhost\"; https is checked for its default port only (the library does not speak TLS)",
        "a port given as nothing after ':' may be refused or mean the default port",
    ],
    run: run17,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Link {
    /// 0 none, 1 http, 2 https
    scheme: u8,
    user: Option<(String, String)>,
    /// which listener the URL leads to; see `Places`
    place: u8,
    zeros: bool,
    path: String,
    query: Option<Vec<String>>,
    fragment: Option<String>,
}

/// 0 own:p1, 1 own:p2, 2 second:p1, 3 localhost:p3, 4 default port, 5 a port where nobody listens
struct Places {
    post: Post,
    own: [SocketAddr; 3],
    local: SocketAddr,
    http: Option<SocketAddr>,
    https: Option<SocketAddr>,
    dead: SocketAddr,
}

fn places() -> Places {
    let p1 = free_addr();
    let p2 = free_addr();
    let dead = free_addr();
    let o = own_ip().octets();
    let second = SocketAddr::new(IpAddr::V4(Ipv4Addr::new(127, 129 + (o[1] & 0x3f), o[2], o[3])), p1.port());
    let mut listeners = vec![];
    let mut need = |a: SocketAddr| -> SocketAddr {
        match listen(a) {
            Some((l, a)) => {
                listeners.push((l, a));
                a
            }
            None => {
                eprintln!("cannot listen at {}", a);
                std::process::exit(3)
            }
        }
    };
    let own = [need(p1), need(p2), need(second)];
    let local = need("127.0.0.1:0".parse().unwrap());
    let mut may = |port: u16| -> Option<SocketAddr> {
        let (l, a) = listen(SocketAddr::new(IpAddr::V4(own_ip()), port))?;
        listeners.push((l, a));
        Some(a)
    };
    let (http, https) = (may(80), may(443));
    Places { post: Post { listeners }, own, local, http, https, dead }
}

/// What a URL denotes.
#[derive(Debug, PartialEq)]
struct Meaning {
    host: String,
    port: u16,
    default_port: bool,
    user: Option<(String, String)>,
    path: String,
    query: Vec<(String, String)>,
}

fn pairs(text: &str) -> Vec<(String, String)> {
    text.split('&').filter(|p| !p.is_empty()).map(|p| match p.split_once('=') {
        Some((k, v)) => (k.to_string(), v.to_string()),
        None => (p.to_string(), String::new()),
    }).collect()
}

impl Link {
    fn host(&self, p: &Places) -> (String, Option<u16>) {
        match self.place {
            0 => (p.own[0].ip().to_string(), Some(p.own[0].port())),
            1 => (p.own[1].ip().to_string(), Some(p.own[1].port())),
            2 => (p.own[2].ip().to_string(), Some(p.own[2].port())),
            3 => ("localhost".into(), Some(p.local.port())),
            4 => (own_ip().to_string(), None),
            _ => (p.dead.ip().to_string(), Some(p.dead.port())),
        }
    }

    fn text(&self, p: &Places) -> String {
        let mut s = ["", "http://", "https://"][self.scheme as usize % 3].to_string();
        if let Some((u, w)) = &self.user {
            s.push_str(&format!("{}:{}@", u, w));
        }
        let (host, port) = self.host(p);
        s.push_str(&host);
        if let Some(port) = port {
            s.push_str(&if self.zeros { format!(":0{}", port) } else { format!(":{}", port) });
        }
        s.push_str(&self.path);
        if let Some(q) = &self.query {
            s.push('?');
            s.push_str(&q.join("&"));
        }
        if let Some(f) = &self.fragment {
            s.push('#');
            s.push_str(f);
        }
        s
    }

    fn meaning(&self, p: &Places) -> Meaning {
        let (host, port) = self.host(p);
        Meaning {
            host,
            port: port.unwrap_or(if self.scheme == 2 { 443 } else { 80 }),
            default_port: port.is_none(),
            user: self.user.clone(),
            path: if self.path.is_empty() { "/".into() } else { self.path.clone() },
            query: pairs(&self.query.clone().unwrap_or_default().join("&")),
        }
    }
}

/// Values of each name, in order.
fn grouped(q: &[(String, String)]) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in q {
        m.entry(k.clone()).or_default().push(v.clone());
    }
    m
}

/// The bytes of one visit must be the one GET that was denoted.
fn check_visit(v: &Visit, m: &Meaning) -> Result<(), String> {
    let end = find(&v.bytes, b"\r\n\r\n").ok_or_else(|| format!("no complete request arrived: {}", show(&v.bytes)))?;
    if v.bytes.len() != end + 4 {
        return Err(format!("bytes after the request: {}", show(&v.bytes)));
    }
    let text = std::str::from_utf8(&v.bytes[..end]).map_err(|_| format!("the request is not text: {}", show(&v.bytes)))?;
    if text.replace("\r\n", "").contains(|c| c == '\r' || c == '\n') {
        return Err(format!("stray line ends: {:?}", text));
    }
    let mut lines = text.split("\r\n");
    let first: Vec<&str> = lines.next().unwrap_or("").split(' ').collect();
    if first.len() != 3 || first[0] != "GET" || (first[2] != "HTTP/1.1" && first[2] != "HTTP/1.0") {
        return Err(format!("request line {:?}", first));
    }
    let (path, query) = match first[1].split_once('?') {
        Some((p, q)) => (p, pairs(q)),
        None => (first[1], vec![]),
    };
    if path != m.path {
        return Err(format!("path {:?} instead of {:?}", path, m.path));
    }
    if grouped(&query) != grouped(&m.query) {
        return Err(format!("parameters {:?} instead of {:?}", query, m.query));
    }
    let mut hosts = vec![];
    let mut auths = vec![];
    for l in lines {
        let (k, val) = l.split_once(':').ok_or_else(|| format!("header line {:?}", l))?;
        let val = val.trim_matches(|c| c == ' ' || c == '\t');
        match k.to_ascii_lowercase().as_str() {
            "host" => hosts.push(val.to_string()),
            "authorization" => auths.push(val.to_string()),
            "content-length" if val == "0" => {}
            "content-length" | "transfer-encoding" | "cookie" | "upgrade" | "expect" => return Err(format!("unexpected header {:?}", l)),
            _ => {}
        }
    }
    let full = format!("{}:{}", m.host, m.port);
    if !(hosts == [full.clone()] || (m.default_port && hosts == [m.host.clone()])) {
        return Err(format!("Host {:?} instead of {:?}", hosts, full));
    }
    let want: Vec<String> = m.user.iter().map(|(u, p)| format!("Basic {}", ref_b64(format!("{}:{}", u, p).as_bytes()))).collect();
    if auths != want {
        return Err(format!("Authorization {:?} instead of {:?}", auths, want));
    }
    Ok(())
}

const GREETING: &[u8] = b"HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nContent-Length: 7\r\n\r\nwelcome";

fn greet(s: &mut TcpStream) -> bool {
    let _ = s.write_all(GREETING);
    false
}

/// The URL must lead to exactly the request denoted.
fn expect_request(p: &Places, url: &str, m: &Meaning) -> Result<(), Verdict> {
    let h = call(url);
    let visits = p.post.attend(&h, &mut greet)?;
    let out = joined(h).map_err(|e| Verdict::Fail(format!("{:?}: the client {}", url, e)))?;
    if visits.len() != 1 {
        return fail(format!("{:?}: {} connections ({:?}), result {:?}", url, visits.len(), visits, out));
    }
    let v = &visits[0];
    let ip = if m.host == "localhost" { "127.0.0.1".to_string() } else { m.host.clone() };
    if (v.at.ip().to_string(), v.at.port()) != (ip, m.port) {
        return fail(format!("{:?}: connected to {} ", url, v.at));
    }
    check_visit(v, m).map_err(|e| Verdict::Fail(format!("{:?}: {}", url, e)))?;
    match out {
        Ok(g) if g.code == 200 && g.body == b"welcome" => Ok(()),
        o => fail(format!("{:?}: the client returned {:?}", url, o)),
    }
}

/// The URL must be refused without any connection.
fn expect_refusal(p: &Places, url: &str) -> Result<(), Verdict> {
    let h = call(url);
    let visits = p.post.attend(&h, &mut greet)?;
    let out = joined(h).map_err(|e| Verdict::Fail(format!("{:?}: the client {}", url, e)))?;
    if !visits.is_empty() || out.is_ok() {
        return fail(format!("{:?} was not refused: connections {:?}, result {:?}", url, visits, out));
    }
    Ok(())
}

fn link_case(p: &Places, l: &Link, cl: &mut Classes) -> Verdict {
    let go = || -> Result<bool, Verdict> {
        let m = l.meaning(p);
        let url = l.text(p);
        if l.place == 5 {
            expect_refusal(p, &url)?;
            return Ok(true);
        }
        if l.place == 4 && (if l.scheme == 2 { p.https } else { p.http }).is_none() {
            return Err(Verdict::Skip);
        }
        expect_request(p, &url, &m)?;
        Ok(l.user.is_some() || l.query.is_some() || l.fragment.is_some() || l.path.len() > 1)
    };
    let r = settle(go());
    cl.when(matches!(r, Verdict::Ok(_)) && l.place == 4, if l.scheme == 2 { "default-port-https" } else { "default-port-http" });
    cl.when(l.place == 5, "nobody-listens");
    cl.when(l.place == 3, "localhost");
    cl.when(l.user.is_some(), "credentials");
    cl.when(l.path.is_empty(), "no-path");
    cl.when(l.path.is_empty() && l.query.is_some(), "query-without-path");
    cl.when(l.fragment.is_some(), "fragment");
    let q = pairs(&l.query.clone().unwrap_or_default().join("&"));
    cl.when(grouped(&q).len() < q.len(), "repeated-parameter");
    r
}

const VISIBLE: &str = "abcXYZ0189-._~!$'()*+,;=:@%/\"<>\\^`{|}[]";

fn part(drop: &'static str, max: usize) -> BoxedStrategy<String> {
    let chars: String = VISIBLE.chars().filter(|c| !drop.contains(*c)).collect();
    prop_oneof![
        4 => gen::over(&chars, 0, max),
        2 => gen::over("abc01", 0, max),
        1 => gen::text(max).prop_map(move |s| s.chars().filter(|c| *c > ' ' && !c.is_whitespace() && !"?#&".contains(*c) && !drop.contains(*c)).collect()),
    ].boxed()
}

fn link() -> BoxedStrategy<Link> {
    let user = prop_oneof![2 => part(":/@", 8).prop_map(|s| format!("u{}", s)), 2 => part(":/@", 8).prop_map(|s| if s.is_empty() { "u".into() } else { s }), 1 => gen::few(&["http", "https", "h", "ht", "htt", "httpx", "localhost", "127.0.0.1"])];
    let pass = prop_oneof![4 => part("/@", 10), 1 => gen::few(&["", "80", "443", "http", "password", ":", "a:b", ":80", "::"]), 1 => gen::over("abc", 50, 90)];
    let path = prop_oneof![
        2 => Just(String::new()),
        1 => Just("/".to_string()),
        6 => part("", 14).prop_map(|s| format!("/{}", s)),
        1 => vec(gen::few(&["/", "//", "/..", "/.", "/@", "/:80", "/http://h", "/a:b@c", "/%2F", "/a"]), 1..4).prop_map(|v| v.concat()),
        1 => gen::over("abc/", 0, 900).prop_map(|s| format!("/{}", s)),
    ];
    let piece = prop_oneof![
        4 => (gen::few(&["a", "b", "A", "key", "k.x", "a:b", "/", "@", "?"]), prop_oneof![3 => part("", 10), 1 => gen::few(&["?", "a?b", "=", "/x/y?z", "@", "http://h:80/"])]).prop_map(|(k, v)| format!("{}={}", k, v)),
        1 => (part("=", 6), part("", 4)).prop_map(|(k, v)| format!("{}={}", k, v)),
        1 => gen::few(&["", "a", "b=", "flag", "a==", "=v"]),
    ];
    let fragment = prop_oneof![2 => part("", 8), 1 => gen::few(&["", "#", "a?b=c", "/x", "@", ":99", "?"])];
    (0u8..3, option::weighted(0.4, (user, pass)), prop_oneof![6 => 0u8..4, 3 => Just(4u8), 1 => Just(5u8)], proptest::bool::weighted(0.03), path, option::of(vec(piece, 0..6)), option::weighted(0.35, fragment))
        .prop_map(|(scheme, user, place, zeros, path, query, fragment)| Link { scheme, user, place, zeros, path, query, fragment }).boxed()
}

/// A URL made wrong in one way.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wrong {
    base: Link,
    kind: u8,
    junk: String,
    at: u16,
}

impl Wrong {
    fn text(&self, p: &Places) -> String {
        let b = &self.base;
        let scheme = ["", "http://", "https://"][b.scheme as usize % 3];
        let user = b.user.as_ref().map_or(String::new(), |(u, w)| format!("{}:{}@", u, w));
        let (host, port) = b.host(p);
        let mut tail = b.path.clone();
        if let Some(q) = &b.query {
            tail.push('?');
            tail.push_str(&q.join("&"));
        }
        match self.kind {
            // no host at all
            0 => format!("{}{}{}", scheme, user, tail),
            // no host but a port
            1 => format!("{}{}:{}{}", scheme, user, p.own[0].port(), tail),
            // something that is no port
            2 => format!("{}{}{}:{}{}", scheme, user, host, self.junk, tail),
            // a port followed by something
            3 => format!("{}{}{}:{}{}{}", scheme, user, host, p.own[0].port(), self.junk, tail),
            // two ports
            4 => format!("{}{}{}:{}:{}{}", scheme, user, host, p.own[0].port(), p.own[1].port(), tail),
            // an address of the other family, where nobody listens
            6 => {
                let six = ["[::1]", "[::]", "[0:0:0:0:0:0:0:1]", "::1", "[::1", "[]", "[::1%25lo]"][self.at as usize % 7];
                format!("{}{}{}:{}{}", scheme, user, six, p.own[0].port(), tail)
            }
            // a character that cannot stand in a URL
            _ => {
                let url = format!("{}{}{}{}{}", scheme, user, host, port.map_or(String::new(), |n| format!(":{}", n)), tail);
                let cs: Vec<char> = url.chars().collect();
                let i = 1 + crate::drv::hash64(&[&self.at.to_le_bytes()]) as usize % cs.len();
                let c = ['\r', '\n', ' ', '\t', '\0', '\x7f'][self.at as usize % 6];
                let mut s: String = cs[..i].iter().collect();
                match self.at as usize / 6 % 4 {
                    0 => s.push_str("\r\nX-Injected: 1"),
                    1 => s.push_str("\nX-Injected: 1"),
                    2 => s.push_str(" HTTP/1.1\r\n\r\nGET /second"),
                    _ => s.push(c),
                }
                s.extend(&cs[i..]);
                s
            }
        }
    }
}

fn wrong() -> BoxedStrategy<Wrong> {
    let junk = prop_oneof![
        3 => gen::few(&["abc", "-1", "65536", "99999999999999999999", "0", "00", "0x50", "1e3", "８０", "-80", "80-", "8,0", "_80", "8_0", "٣", "65616", "4294967376"]),
        1 => gen::over("abcXYZ.-_~!$'()*,;=%", 1, 5),
        1 => (1u32..70_000).prop_map(|n| format!("+{}", n)),
        1 => (65_536u64..10_000_000_000).prop_map(|n| n.to_string()),
    ];
    (link(), 0u8..7, junk, any::<u16>()).prop_map(|(mut base, kind, junk, at)| {
        base.place %= 4;
        Wrong { base, kind, junk, at }
    }).boxed()
}

fn wrong_case(p: &Places, w: &Wrong, cl: &mut Classes) -> Verdict {
    let url = w.text(p);
    cl.hit(["no-host", "no-host-but-port", "not-a-port", "junk-after-port", "two-ports", "impossible-character", "ipv6-host"][w.kind as usize % 7]);
    if w.kind == 3 && w.junk.bytes().all(|b| b.is_ascii_digit()) {
        // digits after digits can be a port
        match format!("{}{}", p.own[0].port(), w.junk).parse::<u64>() {
            Ok(n) if n < 65_536 => return Verdict::Skip,
            _ => {}
        }
    }
    if w.kind == 0 && w.base.user.is_none() && w.base.scheme == 0 && w.base.path.starts_with("//") {
        return Verdict::Skip;
    }
    settle(expect_refusal(p, &url).map(|_| true))
}

/// Reads a URL independently: Ok(None) when it may be taken either way.
fn read_url(url: &str) -> Result<Option<(Meaning, bool)>, ()> {
    if url.chars().any(|c| c.is_control() || c == ' ') {
        return Err(());
    }
    let (rest, tls) = match (url.strip_prefix("http://"), url.strip_prefix("https://")) {
        (Some(r), _) => (r, false),
        (_, Some(r)) => (r, true),
        _ => (url, false),
    };
    let end = rest.find(|c| c == '/' || c == '?' || c == '#').unwrap_or(rest.len());
    let (authority, tail) = (&rest[..end], &rest[end..]);
    if authority.matches('@').count() > 1 {
        return Ok(None);
    }
    let (user, hp) = match authority.split_once('@') {
        Some((u, h)) => (Some(u), h),
        None => (None, authority),
    };
    let (host, port) = match hp.split_once(':') {
        Some((h, p)) => (h, Some(p)),
        None => (hp, None),
    };
    if host.is_empty() {
        return Err(());
    }
    let number = match port {
        None => if tls { 443 } else { 80 },
        Some("") => return Ok(None),
        Some(p) => {
            if !p.bytes().all(|b| b.is_ascii_digit()) {
                return Err(());
            }
            match p.parse::<u16>() {
                Ok(n) if n > 0 => n,
                _ => return Err(()),
            }
        }
    };
    let user = match user {
        None => None,
        Some(u) => match u.split_once(':') {
            Some((n, w)) if !n.is_empty() => Some((n.to_string(), w.to_string())),
            _ => return Ok(None),
        },
    };
    let tail = tail.split('#').next().unwrap_or("");
    let (path, query) = match tail.split_once('?') {
        Some((p, q)) => (p, q),
        None => (tail, ""),
    };
    Ok(Some((Meaning { host: host.into(), port: number, default_port: port.is_none(), user, path: if path.is_empty() { "/".into() } else { path.into() }, query: pairs(query) }, tls)))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bent {
    base: Link,
    edits: Vec<(u16, u8, String)>,
}

fn bent() -> BoxedStrategy<Bent> {
    let ins = gen::few(&["/", ":", "@", "?", "#", "//", "://", "http://", "http", "h", "&", "=", "0", "80", ":80", "a", "\r", "\n", " ", "é", "%", "+", "[", "]", "\\", "x:y@"]);
    (link(), vec((any::<u16>(), 0u8..3, ins), 1..4)).prop_map(|(mut base, edits)| {
        base.place %= 5;
        Bent { base, edits }
    }).boxed()
}

fn bent_case(p: &Places, b: &Bent, cl: &mut Classes) -> Verdict {
    let mut cs: Vec<char> = b.base.text(p).chars().collect();
    for (at, kind, ins) in &b.edits {
        let i = *at as usize % (cs.len() + 1);
        match kind {
            0 => {
                if i < cs.len() {
                    cs.remove(i);
                }
            }
            1 => {
                cs.splice(i..i, ins.chars());
            }
            _ => {
                if i < cs.len() {
                    cs.splice(i..i + 1, ins.chars());
                }
            }
        }
    }
    let url: String = cs.into_iter().collect();
    let r = match read_url(&url) {
        Err(()) => {
            cl.hit("bent-into-nonsense");
            expect_refusal(p, &url).map(|_| true)
        }
        Ok(None) => Err(Verdict::Skip),
        Ok(Some((m, _))) => {
            let ip: Option<IpAddr> = if m.host == "localhost" { Some(IpAddr::V4(Ipv4Addr::LOCALHOST)) } else { m.host.parse().ok() };
            match ip {
                Some(ip) if p.post.listeners.iter().any(|(_, a)| *a == SocketAddr::new(ip, m.port)) => {
                    cl.hit("bent-but-good");
                    expect_request(p, &url, &m).map(|_| true)
                }
                // nobody listens at that port of ours
                Some(ip) if ip == p.own[0].ip() && m.port < 10_000 && m.port != 80 && m.port != 443 => {
                    cl.hit("bent-to-elsewhere");
                    expect_refusal(p, &url).map(|_| true)
                }
                _ => Err(Verdict::Skip),
            }
        }
    };
    settle(r)
}

fn run17(ctx: &mut Ctx) {
    let p = places();
    ctx.rule("The URL has credentials, a query, a fragment or a path, or is defective.");
    ctx.run("urls", ctx.n(60_000, 1_200_000), link(), |l, cl| link_case(&p, l, cl));
    ctx.run("wrong", ctx.n(40_000, 800_000), wrong(), |w, cl| wrong_case(&p, w, cl));
    ctx.run("bent", ctx.n(60_000, 1_200_000), bent(), |b, cl| bent_case(&p, b, cl));
}

// ------------------------------------------------------------------------------------------ C18

pub const C18: Prop = Prop {
    id: "C18",
    shards: 8,
    assumptions: &[
        "a known status comes with the library's own reason phrase for it, and is not 1xx",
        "204 and 304 responses announce no body; no Transfer-Encoding is used; cookies as for C19",
        "a Content-Length of -1 is not judged",
    ],
    run: run18,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Reply {
    old: bool,
    status: usize,
    fields: Vec<Field>,
    cookies: Vec<cookies::Spec>,
    order: u64,
    style: u8,
    /// letter case of Content-Length; None: no Content-Length
    length: Option<u8>,
    /// letter case of Set-Cookie; 3 and above: each line has its own
    cookie_case: u8,
    body: Vec<u8>,
    extra: Vec<u8>,
}

fn cased(s: &str, n: u8) -> String {
    match n % 3 {
        0 => s.to_string(),
        1 => s.to_lowercase(),
        _ => s.to_uppercase(),
    }
}

impl Reply {
    fn status(&self) -> (u16, &'static str) {
        let s = &statuses()[self.status % statuses().len()];
        (s.0, s.1)
    }

    fn body(&self) -> &[u8] {
        if matches!(self.status().0, 204 | 304) { b"" } else { &self.body }
    }

    fn lines(&self) -> Vec<String> {
        let mut v: Vec<String> = self.fields.iter().map(|f| format!("{}:{}{}{}", f.name, f.before, f.value, f.after)).collect();
        let mut x = self.order;
        let mut put = |v: &mut Vec<String>, l: String, lowest: usize| -> usize {
            let at = lowest + (x % ((v.len() - lowest) as u64 + 1)) as usize;
            x = x.rotate_right(13).wrapping_mul(0x9e3779b97f4a7c15);
            v.insert(at, l);
            at + 1
        };
        let mut lowest = 0;
        for (i, c) in self.cookies.iter().enumerate() {
            lowest = put(&mut v, format!("{}: {}", cased("Set-Cookie", if self.cookie_case < 3 { self.cookie_case } else { (self.order >> (i % 32)) as u8 }), c.foreign(self.order.rotate_left(i as u32), self.style)), lowest);
        }
        if let Some(n) = self.length {
            put(&mut v, format!("{}: {}", cased("Content-Length", n), self.body().len()), 0);
        }
        v
    }

    fn line(&self) -> String {
        let (c, p) = self.status();
        format!("HTTP/1.{} {} {}", if self.old { 0 } else { 1 }, c, p)
    }

    fn head(&self) -> Vec<u8> {
        let mut s = self.line();
        s.push_str("\r\n");
        for l in self.lines() {
            s.push_str(&l);
            s.push_str("\r\n");
        }
        s.push_str("\r\n");
        s.into_bytes()
    }

    fn whole(&self) -> Vec<u8> {
        let mut v = self.head();
        v.extend_from_slice(self.body());
        if self.length.is_some() {
            v.extend_from_slice(&self.extra);
        }
        v
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Delivery {
    cuts: Vec<u16>,
    pauses: Vec<u8>,
}

fn delivery() -> BoxedStrategy<Delivery> {
    (prop_oneof![2 => Just(vec![]), 3 => vec(any::<u16>(), 1..6), 1 => vec(any::<u16>(), 10..30)], vec(0u8..3, 0..8))
        .prop_map(|(cuts, pauses)| Delivery { cuts, pauses }).boxed()
}

impl Delivery {
    fn send(&self, s: &mut TcpStream, data: &[u8]) {
        let mut at: Vec<usize> = self.cuts.iter().map(|c| *c as usize * (data.len() + 1) / 65_536).collect();
        at.sort();
        let mut from = 0;
        for (i, c) in at.into_iter().chain([data.len()]).enumerate() {
            if s.write_all(&data[from..c]).is_err() {
                return;
            }
            from = c;
            match self.pauses.get(i) {
                Some(1) => thread::yield_now(),
                Some(2) => thread::sleep(Duration::from_micros(300)),
                _ => {}
            }
        }
    }
}

fn reply() -> BoxedStrategy<Reply> {
    let ok: Vec<usize> = (0..statuses().len()).filter(|n| statuses()[*n].0 >= 200).collect();
    let status = prop_oneof![2 => Just(ok[0]), 3 => proptest::sample::select(ok)];
    let names = &["set-cookie", "content-length", "transfer-encoding"];
    let extra_field = gen::few(&["Cookie", "Connection", "Content-Type", "Content-Encoding", "Location", "Content-Lengths", "X-Content-Length", "Set-Cookie2"]);
    let fields = vec((field(), option::weighted(0.3, extra_field)).prop_map(move |(mut f, n)| {
        if let Some(n) = n {
            f.name = n;
        }
        if names.contains(&f.name.to_lowercase().as_str()) {
            f.name = format!("X-{}", f.name);
        }
        f
    }), 0..8);
    let body = prop_oneof![6 => gen::bytes(5000), 1 => gen::edge_size(200_000).prop_map(|n| gen::noise(n, n as u64 + 5))];
    let extra = prop_oneof![5 => Just(vec![]), 1 => gen::bytes(300)];
    (proptest::bool::weighted(0.2), status, fields, prop_oneof![2 => Just(vec![]), 1 => vec(cookies::spec(), 1..4)], any::<u64>(), 0u8..6, option::weighted(0.7, prop_oneof![3 => Just(0u8), 2 => 0u8..3]), prop_oneof![3 => Just(0u8), 2 => 0u8..4], body, extra)
        .prop_map(|(old, status, fields, cookies, order, style, length, cookie_case, body, extra)| Reply { old, status, fields, cookies, order, style, length, cookie_case, body, extra }).boxed()
}

/// Serves the bytes to one call of the client.
fn fetch(post: &Post, data: &[u8], d: &Delivery, abort: bool) -> Result<Result<Got, String>, Verdict> {
    let at = post.listeners[0].1;
    let h = call(&format!("http://{}/r", at));
    let visits = post.attend(&h, &mut |s: &mut TcpStream| {
        d.send(s, data);
        abort
    })?;
    let out = joined(h).map_err(|e| Verdict::Fail(format!("the client {} on {}", e, show(data))))?;
    if visits.is_empty() {
        return fail(format!("the client did not connect: {:?}", out));
    }
    Ok(out)
}

fn same(g: &Got, r: &Reply, body: &[u8]) -> Result<(), String> {
    if g.code != r.status().0 {
        return Err(format!("status {} instead of {}", g.code, r.status().0));
    }
    if g.body != body {
        return Err(format!("body {} instead of {}", show(&g.body), show(body)));
    }
    let want: Vec<Cookie> = r.cookies.iter().map(|c| c.build()).collect();
    match &g.cookies {
        Ok(c) if *c == want => Ok(()),
        // the order of names in different letters is not judged
        Ok(c) if r.cookie_case > 2 && c.len() == want.len() && {
            let mut left = want.clone();
            c.iter().all(|c| left.iter().position(|w| w == c).map(|i| left.remove(i)).is_some())
        } => Ok(()),
        c => Err(format!("cookies {:?} instead of {:?}", c, want)),
    }
}

fn whole_case(p: &Post, (r, d): &(Reply, Delivery), cl: &mut Classes) -> Verdict {
    let go = || -> Result<bool, Verdict> {
        let data = r.whole();
        match fetch(p, &data, d, false)? {
            Ok(g) => same(&g, r, r.body()).map_err(|e| Verdict::Fail(format!("{} for {}", e, show(&data))))?,
            Err(e) => return fail(format!("error {:?} for {}", e, show(&data))),
        }
        Ok(!r.body().is_empty() || !r.cookies.is_empty() || r.fields.len() > 1)
    };
    cl.when(r.length.is_none(), "until-the-end");
    cl.when(r.length.map_or(false, |n| n > 0), "content-length-in-other-letters");
    cl.when(r.length.is_some() && !r.extra.is_empty(), "surplus-after-the-body");
    cl.when(!r.cookies.is_empty(), "cookies");
    cl.when(r.cookies.len() > 1 && r.cookie_case > 2, "cookie-names-in-several-letters");
    cl.when(d.cuts.len() > 3, "many-segments");
    cl.when(r.body().starts_with(b"\r") || r.body().starts_with(b"\n"), "body-starts-with-line-end");
    settle(go())
}

fn cut_case(p: &Post, (r, d, at, abort): &(Reply, Delivery, u16, bool), cl: &mut Classes) -> Verdict {
    let go = |cl: &mut Classes| -> Result<bool, Verdict> {
        let head = r.head().len();
        let full = head + r.body().len();
        let mut data = r.whole();
        // half of the cuts near the ends of the parts
        let n = match at % 4 {
            0 => (*at as usize / 4) % (full + 1),
            1 => (*at as usize / 4) % (head + 1),
            2 => head.saturating_sub(*at as usize / 4 % 6),
            _ => full.saturating_sub(*at as usize / 4 % 4),
        };
        data.truncate(n);
        let out = fetch(p, &data, d, *abort)?;
        let body: &[u8] = if n >= head { &data[head..] } else { b"" };
        let complete = n >= head && (r.length.is_none() || n == full);
        cl.hit(if complete { "cut-nothing" } else if n < head { "cut-in-head" } else { "cut-in-body" });
        let reset = *abort && r.length.is_none();
        cl.when(reset && n >= head, "reset-instead-of-the-end");
        match out {
            Ok(g) if complete && !reset => same(&g, r, body).map_err(|e| Verdict::Fail(format!("{} for {}", e, show(&data))))?,
            Ok(g) => return fail(format!("{:?} returned for {} (cut at {} of {}{})", g, show(&data), n, full, if *abort { ", reset" } else { "" })),
            Err(e) if complete && !*abort => return fail(format!("error {:?} for {}", e, show(&data))),
            Err(_) => {}
        }
        Ok(!complete || reset)
    };
    settle(go(cl))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Malformed {
    base: Reply,
    kind: u8,
    text: String,
    pick: u16,
}

fn malformed() -> BoxedStrategy<Malformed> {
    (reply(), 0u8..8, gen::over("abcXYZ-_", 1, 8), any::<u16>()).prop_map(|(base, kind, text, pick)| Malformed { base, kind, text, pick }).boxed()
}

impl Malformed {
    fn bytes(&self) -> Vec<u8> {
        let r = &self.base;
        let (code, phrase) = r.status();
        let choose = |v: &[&str]| v[self.pick as usize % v.len()].to_string();
        let mut line = r.line();
        let mut lines = r.lines();
        let at = self.pick as usize / 64 % (lines.len() + 1);
        let lengthless = |lines: &mut Vec<String>| lines.retain(|l| !l.to_lowercase().starts_with("content-length:"));
        match self.kind {
            0 => line = format!("{} {} {}", choose(&["HTTX/1.1", "HTTP1.1", "HTTP/a.b", "FOO", "", "HTTP/", "HTTP", "HTTP/1.1x", "HTTP/11.1", " HTTP/1.1", "HTTP//1.1", "1.1"]), code, phrase),
            1 => line = format!("HTTP/1.1 {} {}", match self.pick % 11 {
                0 => "abc".into(), 1 => code.to_string()[..2].to_string(), 2 => format!("{}0", code), 3 => format!("-{}", code), 4 => format!("+{}", code), 5 => format!("0{}", code),
                6 => String::new(), 7 => format!("{}x", code), 8 => format!("{}.0", code), 9 => format!("x{}", code), _ => format!("{}\t", code),
            }, phrase),
            2 => line = choose(&["HTTP/1.1", "HTTP/1.1 ", "GET / HTTP/1.1", "200 OK", "OK", "", "hello", "Content-Length: 5"]),
            3 => {
                lengthless(&mut lines);
                let at = at.min(lines.len());
                lines.insert(at, format!("Content-Length: {}", match self.pick % 12 {
                    0 => "abc".into(), 1 => "-5".into(), 2 => "1e3".into(), 3 => "0x5".into(), 4 => format!("{}x", r.body().len()), 5 => format!("+{}", r.body().len()), 6 => "5 5".into(),
                    7 => String::new(), 8 => "99999999999999999999999".into(), 9 => format!("{}.0", r.body().len()), 10 => "-2".into(), _ => "五".into(),
                }));
            }
            4 => lines.insert(at, self.text.clone()),
            5 => {
                lengthless(&mut lines);
                let at = at.min(lines.len());
                let n = r.body().len();
                lines.insert(at, format!("{}: {}", cased("Content-Length", (self.pick >> 2) as u8), n));
                lines.push(format!("{}: {}", cased("Content-Length", (self.pick >> 5) as u8), if self.pick % 2 == 0 { n + 1 } else { n / 2 + 7 * (n / 2 + 1) }));
            }
            6 => line = format!("{} {}", line, self.text),
            _ => {
                let mut v = b"HTTP/1.1 200 ".to_vec();
                v.extend_from_slice(&[0xff, 0xfe, b'O', b'K', b'\r', b'\n', b'\r', b'\n']);
                v.extend_from_slice(r.body());
                return v;
            }
        }
        let mut v = line.into_bytes();
        v.extend_from_slice(b"\r\n");
        for l in lines {
            v.extend_from_slice(l.as_bytes());
            v.extend_from_slice(b"\r\n");
        }
        v.extend_from_slice(b"\r\n");
        v.extend_from_slice(r.body());
        if self.kind == 5 {
            // long enough for either length
            v.extend_from_slice(&vec![b'.'; r.body().len() * 4 + 16]);
        }
        v
    }
}

fn malformed_case(p: &Post, (m, d): &(Malformed, Delivery), cl: &mut Classes) -> Verdict {
    cl.hit(["bad-version", "bad-code", "bad-line", "bad-length", "line-without-colon", "two-lengths", "phrase-of-something-else", "phrase-not-text"][m.kind as usize % 8]);
    let data = m.bytes();
    let go = || -> Result<bool, Verdict> {
        match fetch(p, &data, d, false)? {
            Ok(g) => fail(format!("{:?} returned for {}", g, show(&data))),
            Err(_) => Ok(true),
        }
    };
    settle(go())
}

/// Anything: no panic, no hang, and what is returned stands after a complete head.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Noise {
    Bytes(Vec<u8>),
    Tokens(Vec<String>),
    Bent(Reply, Vec<(u16, u8, u8)>),
}

fn noise() -> BoxedStrategy<Noise> {
    let tok = gen::few(&["HTTP/1.1", " ", "200", "OK", "\r\n", "\n", "\r", "Content-Length", ":", " 5", "-1", "hello", "Set-Cookie: ", "a=b", "; ", "Path=/", "Expires=", "Max-Age=x", "Mon, 01 Jan 2024 00:00:00 GMT", "\r\n\r\n", "Connection: keep-alive", "Cookie: x", "HTTP/1.1 200 OK\r\n", "Content-Length: 5\r\n\r\nhello", "\0", "404 Not Found", "HTTP/1.0 "]);
    prop_oneof![
        1 => gen::bytes(400).prop_map(Noise::Bytes),
        3 => vec(tok, 0..16).prop_map(Noise::Tokens),
        4 => (reply(), vec((any::<u16>(), 0u8..5, any::<u8>()), 1..6)).prop_map(|(r, e)| Noise::Bent(r, e)),
    ].boxed()
}

impl Noise {
    fn data(&self) -> Vec<u8> {
        match self {
            Noise::Bytes(b) => b.clone(),
            Noise::Tokens(t) => t.concat().into_bytes(),
            Noise::Bent(r, edits) => {
                let mut v = r.whole();
                let head = r.head().len();
                for (at, kind, b) in edits {
                    if v.is_empty() {
                        break;
                    }
                    // mostly in the head
                    let span = if at % 8 == 0 { v.len() } else { head.min(v.len()) };
                    let i = *at as usize / 8 % span;
                    match kind {
                        0 => v[i] = *b,
                        1 => v.insert(i, b"\r\n :=;,0-\xff\0"[*b as usize % 11]),
                        2 => {
                            v.remove(i);
                        }
                        3 => {
                            let j = (i + 1 + *b as usize % 12).min(v.len());
                            v.drain(i..j);
                        }
                        _ => {
                            let j = (i + 1 + *b as usize % 24).min(v.len());
                            let piece = v[i..j].to_vec();
                            v.splice(i..i, piece);
                        }
                    }
                }
                v
            }
        }
    }
}

fn noise_case(p: &Post, (n, d): &(Noise, Delivery), cl: &mut Classes) -> Verdict {
    let data = n.data();
    let go = |cl: &mut Classes| -> Result<bool, Verdict> {
        if let Ok(g) = fetch(p, &data, d, false)? {
            cl.hit("noise-taken-as-a-response");
            let a = find(&data, b"\n\r\n").map(|i| i + 3);
            let b = find(&data, b"\n\n").map(|i| i + 2);
            let head = match (a, b) {
                (Some(a), Some(b)) => a.min(b),
                (Some(a), None) | (None, Some(a)) => a,
                _ => return fail(format!("{:?} returned although {} has no complete head", g, show(&data))),
            };
            if !data[head..].starts_with(&g.body) {
                return fail(format!("body {} returned for {}", show(&g.body), show(&data)));
            }
            let line = &data[..data.iter().position(|b| *b == b'\r' || *b == b'\n').unwrap_or(0)];
            if find(line, format!(" {} ", g.code).as_bytes()).is_none() {
                return fail(format!("status {} returned for {}", g.code, show(&data)));
            }
        }
        Ok(data.starts_with(b"HTTP/"))
    };
    settle(go(cl))
}

/// Several answers at a time, each with long pauses between its pieces.
fn slow_case(all: &[(Reply, Vec<(u8, u16, u64)>)], cl: &mut Classes) -> Verdict {
    let one = |r: &Reply, line: &[(u8, u16, u64)]| -> Result<(), Verdict> {
        let p = Post { listeners: vec![listen(free_addr()).expect("listener")] };
        let (data, head) = (r.whole(), r.head().len());
        let h = call(&format!("http://{}/r", p.listeners[0].1));
        let mut cuts: Vec<(usize, u64)> = line.iter().map(|(kind, n, ms)| (*n as usize % if *kind == 0 { head } else { data.len() }, *ms)).collect();
        cuts.sort();
        p.attend(&h, &mut |s: &mut TcpStream| {
            let mut from = 0;
            for (at, ms) in &cuts {
                let _ = s.write_all(&data[from..*at]);
                from = *at;
                thread::sleep(Duration::from_millis(*ms));
            }
            let _ = s.write_all(&data[from..]);
            false
        })?;
        match joined(h).map_err(|e| Verdict::Fail(format!("the client {} on {}", e, show(&data))))? {
            Ok(g) => same(&g, r, r.body()).map_err(|e| Verdict::Fail(format!("{} for {} with pauses at {:?}", e, show(&data), cuts))),
            Err(e) => fail(format!("error {:?} for {} with pauses at {:?}", e, show(&data), cuts)),
        }
    };
    cl.when(all.iter().any(|a| a.1.iter().any(|l| l.2 > 5_000)), "pause-over-5-s");
    let go = || -> Result<bool, Verdict> {
        let one = &one;
        let out: Vec<Result<(), Verdict>> = thread::scope(|s| {
            let hs: Vec<_> = all.iter().map(|(r, l)| s.spawn(move || one(r, l))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Verdict::Fail("server thread panicked".into())))).collect()
        });
        for o in out {
            o?;
        }
        Ok(true)
    };
    settle(go())
}

fn run18(ctx: &mut Ctx) {
    let long = ctx.n(5_200, 14_000) as u64;
    let line = prop_oneof![
        3 => vec((0u8..2, any::<u16>(), prop_oneof![Just(300u64), Just(1_100), Just(2_100)]), 1..4),
        2 => (0u8..2, any::<u16>()).prop_map(move |(k, n)| vec![(k, n, long)]),
    ];
    ctx.run("slow", ctx.n(24, 200), vec((reply(), line), 12..24), |a, cl| slow_case(a, cl));
    let p = Post { listeners: vec![listen(free_addr()).expect("listener")] };
    ctx.rule("The response has a body, a cookie or several headers; is cut short; is malformed; or is other bytes that start like a response.");
    ctx.run("whole", ctx.n(30_000, 1_000_000), (reply(), delivery()), |c, cl| whole_case(&p, c, cl));
    let many = (reply(), delivery(), vec(field(), 30..250), vec(cookies::spec(), 0..60), 0usize..40).prop_map(|(mut r, d, mut fields, cookies, long)| {
        for f in fields.iter_mut() {
            f.name = format!("X-{}", f.name);
        }
        if long % 4 == 0 {
            fields[0].value = "v".repeat(900 * (long + 1));
        }
        r.fields.extend(fields);
        r.cookies.extend(cookies);
        (r, d)
    });
    ctx.run("many", ctx.n(2_400, 60_000), many, |c, cl| whole_case(&p, c, cl));
    ctx.run("signals", ctx.n(1_600, 60_000), (reply(), delivery(), 200u64..4_000), |(r, d, us), cl| interrupted(*us, || whole_case(&p, &(r.clone(), d.clone()), cl)));
    ctx.run("cut", ctx.n(20_000, 800_000), (reply(), delivery(), any::<u16>(), proptest::bool::weighted(0.2)), |c, cl| cut_case(&p, c, cl));
    ctx.run("malformed", ctx.n(40_000, 800_000), (malformed(), delivery()), |c, cl| malformed_case(&p, c, cl));
    ctx.run("noise", ctx.n(24_000, 1_000_000), (noise(), delivery()), |c, cl| noise_case(&p, c, cl));
    ctx.run("large", ctx.n(1_200, 24_000), (reply(), delivery(), gen::big_size(6 << 20), any::<(u64, u8)>()), |(r, d, n, (seed, kind)), cl| {
        let r = Reply { body: gen::bulk(*n, *seed, *kind), ..r.clone() };
        cl.when(r.body().len() > 1 << 20, "over-a-mebibyte");
        whole_case(&p, &(r, d.clone()), cl)
    });
}

// ------------------------------------------------------------------------------------------ C27

pub const C27: Prop = Prop {
    id: "C27",
    shards: 8,
    assumptions: &[
        "URLs as for C17 with each parameter name used once",
        "responses as for C09, with the library's own statuses from 200 on (204 and 304 without a body)",
    ],
    run: run27,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Trip {
    packed: bool,
    scheme: bool,
    user: Option<(String, String)>,
    /// which route, with its values
    route: u8,
    values: Vec<String>,
    query: Option<Vec<String>>,
    fragment: Option<String>,
    ops: Vec<Op>,
}

const ROUTES: &[(&str, &[usize])] = &[
    ("/", &[]),
    ("/plain", &[]),
    ("/one/:a", &[0]),
    ("/two/:a/:b", &[0, 1]),
    ("/mid/:a/end", &[0]),
    ("/mix/:a/x/:b/y/:c", &[0, 1, 2]),
    ("/deep/er/and/deep/er", &[]),
];
const NAMES: [&str; 3] = ["a", "b", "c"];

impl Trip {
    fn route(&self) -> usize {
        self.route as usize % ROUTES.len()
    }

    fn path(&self) -> String {
        let mut s = ROUTES[self.route()].0.to_string();
        for n in ROUTES[self.route()].1 {
            s = s.replacen(&format!(":{}", NAMES[*n]), &format!("\u{1}{}\u{1}", n), 1);
        }
        for n in ROUTES[self.route()].1 {
            s = s.replace(&format!("\u{1}{}\u{1}", n), &self.values[*n]);
        }
        s
    }

    fn params(&self) -> BTreeMap<String, String> {
        pairs(&self.query.clone().unwrap_or_default().join("&")).into_iter().collect()
    }

    /// The parameters its handler asks for.
    fn asked(&self) -> Vec<String> {
        self.params().keys().cloned().chain(["zz-absent".to_string()]).collect()
    }

    fn url(&self, addr: SocketAddr) -> String {
        let mut s = String::from(if self.scheme { "http://" } else { "" });
        if let Some((u, p)) = &self.user {
            s.push_str(&format!("{}:{}@", u, p));
        }
        s.push_str(&addr.to_string());
        s.push_str(&self.path());
        if let Some(q) = &self.query {
            s.push('?');
            s.push_str(&q.join("&"));
        }
        if let Some(f) = &self.fragment {
            s.push('#');
            s.push_str(f);
        }
        s
    }
}

fn trip() -> BoxedStrategy<Trip> {
    let user = (prop_oneof![2 => gen::over("abcXYZ012.-_~%", 1, 10), 1 => part(":/@", 8).prop_map(|s| format!("u{}", s)), 1 => gen::few(&["http", "https", "h"])], part("/@", 12));
    let value = prop_oneof![9 => part("/", 12), 1 => Just(String::new())];
    let query = vec((part("=", 6), part("", 14), any::<bool>()), 0..6).prop_map(|v| {
        let mut names: Vec<String> = vec![];
        let mut out = vec![];
        for (k, v, eq) in v {
            if names.contains(&k) || (k.is_empty() && v.is_empty()) {
                continue;
            }
            names.push(k.clone());
            out.push(if v.is_empty() && !eq { k } else { format!("{}={}", k, v) });
        }
        out
    });
    let ops = vec(op(), 0..10).prop_map(|v| v.into_iter().map(|o| match o {
        Op::Status(n) if statuses()[n].0 < 200 => Op::Status(n + 10),
        o => o,
    }).filter(|o| match o {
        // names the library itself gives a meaning
        Op::Add(k, ..) | Op::Set(k, ..) => !["content-length", "set-cookie", "connection", "transfer-encoding", "content-encoding", "cookie"].contains(&k.to_lowercase().as_str()),
        _ => true,
    }).collect::<Vec<_>>());
    (any::<bool>(), any::<bool>(), option::weighted(0.4, user), 0u8..7, vec(value, 3), option::of(query), option::weighted(0.2, part("", 6)), ops)
        .prop_map(|(packed, scheme, user, route, values, query, fragment, ops)| Trip { packed, scheme, user, route, values, query, fragment, ops }).boxed()
}

#[derive(Debug, PartialEq)]
struct Seen {
    route: usize,
    path: String,
    fields: Vec<Option<String>>,
    field_count: usize,
    params: Vec<Option<String>>,
    param_count: usize,
    user: Option<(String, String)>,
}

/// By the mark of the request: what its handler does, and the parameters it asks for.
type Scripts = BTreeMap<String, (Vec<Op>, Vec<String>)>;
const MARK: &str = "zz-trip";

struct World {
    plain: SocketAddr,
    packed: SocketAddr,
    seen: Events<(String, Seen)>,
    script: Arc<Mutex<Scripts>>,
}

fn world() -> World {
    let seen: Events<(String, Seen)> = Events::new();
    let script: Arc<Mutex<Scripts>> = Arc::new(Mutex::new(BTreeMap::new()));
    let (s2, c2) = (seen.clone(), script.clone());
    set_script(Arc::new(move |stage, ctx| {
        if let Stage::Handler(n) = stage {
            let mark = ctx.req_param(MARK).unwrap_or_default();
            let (ops, names) = c2.lock().unwrap().get(&mark).cloned().unwrap_or_default();
            s2.push((mark, Seen {
                route: n,
                path: ctx.req_path(),
                fields: NAMES.iter().map(|k| ctx.req_field(*k)).collect(),
                field_count: ctx.req_count_fields(),
                params: names.iter().map(|k| ctx.req_param(k.as_str())).collect(),
                param_count: ctx.req_count_param(),
                user: ctx.req_userinfo().map(|u| (u.username(), u.password())),
            }));
            for o in &ops {
                o.apply(ctx);
            }
            ctx.response();
        }
    }));
    let reg = |s: &mut starry::HttpServer| {
        let g = starry_router::Router::new(s, "", None);
        for (n, (pattern, _)) in ROUTES.iter().enumerate() {
            g.register("GET", pattern, HANDLERS[n], None);
        }
    };
    let plain = launch(2, reg);
    let packed = launch(2, |s| {
        s.set_compress();
        reg(s)
    });
    World { plain: plain.addr, packed: packed.addr, seen, script }
}

/// Asks for all the trips at the same time; if there are several, a parameter tells them apart.
fn trip_case(w: &World, trips: &[Trip], cl: &mut Classes) -> Verdict {
    let planned: Vec<(Trip, Vec<Op>, super::response::Model, String)> = trips.iter().enumerate().map(|(i, t)| {
        let mut t = t.clone();
        let mark = if trips.len() > 1 { i.to_string() } else { String::new() };
        if !mark.is_empty() {
            t.query.get_or_insert_with(Vec::new).push(format!("{}={}", MARK, mark));
        }
        let mut ops = t.ops.clone();
        let m = model(&ops, false);
        if matches!(m.status.0, 204 | 304) && !m.body.is_empty() {
            ops.retain(|o| !matches!(o, Op::Status(_)));
        }
        let m = model(&ops, false);
        (t, ops, m, mark)
    }).collect();
    let go = || -> Result<bool, Verdict> {
        {
            let mut script = w.script.lock().unwrap();
            script.clear();
            for (t, ops, _, mark) in &planned {
                script.insert(mark.clone(), (ops.clone(), t.asked()));
            }
        }
        w.seen.take();
        let calls: Vec<(String, JoinHandle<Outcome>)> = planned.iter().map(|(t, ..)| {
            let url = t.url(if t.packed { w.packed } else { w.plain });
            let h = call(&url);
            (url, h)
        }).collect();
        if !wait_until(PATIENCE_MS, || calls.iter().all(|c| c.1.is_finished())) {
            return Err(Verdict::Slow(format!("{:?}: the client has not returned", calls[0].0)));
        }
        let all = w.seen.take();
        for ((t, _, m, mark), (url, h)) in planned.iter().zip(calls) {
            let out = joined(h).map_err(|e| Verdict::Fail(format!("{:?}: the client {}", url, e)))?;
            let seen: Vec<&Seen> = all.iter().filter(|s| s.0 == *mark).map(|s| &s.1).collect();
            judge_trip(t, m, &url, &seen, out)?;
        }
        if all.len() != planned.len() {
            return fail(format!("{} requests were handled instead of {}: {:?}", all.len(), planned.len(), all));
        }
        Ok(planned.iter().any(|(t, ..)| t.ops.len() >= 2 || !t.params().is_empty() || t.user.is_some()))
    };
    for (t, _, m, _) in &planned {
        cl.when(t.packed, "compression-enabled");
        cl.when(t.user.is_some(), "credentials");
        cl.when(m.body.len() > 60_000, "large-body");
        cl.when(!m.cookies.is_empty(), "cookies");
        cl.when(!ROUTES[t.route()].1.is_empty(), "path-parameters");
    }
    settle(go())
}

fn judge_trip(t: &Trip, m: &super::response::Model, url: &str, seen: &[&Seen], out: Result<Got, String>) -> Result<(), Verdict> {
    let params = t.params();
    let want = Seen {
        route: t.route(),
        path: t.path(),
        fields: (0..3).map(|n| if ROUTES[t.route()].1.contains(&n) { Some(t.values[n].clone()) } else { None }).collect(),
        field_count: ROUTES[t.route()].1.len(),
        params: t.asked().iter().map(|k| params.get(k).cloned()).collect(),
        param_count: params.len(),
        user: t.user.clone(),
    };
    if seen.len() != 1 || *seen[0] != want {
        return fail(format!("{:?}: the server saw {:?} instead of {:?}; the client got {:?}", url, seen, want, out));
    }
    let g = match out {
        Ok(g) => g,
        Err(e) => return fail(format!("{:?}: the client reports {:?} for {:?}", url, e, m)),
    };
    if g.code != m.status.0 {
        return fail(format!("{:?}: status {} instead of {}", url, g.code, m.status.0));
    }
    if g.body != m.body {
        return fail(format!("{:?}: body {} instead of {}", url, show(&g.body), show(&m.body)));
    }
    let cookies: Vec<Cookie> = m.cookies.iter().map(|c| c.build()).collect();
    if g.cookies.as_ref().ok() != Some(&cookies) {
        return fail(format!("{:?}: cookies {:?} instead of {:?}", url, g.cookies, cookies));
    }
    Ok(())
}

fn run27(ctx: &mut Ctx) {
    let w = world();
    ctx.rule("The handler made at least two response-building calls, or the URL has parameters or credentials.");
    ctx.run("trips", ctx.n(40_000, 1_500_000), trip(), |t, cl| trip_case(&w, std::slice::from_ref(t), cl));
    ctx.run("large", ctx.n(1_200, 24_000), (trip(), gen::big_size(4 << 20), any::<(u64, u8)>()), |(t, n, (seed, kind)), cl| {
        let mut t = t.clone();
        t.ops.push(Op::Body(gen::bulk(*n, *seed, *kind)));
        cl.when(*n > 1 << 20, "over-a-mebibyte");
        trip_case(&w, &[t], cl)
    });
    ctx.run("together", ctx.n(1_600, 60_000), vec(trip(), 2..24), |t, cl| trip_case(&w, t, cl));
}
