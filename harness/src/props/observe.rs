//! A server whose handlers record everything a request shows them, and generated requests.
use super::cookies;
use super::tokens;
use super::web::*;
use crate::gen;
use crate::net::*;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use starry::header::Cookie;
use starry::{Context, Extend, HttpServer};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

pub const MAX_SEGS: usize = 5;

/// What to ask the context for.
#[derive(Clone, Default, Debug)]
pub struct Probes {
    pub headers: Vec<String>,
    pub params: Vec<String>,
    pub cookies: Vec<String>,
    pub form: Vec<String>,
    pub files: Vec<String>,
    /// a handler that leaves the body alone does not have it parsed
    pub read_form: bool,
}

pub type File = Option<(String, usize, Vec<u8>)>;

/// What a handler saw.
#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub method: usize,
    pub path: String,
    pub fields: Vec<Option<String>>,
    pub field_count: usize,
    pub headers: BTreeMap<String, Vec<String>>,
    pub got_headers: Vec<Option<String>>,
    pub params: Vec<(Option<String>, bool)>,
    pub param_count: usize,
    pub cookies: Vec<String>,
    pub got_cookies: Vec<Option<String>>,
    pub user: Option<(String, String)>,
    pub client: (String, u16),
    pub websocket: bool,
    pub form: Vec<Result<(Option<String>, bool), String>>,
    pub form_count: Result<usize, String>,
    pub files: Vec<Result<File, String>>,
}

/// A number that differs from request to request and is the same for the same request.
fn mood(p: &Probes) -> u64 {
    crate::drv::hash64(&[format!("{:?}{:?}{:?}{:?}", p.headers, p.params, p.form, p.files).as_bytes()])
}

pub fn look(n: usize, ctx: &mut Context, p: &Probes) -> Obs {
    let mut o = Obs {
        method: n,
        path: ctx.req_path(),
        fields: (0..=MAX_SEGS).map(|i| ctx.req_field(format!("p{}", i).as_str())).collect(),
        field_count: ctx.req_count_fields(),
        headers: header_map(ctx),
        got_headers: p.headers.iter().map(|k| ctx.req_header_get(k.as_str())).collect(),
        params: p.params.iter().map(|k| (ctx.req_param(k.as_str()), ctx.req_have_param(k.as_str()))).collect(),
        param_count: ctx.req_count_param(),
        cookies: ctx.req_cookies().iter().map(|c| c.to_string()).collect(),
        got_cookies: p.cookies.iter().map(|k| ctx.req_cookie_get(k).map(|c| c.to_string())).collect(),
        user: ctx.req_userinfo().map(|u| (u.username(), u.password())),
        client: {
            let a = ctx.req_client_addr();
            (a.host(), a.port())
        },
        websocket: ctx.req_is_web_socket(),
        form: vec![],
        form_count: Ok(0),
        files: vec![],
    };
    if p.read_form {
        // which of the questions is asked first must not matter
        let turn = mood(p) / 5 % 6;
        for step in 0..3 {
            match (step + turn) % 3 {
                0 => o.files = p.files.iter().map(|k| ctx.req_form_file(k.as_str()).map(|f| f.map(|f| (f.filename(), f.size(), f.content()))).map_err(|e| e.to_string())).collect(),
                1 => {
                    o.form = p.form.iter().map(|k| {
                        let (value, have) = if turn < 3 {
                            let value = ctx.req_form(k.as_str());
                            (value, ctx.req_have_form(k.as_str()))
                        } else {
                            let have = ctx.req_have_form(k.as_str());
                            (ctx.req_form(k.as_str()), have)
                        };
                        match (value, have) {
                            (Ok(v), Ok(h)) => Ok((v, h)),
                            (Err(e), _) | (_, Err(e)) => Err(e.to_string()),
                        }
                    }).collect()
                }
                _ => o.form_count = ctx.req_count_form().map_err(|e| e.to_string()),
            }
        }
    }
    o
}

/// Registers handler `m` for method `m` on every path of up to MAX_SEGS segments.
pub fn register_all(s: &mut HttpServer) {
    for (m, name) in METHODS.iter().enumerate() {
        let g = starry_router::Router::new(s, "", None);
        let mut pattern = String::new();
        for i in 0..MAX_SEGS {
            pattern.push_str(&format!("/:p{}", i));
            g.register(name, &pattern, HANDLERS[m], Some(Extend::e1(vec![FILTERS[0]])));
        }
    }
}

thread_local! {
    /// what a filter saw of the request that this thread's handler is about to see
    static EARLIER: RefCell<Option<Obs>> = RefCell::new(None);
}

/// Looks at the request in its handler; in some cases also before, in the filter, or twice.
/// Whatever was read before must not change what the handler sees.
fn watchful(stage: Stage, ctx: &mut Context, p: &Probes) -> Option<Obs> {
    let mode = mood(p) % 5;
    match stage {
        Stage::Filter(_) => {
            EARLIER.with(|e| *e.borrow_mut() = if mode == 0 { Some(look(0, ctx, p)) } else { None });
            None
        }
        Stage::Handler(n) => {
            let mut before = EARLIER.with(|e| e.borrow_mut().take());
            if mode == 1 {
                before = Some(look(n, ctx, p));
            }
            let mut o = look(n, ctx, p);
            if let Some(mut b) = before {
                b.method = n;
                if b != o {
                    o.path = format!("{} (but seen before as {})", o.path, format!("{:?}", b).chars().take(2000).collect::<String>());
                }
            }
            Some(o)
        }
    }
}

pub struct Watch {
    pub addr: SocketAddr,
    pub seen: Events<Obs>,
    probes: Arc<Mutex<Probes>>,
}

impl Watch {
    pub fn probe(&self, p: Probes) {
        *self.probes.lock().unwrap() = p;
        self.seen.take();
    }
}

/// Starts the observing server (once per process: the script is process-wide).
pub fn watch(pool: usize) -> Watch {
    watch_with(pool, |_| {})
}

pub fn watch_with(pool: usize, build: impl FnOnce(&mut HttpServer)) -> Watch {
    watch_at(pool, build, free_addr)
}

/// At an address of IPv6, where there is one.
pub fn watch6(pool: usize) -> Watch {
    watch_at(pool, |_| {}, || free_addr6().unwrap_or_else(free_addr))
}

fn watch_at(pool: usize, build: impl FnOnce(&mut HttpServer), place: impl Fn() -> SocketAddr) -> Watch {
    let seen: Events<Obs> = Events::new();
    let probes: Arc<Mutex<Probes>> = Arc::new(Mutex::new(Probes::default()));
    let (s2, p2) = (seen.clone(), probes.clone());
    set_script(Arc::new(move |stage, ctx| {
        let p = p2.lock().unwrap().clone();
        if let Some(o) = watchful(stage, ctx, &p) {
            ctx.resp_body(format!("{} {}", METHODS[o.method], o.path).into_bytes());
            s2.push(o);
            ctx.response();
        }
    }));
    let server = launch_at(pool, |s| {
        build(s);
        register_all(s)
    }, place);
    Watch { addr: server.addr, seen, probes }
}

// ---------------------------------------------------------------- generated heads

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Auth {
    Basic { scheme: u8, user: String, pass: String },
    Other(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Field {
    pub name: String,
    pub value: String,
    pub before: String,
    pub after: String,
}

impl Field {
    pub fn plain(name: &str, value: &str) -> Field {
        Field { name: name.into(), value: value.into(), before: " ".into(), after: String::new() }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Head {
    pub method: usize,
    pub segs: Vec<String>,
    pub query: Option<Vec<String>>,
    pub fragment: Option<String>,
    pub old: bool,
    pub headers: Vec<Field>,
    pub cookies: Option<(Vec<(String, String)>, bool)>,
    pub auth: Option<Auth>,
    pub connection: Option<Vec<String>>,
    pub upgrade: Option<String>,
    /// where Host, Cookie, Authorization, Connection, Upgrade stand among the headers
    pub order: u64,
    /// how the names of the headers the library acts on are spelled; 0 is the usual way
    pub case: u16,
    pub host: String,
}

pub const SCHEMES: [&str; 4] = ["Basic", "basic", "BASIC", "bAsIc"];

impl Head {
    pub fn path(&self) -> String {
        self.segs.iter().map(|s| format!("/{}", s)).collect()
    }

    pub fn target(&self) -> String {
        let mut t = self.path();
        if let Some(q) = &self.query {
            t.push('?');
            t.push_str(&q.join("&"));
        }
        if let Some(f) = &self.fragment {
            t.push('#');
            t.push_str(f);
        }
        t
    }

    pub fn params(&self) -> BTreeMap<String, String> {
        pairs(self.query.iter().flatten())
    }

    /// A header name in some letter case.
    pub fn spell(&self, k: u32, name: &str) -> String {
        match (self.case >> (2 * (k % 8))) & 3 {
            0 => name.to_string(),
            1 => name.to_lowercase(),
            2 => name.to_uppercase(),
            _ => name.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
        }
    }

    /// All headers, in the order they are sent.
    pub fn fields(&self) -> Vec<Field> {
        let mut extra = vec![Field::plain("Host", &self.host)];
        if let Some((c, tight)) = &self.cookies {
            let text = c.iter().map(|(n, v)| format!("{}={}", n, v)).collect::<Vec<_>>().join(if *tight { ";" } else { "; " });
            extra.push(Field::plain("Cookie", &text));
        }
        match &self.auth {
            Some(Auth::Basic { scheme, user, pass }) => {
                let t = super::codec::ref_b64(format!("{}:{}", user, pass).as_bytes());
                extra.push(Field::plain("Authorization", &format!("{}{}{}", SCHEMES[*scheme as usize % 4], [" ", " ", "  ", "   "][*scheme as usize / 4 % 4], t)));
            }
            Some(Auth::Other(t)) => extra.push(Field::plain("Authorization", t)),
            None => {}
        }
        if let Some(c) = &self.connection {
            extra.push(Field::plain("Connection", &c.concat()));
        }
        if let Some(u) = &self.upgrade {
            extra.push(Field::plain("Upgrade", u));
        }
        let mut all = self.headers.clone();
        let mut x = self.order;
        for (k, mut e) in extra.into_iter().enumerate() {
            e.name = self.spell(k as u32, &e.name);
            let at = (x % (all.len() as u64 + 1)) as usize;
            x = x.rotate_right(11).wrapping_mul(0x9e3779b97f4a7c15);
            all.insert(at, e);
        }
        all
    }

    pub fn version(&self) -> &'static str {
        if self.old { "HTTP/1.0" } else { "HTTP/1.1" }
    }

    /// The head with each line ended by what `eol` gives for its number.
    pub fn bytes_with(&self, more: &[Field], eol: impl Fn(usize) -> &'static str) -> Vec<u8> {
        let mut v = format!("{} {} {}", METHODS[self.method], self.target(), self.version()).into_bytes();
        let mut n = 0;
        let mut end = |v: &mut Vec<u8>| {
            v.extend_from_slice(eol(n).as_bytes());
            n += 1;
        };
        end(&mut v);
        for f in self.fields().iter().chain(more) {
            v.extend_from_slice(format!("{}:{}{}{}", f.name, f.before, f.value, f.after).as_bytes());
            end(&mut v);
        }
        end(&mut v);
        v
    }

    pub fn bytes(&self, more: &[Field]) -> Vec<u8> {
        self.bytes_with(more, |_| "\r\n")
    }

    pub fn header_map(&self, more: &[Field]) -> BTreeMap<String, Vec<String>> {
        self.fields().iter().chain(more).map(|f| (f.name.clone(), vec![f.value.clone()])).collect()
    }

    pub fn kept_alive(&self) -> bool {
        self.connection.as_ref().map_or(false, |c| c.concat() == "keep-alive")
    }

    pub fn websocket(&self) -> bool {
        self.upgrade.as_ref().map_or(false, |u| u.eq_ignore_ascii_case("websocket"))
            && self.connection.as_ref().map_or(false, |c| c.concat().split(',').any(|t| t.trim_matches(|c| c == ' ' || c == '\t').eq_ignore_ascii_case("upgrade")))
    }

    pub fn user(&self) -> Option<(String, String)> {
        match &self.auth {
            Some(Auth::Basic { user, pass, .. }) => Some((user.clone(), pass.clone())),
            _ => None,
        }
    }

    pub fn probes(&self) -> Probes {
        let ask = |v: Vec<String>| -> Vec<String> {
            let mut v: Vec<String> = v;
            v.sort();
            v.dedup();
            v.extend(["nope".to_string(), "".to_string(), "Nope-Header".to_string()].into_iter().filter(|x| !v.contains(x)).collect::<Vec<_>>());
            v
        };
        Probes {
            headers: ask(self.fields().into_iter().map(|f| f.name).collect()),
            params: ask(self.params().into_keys().collect()),
            cookies: ask(self.cookies.iter().flat_map(|c| c.0.iter().map(|c| c.0.clone())).collect()),
            ..Probes::default()
        }
    }

    /// What the handler must see (the form parts are left empty).
    pub fn expected(&self, more: &[Field], p: &Probes, client: SocketAddr) -> Obs {
        let map = self.header_map(more);
        let params = self.params();
        let cookies: Vec<(String, String)> = self.cookies.clone().map(|c| c.0).unwrap_or_default();
        let text = |c: &(String, String)| Cookie::new(c.0.clone(), c.1.clone()).to_string();
        Obs {
            method: self.method,
            path: self.path(),
            fields: (0..=MAX_SEGS).map(|i| self.segs.get(i).cloned()).collect(),
            field_count: self.segs.len(),
            got_headers: p.headers.iter().map(|k| map.get(k).map(|v| v[0].clone())).collect(),
            headers: map,
            params: p.params.iter().map(|k| (params.get(k).cloned(), params.contains_key(k))).collect(),
            param_count: params.len(),
            got_cookies: p.cookies.iter().map(|k| cookies.iter().find(|c| c.0 == *k).map(text)).collect(),
            cookies: cookies.iter().map(text).collect(),
            user: self.user(),
            client: (client.ip().to_string(), client.port()),
            websocket: self.websocket(),
            form: vec![],
            form_count: Ok(0),
            files: vec![],
        }
    }
}

/// The reference reading of '&'-separated pieces: split at the first '=', the last of a name wins.
pub fn pairs<'a>(pieces: impl Iterator<Item = &'a String>) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for p in pieces {
        for piece in p.split('&') {
            if piece.is_empty() {
                continue;
            }
            match piece.split_once('=') {
                Some((k, v)) => m.insert(k.to_string(), v.to_string()),
                None => m.insert(piece.to_string(), String::new()),
            };
        }
    }
    m
}

pub fn diff(got: &Obs, want: &Obs) -> Option<String> {
    macro_rules! cmp {
        ($($f:ident),*) => { $( if got.$f != want.$f { return Some(format!("{}: {:?} instead of {:?}", stringify!($f), got.$f, want.$f)); } )* };
    }
    cmp!(method, path, fields, field_count, headers, got_headers, params, param_count, cookies, got_cookies, user, client, websocket, form, form_count);
    if got.files != want.files {
        let brief = |v: &Vec<Result<File, String>>| v.iter().map(|f| match f {
            Ok(Some((n, s, c))) => format!("{:?} ({} bytes) {}", n, s, show(c)),
            Ok(None) => "none".into(),
            Err(e) => e.clone(),
        }).collect::<Vec<_>>().join("; ");
        return Some(format!("files: {} instead of {}", brief(&got.files), brief(&want.files)));
    }
    None
}

// ---------------------------------------------------------------- generators

pub fn segment() -> BoxedStrategy<String> {
    prop_oneof![
        4 => gen::over("abcXYZ012-._~", 0, 8),
        2 => gen::over("a:@!$&'()*+,;=%/.", 0, 6).prop_map(|s| s.replace('/', "")),
        1 => gen::over("abc", 0, 60),
    ].boxed()
}

const QNAMES: &[&str] = &["a", "b", "A", "key", "k", "", "a.b", "x-y"];

pub fn piece() -> BoxedStrategy<String> {
    prop_oneof![
        4 => (gen::few(QNAMES), gen::over("abc01=/?:@%+,;!*'()-._~", 0, 10)).prop_map(|(k, v)| format!("{}={}", k, v)),
        1 => (gen::over("abcXYZ-._~%+", 1, 8), gen::over("abc01", 0, 4)).prop_map(|(k, v)| format!("{}={}", k, v)),
        1 => gen::few(&["", "a", "b=", "=", "=x", "a==", "a=b=c", "key"]),
        1 => (gen::few(QNAMES), gen::over("abc01=", 0, 1500)).prop_map(|(k, v)| format!("{}={}", k, v)),
    ].boxed()
}

pub fn field() -> BoxedStrategy<Field> {
    let blank = || prop_oneof![4 => Just(" ".to_string()), 1 => Just(String::new()), 1 => gen::over(" \t", 0, 4)];
    let name = prop_oneof![
        3 => gen::few(&["Accept", "User-Agent", "Referer", "Origin", "Accept-Language", "X-A", "X-B", "X-C", "Cache-Control", "Date", "If-Match", "X-Forwarded-For", "Via", "Set-Cookie", "Trailer", "Accept-Encoding"]),
        2 => gen::over(gen::TOKEN, 1, 12).prop_map(|s| format!("X-{}", s)),
    ];
    let value = prop_oneof![
        3 => gen::over("abcXYZ012 ,;=:/\"()<>@-._~?#&*'", 0, 24),
        1 => gen::few(&["", "http://h:80/p?q=r: s", "\"a: b\"", "close", "Content-Length: 5", "text/html;q=0.5, */*", "a\tb", ":", "::", "a:b", "Mon, 01 Jan 2024 00:00:00 GMT"]),
        1 => gen::text(16),
        1 => gen::over("abc: ;", 0, 1400),
    ].prop_map(|v| v.trim_matches(|c| c == ' ' || c == '\t').to_string());
    (name, value, blank(), blank()).prop_map(|(name, value, before, after)| {
        let after = if after == " " { String::new() } else { after };
        Field { name, value, before, after }
    }).boxed()
}

pub fn auth() -> BoxedStrategy<Auth> {
    let user = prop_oneof![3 => gen::over("abcXYZ012@.-_ %/?#", 1, 12), 1 => gen::text(6).prop_map(|s| format!("u{}", s.replace(':', "")))];
    let pass = prop_oneof![3 => gen::over("abc012:@/?#% =", 0, 14), 1 => gen::text(8), 1 => Just(String::new()), 1 => gen::over("abc:", 40, 300)];
    prop_oneof![
        4 => (0u8..16, user, pass).prop_map(|(scheme, user, pass)| Auth::Basic { scheme, user, pass }),
        1 => gen::few(&["Bearer abc.def", "Digest username=\"a\", realm=\"b\"", "Negotiate dXNlcjpwYXNz", "bearer dXNlcjpwYXNz", "Basically dXNlcjpwYXNz", "token", "Bearer Basic dXNlcjpwYXNz"]).prop_map(Auth::Other),
    ].boxed()
}

/// The value of a Host header.
fn host() -> BoxedStrategy<String> {
    prop_oneof![
        4 => Just(String::from("localhost:80")),
        3 => gen::few(&["localhost", "h", "www.example.com", "EXAMPLE.org:8080", "127.0.0.1", "127.0.0.1:65535", "[::1]", "[::1]:8080", "a.b.c.d.e.f", "xn--bcher-kva.example", "-", "a_b"]),
        1 => gen::over("abcXYZ019-.", 1, 40),
    ].boxed()
}

pub fn head(methods: BoxedStrategy<usize>) -> BoxedStrategy<Head> {
    let tokens = vec((gen::few(&["keep-alive", "close", "upgrade", "Upgrade", "UPGRADE", "upgradex", "x-upgrade", "TE", ""]), gen::few(&[",", ", ", " ,", "\t, "])), 1..4)
        .prop_map(|v| {
            let mut out: Vec<String> = vec![];
            for (i, (t, sep)) in v.into_iter().enumerate() {
                if i > 0 {
                    out.push(sep);
                }
                out.push(t);
            }
            // blanks around the whole value are not part of it
            out.iter().map(|s| s.to_string()).collect::<Vec<_>>()
        });
    let connection = prop_oneof![
        4 => Just(vec!["close".to_string()]),
        3 => Just(vec!["keep-alive".to_string()]),
        3 => tokens.prop_map(|v| vec![v.concat().trim_matches(|c| c == ' ' || c == '\t').to_string()]),
    ];
    let upgrade = gen::few(&["websocket", "WebSocket", "WEBSOCKET", "websockets", "h2c", "web socket", ""]);
    let cookies = (vec((cookies::name(), cookies::plain_value().prop_map(|v| v.trim().to_string())), 1..6), any::<bool>());
    let shape = (methods, vec(segment(), 1..=MAX_SEGS), option::of(vec(piece(), 0..6)), option::weighted(0.2, gen::over("abc?&=/", 0, 6)), proptest::bool::weighted(0.25));
    let extra = (option::of(cookies), option::weighted(0.4, auth()), option::weighted(0.5, connection), option::weighted(0.4, upgrade));
    let case = prop_oneof![3 => Just(0u16), 1 => any::<u16>(), 1 => proptest::sample::select(vec![0x5555u16, 0xaaaa, 0xffff])];
    (shape, vec(field(), 0..8), extra, (any::<u64>(), case, host())).prop_map(|((method, segs, query, fragment, old), headers, (cookies, auth, connection, upgrade), (order, case, host))| Head {
        method, segs, query, fragment, old, headers, cookies, auth, connection, upgrade, order, case, host,
    }).boxed()
}

pub fn any_method() -> BoxedStrategy<usize> {
    (0usize..12).boxed()
}

/// POST, PUT, PATCH
pub fn body_method() -> BoxedStrategy<usize> {
    proptest::sample::select(vec![1usize, 2, 8]).boxed()
}

// ---------------------------------------------------------------- generated bodies

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Part {
    pub name: String,
    pub file: Option<String>,
    pub content: Content,
    /// how the part's head is written
    pub style: u64,
    pub ctype: Option<String>,
}

/// Part contents: pieces, where Mark(k) is text resembling the boundary.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Content(pub Vec<Chunk>);

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Chunk {
    Bytes(Vec<u8>),
    Text(String),
    Noise(usize, u64),
    Bulk(usize, u64, u8),
    Mark(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Body {
    None,
    /// urlencoded: pieces, content type number
    Form(Vec<String>, u8),
    Multipart { parts: Vec<Part>, boundary: String, quoted: bool, dress: u8, epilogue: Vec<u8> },
    /// any other content type
    Raw(Vec<u8>, Option<String>),
}

const FORM_TYPES: [&str; 5] = ["application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "Application/X-WWW-Form-Urlencoded", "application/x-www-form-urlencoded;charset=UTF-8", "application/x-www-form-urlencoded ; a=b"];

impl Content {
    pub fn bytes(&self, boundary: &str, text: bool, lf: bool) -> Vec<u8> {
        let mut v: Vec<u8> = vec![];
        for c in &self.0 {
            match c {
                Chunk::Bytes(b) => v.extend_from_slice(b),
                Chunk::Text(t) => v.extend_from_slice(t.as_bytes()),
                Chunk::Noise(n, s) => v.extend(gen::noise(*n, *s)),
                Chunk::Bulk(n, s, k) => v.extend(gen::bulk(*n, *s, *k)),
                Chunk::Mark(k) => {
                    let cut = boundary.char_indices().last().map(|x| x.0).unwrap_or(0);
                    let t = match k % 10 {
                        0 => format!("\r\n--{}x\r\n", boundary),
                        1 => format!("\r\n--{}", &boundary[..cut]),
                        2 => format!("\r\n-{}\r\n", boundary),
                        3 => format!("x--{}\r\n", boundary),
                        4 => format!("\r\n--{}-\r\n", boundary),
                        5 => format!("\r\n--{}--x\r\n", boundary),
                        6 => format!("{}--\r\n", boundary),
                        7 => String::from("\r\n--\r\n"),
                        8 => format!("\n---{}\n", boundary),
                        _ => format!("\r\n --{}\r\n", boundary),
                    };
                    v.extend_from_slice(t.as_bytes())
                }
            }
        }
        if text {
            v = String::from_utf8_lossy(&v).into_owned().into_bytes();
        }
        // with LF line ends the delimiter's line break is a single LF; nothing to adjust for CR before it,
        // except that a final CR would be read as part of a CRLF
        if lf {
            while v.last() == Some(&b'\r') {
                v.pop();
            }
        }
        // a line that is the delimiter would end the part: that is not this part's content then
        let d = format!("--{}", boundary);
        let is_delim = |line: &[u8]| {
            let l = line.strip_suffix(b"\n").unwrap_or(line);
            let l = l.strip_suffix(b"\r").unwrap_or(l);
            l == d.as_bytes() || l == format!("{}--", d).as_bytes()
        };
        let bad = v.split_inclusive(|b| *b == b'\n').any(is_delim);
        if bad {
            v = v.iter().map(|b| if *b == b'-' { b'_' } else { *b }).collect();
            if v.split_inclusive(|b| *b == b'\n').any(is_delim) {
                v.clear();
            }
        }
        v
    }
}

fn quote(s: &str) -> String {
    format!("\"{}\"", s.replace('"', "\\\""))
}

impl Part {
    fn head(&self, eol: &str) -> String {
        let token = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || "-_.!+".contains(c));
        let st = self.style;
        let val = |s: &str, bit: u64| if token(s) && (st >> bit) & 3 == 0 { s.to_string() } else { quote(s) };
        let mut params = vec![format!("name={}", val(&self.name, 0))];
        if let Some(f) = &self.file {
            params.push(format!("filename={}", val(f, 2)));
            if (st >> 4) & 3 == 0 {
                params.reverse();
            }
        }
        let sep = ["; ", ";", " ; "][((st >> 6) % 3) as usize];
        let cd = ["Content-Disposition", "content-disposition", "CONTENT-DISPOSITION"][((st >> 8) % 3) as usize];
        let colon = [": ", ":", ":  "][((st >> 10) % 3) as usize];
        let cd = format!("{}{}form-data{}{}", cd, colon, sep, params.join(sep));
        let mut lines = vec![cd];
        if let Some(t) = &self.ctype {
            let l = format!("{}: {}", if (st >> 12) & 1 == 0 { "Content-Type" } else { "content-type" }, t);
            if (st >> 13) & 3 == 0 { lines.insert(0, l) } else { lines.push(l) }
        }
        if (st >> 15) & 7 == 0 {
            lines.push(String::from("Content-Transfer-Encoding: binary"));
        }
        if (st >> 18) & 7 == 0 {
            lines.insert(0, String::from("X-Custom: name=\"fake\"; filename=\"fake\""));
        }
        lines.iter().map(|l| format!("{}{}", l, eol)).collect::<String>() + eol
    }

    pub fn content_bytes(&self, boundary: &str, lf: bool) -> Vec<u8> {
        self.content.bytes(boundary, self.file.is_none(), lf)
    }
}

impl Body {
    /// The bytes, and the Content-Type header if any.
    pub fn build(&self) -> (Vec<u8>, Option<String>) {
        match self {
            Body::None => (vec![], None),
            Body::Form(p, t) => (p.join("&").into_bytes(), Some(FORM_TYPES[*t as usize % FORM_TYPES.len()].to_string())),
            Body::Multipart { parts, boundary, quoted, dress, epilogue } => {
                let lf = *dress & 1 == 1;
                let eol = if lf { "\n" } else { "\r\n" };
                let mut v: Vec<u8> = vec![];
                for p in parts {
                    v.extend_from_slice(format!("--{}{}", boundary, eol).as_bytes());
                    v.extend_from_slice(p.head(eol).as_bytes());
                    v.extend_from_slice(&p.content_bytes(boundary, lf));
                    v.extend_from_slice(eol.as_bytes());
                }
                v.extend_from_slice(format!("--{}--", boundary).as_bytes());
                if (*dress >> 1) & 3 != 0 {
                    v.extend_from_slice(eol.as_bytes());
                    v.extend_from_slice(epilogue);
                }
                let name = ["multipart/form-data", "Multipart/Form-Data", "multipart/FORM-DATA"][(*dress >> 3) as usize % 3];
                let b = if *quoted { format!("\"{}\"", boundary) } else { boundary.clone() };
                let t = match (*dress >> 5) % 3 {
                    0 => format!("{}; boundary={}", name, b),
                    1 => format!("{};boundary={}", name, b),
                    _ => format!("{}; charset=utf-8; boundary={}", name, b),
                };
                (v, Some(t))
            }
            Body::Raw(b, t) => (b.clone(), t.clone()),
        }
    }

    pub fn form(&self) -> BTreeMap<String, String> {
        match self {
            Body::Form(p, _) => pairs(p.iter()),
            Body::Multipart { parts, boundary, dress, .. } => parts.iter().filter(|p| p.file.is_none())
                .map(|p| (p.name.clone(), String::from_utf8(p.content_bytes(boundary, *dress & 1 == 1)).unwrap())).collect(),
            _ => BTreeMap::new(),
        }
    }

    pub fn files(&self) -> BTreeMap<String, (String, usize, Vec<u8>)> {
        match self {
            Body::Multipart { parts, boundary, dress, .. } => parts.iter().filter_map(|p| p.file.clone().map(|f| {
                let c = p.content_bytes(boundary, *dress & 1 == 1);
                (p.name.clone(), (f, c.len(), c))
            })).collect(),
            _ => BTreeMap::new(),
        }
    }

    /// Every name a handler could ask for, and some others.
    pub fn probe(&self, p: &mut Probes) {
        let mut names: Vec<String> = match self {
            Body::Multipart { parts, .. } => parts.iter().map(|p| p.name.clone()).collect(),
            _ => self.form().into_keys().collect(),
        };
        names.extend(p.params.iter().cloned());
        names.push(String::from("fake"));
        names.sort();
        names.dedup();
        p.form = names.clone();
        p.files = names;
        p.read_form = true;
    }

    pub fn expect(&self, o: &mut Obs, p: &Probes, has_body: bool) {
        let (form, files) = if has_body { (self.form(), self.files()) } else { Default::default() };
        o.form = p.form.iter().map(|k| Ok((form.get(k).cloned(), form.contains_key(k)))).collect();
        o.form_count = Ok(form.len());
        o.files = p.files.iter().map(|k| Ok(files.get(k).cloned())).collect();
    }
}

pub fn form_pieces() -> BoxedStrategy<Vec<String>> {
    let value = prop_oneof![
        4 => gen::over("abc01=/?:@%+,;!*'()-._~#", 0, 12),
        1 => gen::over("ab\r\n =", 0, 8),
        1 => gen::text(10).prop_map(|s| s.replace('&', "")),
        1 => (gen::edge_size(6000), gen::over("abc=%+0", 1, 7)).prop_map(|(n, p)| p.chars().cycle().take(n).collect()),
    ];
    let name = prop_oneof![4 => gen::few(QNAMES), 1 => gen::over("abcXYZ-._~%+[] \r\n", 1, 8), 1 => gen::text(5).prop_map(|s| s.replace(['&', '='], ""))];
    let p = prop_oneof![6 => (name, value).prop_map(|(k, v)| format!("{}={}", k, v)), 1 => gen::few(&["", "a", "b=", "=", "=x", "a==", "\r\n", "&", "&&a"])];
    vec(p, 0..8).boxed()
}

/// Many pieces or long ones.
pub fn big_form() -> BoxedStrategy<Vec<String>> {
    let name = prop_oneof![1 => gen::few(QNAMES), 2 => gen::over("abcdefgh", 1, 5), 1 => gen::over("abc", 200, 2000)];
    let small = (name.clone(), gen::over("abc01=%+", 0, 12)).prop_map(|(k, v)| format!("{}={}", k, v));
    let long = (name, gen::big_size(1 << 20), "[a-z0-9%+=]{1,6}").prop_map(|(k, n, p)| format!("{}={}", k, p.chars().cycle().take(n).collect::<String>()));
    prop_oneof![
        4 => vec(small.clone(), 30..600),
        1 => vec(small.clone(), 600..3_000),
        5 => (vec(small.clone(), 0..5), vec(long, 1..3), vec(small, 0..5)).prop_map(|(a, b, c)| [a, b, c].concat()),
    ].boxed()
}

pub fn content(max: usize) -> BoxedStrategy<Content> {
    let chunk = prop_oneof![
        3 => gen::bytes(40).prop_map(Chunk::Bytes),
        2 => gen::over("abc\r\n-", 0, 20).prop_map(Chunk::Text),
        2 => gen::text(12).prop_map(Chunk::Text),
        2 => gen::few(&["\r\n", "\n", "\r", "\r\n\r\n", "\r\r\n", "--", "\n\n", "\r\n--"]).prop_map(Chunk::Text),
        2 => any::<u8>().prop_map(Chunk::Mark),
        1 => (gen::edge_size(max), any::<u64>()).prop_map(|(n, s)| Chunk::Noise(n, s)),
    ];
    if max < 100_000 {
        return vec(chunk, 0..6).prop_map(Content).boxed();
    }
    let bulk = (gen::big_size(max), any::<u64>(), any::<u8>()).prop_map(|(n, s, k)| Chunk::Bulk(n, s, k));
    vec(prop_oneof![3 => chunk, 1 => bulk], 0..5).prop_map(Content).boxed()
}

fn part_name() -> BoxedStrategy<String> {
    prop_oneof![
        4 => gen::few(&["a", "b", "file", "A", "f[]", "a b", ""]),
        1 => gen::over("abc01-_.;=: '\"/@,", 1, 14),
        1 => gen::text(8).prop_map(|s| s.replace('\\', "/")),
    ].boxed()
}

pub fn part(max: usize) -> BoxedStrategy<Part> {
    let file = prop_oneof![
        3 => gen::few(&["a.txt", "b.bin", "", "a b.txt", "x;y.txt", "name=\"z\".txt", "C:\\dir\\f.txt", "été.png", "--x"]),
        1 => gen::over("abc01-_.;=: '\"/@,", 1, 20),
    ];
    let ctype = gen::few(&["text/plain", "application/octet-stream", "image/png", "text/html; charset=utf-8", "application/x-unknown", "multipart/mixed; boundary=zz"]);
    (part_name(), option::of(file), content(max), any::<u64>(), option::of(ctype)).prop_map(|(name, file, content, style, ctype)| Part { name, file, content, style, ctype }).boxed()
}

pub fn multipart(max: usize) -> BoxedStrategy<Body> {
    let epilogue = prop_oneof![3 => Just(vec![]), 1 => gen::bytes(30), 1 => Just(b"--x\r\nContent-Disposition: form-data; name=\"late\"\r\n\r\nv\r\n".to_vec())];
    (vec(part(max), 0..6), tokens::boundary(), any::<u8>(), epilogue).prop_map(|(parts, (boundary, quoted), dress, epilogue)| Body::Multipart { parts, boundary, quoted, dress, epilogue }).boxed()
}

pub fn raw() -> BoxedStrategy<Body> {
    let t = gen::few(&["text/plain", "application/json", "application/octet-stream", "application/x-www-form-urlencodedx", "multipart/mixed; boundary=b", "x", "text/html; charset=utf-8"]);
    (prop_oneof![2 => gen::bytes(3000), 1 => form_pieces().prop_map(|p| p.join("&").into_bytes())], option::weighted(0.8, t)).prop_map(|(b, t)| Body::Raw(b, t)).boxed()
}

pub fn body(max: usize) -> BoxedStrategy<Body> {
    prop_oneof![
        1 => Just(Body::None),
        3 => (form_pieces(), any::<u8>()).prop_map(|(p, t)| Body::Form(p, t)),
        3 => multipart(max),
        1 => raw(),
    ].boxed()
}
