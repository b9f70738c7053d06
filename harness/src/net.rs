//! Raw HTTP over loopback TCP: an independent client, an independent response reader, and launching
//! of the library's server.
use starry::{Context, HttpServer};
use std::io::{ErrorKind, Read, Write};
use std::net::{IpAddr, Ipv4Addr, Shutdown, SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, RwLock};
use std::thread;
use std::time::Duration;

// ---------------------------------------------------------------- heartbeat

static BEATS: AtomicU64 = AtomicU64::new(0);
const BEAT_MS: u64 = 10;

/// Deadlines are counted in executed 10 ms sleeps of another thread, so that a starved machine
/// stretches them instead of turning slowness into a verdict.
pub fn start_heartbeat() {
    thread::spawn(|| {
        crate::clock::exempt();
        loop {
            thread::sleep(Duration::from_millis(BEAT_MS));
            BEATS.fetch_add(1, Ordering::SeqCst);
        }
    });
}

#[derive(Clone, Copy)]
pub struct Deadline(u64);
impl Deadline {
    pub fn ms(ms: u64) -> Deadline {
        Deadline(BEATS.load(Ordering::SeqCst) + ms / BEAT_MS)
    }
    pub fn over(&self) -> bool {
        BEATS.load(Ordering::SeqCst) >= self.0
    }
}

/// Time allowed for an answer that normally takes well under a millisecond.
pub const PATIENCE_MS: u64 = 20_000;

pub fn wait_until(ms: u64, mut f: impl FnMut() -> bool) -> bool {
    let d = Deadline::ms(ms);
    let mut pause = 20;
    loop {
        if f() {
            return true;
        }
        if d.over() {
            return f();
        }
        thread::sleep(Duration::from_micros(pause));
        pause = (pause * 2).min(2000);
    }
}

// ---------------------------------------------------------------- handlers

pub type Script = Arc<dyn Fn(Stage, &mut Context) + Send + Sync>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stage {
    Handler(usize),
    Filter(usize),
}

static SCRIPT: RwLock<Option<Script>> = RwLock::new(None);

/// Installs what handlers and filters do from now on (in this process).
pub fn set_script(s: Script) {
    let mut w = match SCRIPT.write() {
        Ok(w) => w,
        Err(p) => p.into_inner(),
    };
    *w = Some(s)
}

fn dispatch(stage: Stage, ctx: &mut Context) {
    let script = match SCRIPT.read() {
        Ok(r) => r.clone(),
        Err(p) => p.into_inner().clone(),
    };
    if let Some(s) = script {
        s(stage, ctx)
    }
}

fn h<const N: usize>(ctx: &mut Context) {
    dispatch(Stage::Handler(N), ctx)
}
fn f<const N: usize>(ctx: &mut Context) {
    dispatch(Stage::Filter(N), ctx)
}

pub type HandlerFn = fn(&mut Context);
macro_rules! table {
    ($f:ident: $($n:literal)*) => { [$($f::<$n>),*] };
}
pub const MAX_HANDLERS: usize = 48;
pub static HANDLERS: [HandlerFn; MAX_HANDLERS] = table!(h: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47);
pub static FILTERS: [HandlerFn; MAX_HANDLERS] = table!(f: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47);

pub const METHODS: [&str; 12] = ["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE", "CONNECT", "PATCH", "LINK", "UNLINK", "PRI"];

/// Registers handler `n` for `method` on `pattern`, optionally extended.
pub fn register(r: &starry_router::Router<'_>, method: &str, pattern: &str, n: usize, ext: Option<starry::Extend>) {
    r.register(method, pattern, HANDLERS[n], ext)
}

/// The library does not export its router type by name; this wraps a group.
pub mod starry_router {
    use super::HandlerFn;
    use starry::{Extend, HttpServer};
    pub struct Router<'a> {
        server: &'a HttpServer,
        prefix: String,
        ext: Option<Extend>,
    }
    impl<'a> Router<'a> {
        pub fn new(server: &'a HttpServer, prefix: &str, ext: Option<Extend>) -> Self {
            Router { server, prefix: prefix.to_string(), ext }
        }
        pub fn register(&self, method: &str, pattern: &str, hf: HandlerFn, ext: Option<Extend>) {
            let r = match &self.ext {
                Some(e) => self.server.router_wf(&self.prefix, e.clone()),
                None => self.server.router(&self.prefix),
            };
            match ext {
                None => match method {
                    "GET" => r.get(pattern, hf),
                    "POST" => r.post(pattern, hf),
                    "PUT" => r.put(pattern, hf),
                    "DELETE" => r.delete(pattern, hf),
                    "HEAD" => r.head(pattern, hf),
                    "OPTIONS" => r.option(pattern, hf),
                    "TRACE" => r.trace(pattern, hf),
                    "CONNECT" => r.connect(pattern, hf),
                    "PATCH" => r.patch(pattern, hf),
                    "LINK" => r.link(pattern, hf),
                    "UNLINK" => r.unlink(pattern, hf),
                    "PRI" => r.pri(pattern, hf),
                    _ => unreachable!(),
                },
                Some(e) => match method {
                    "GET" => r.get_wf(pattern, hf, e),
                    "POST" => r.post_wf(pattern, hf, e),
                    "PUT" => r.put_wf(pattern, hf, e),
                    "DELETE" => r.delete_wf(pattern, hf, e),
                    "HEAD" => r.head_wf(pattern, hf, e),
                    "OPTIONS" => r.option_wf(pattern, hf, e),
                    "TRACE" => r.trace_wf(pattern, hf, e),
                    "CONNECT" => r.connect_wf(pattern, hf, e),
                    "PATCH" => r.patch_wf(pattern, hf, e),
                    "LINK" => r.link_wf(pattern, hf, e),
                    "UNLINK" => r.unlink_wf(pattern, hf, e),
                    "PRI" => r.pri_wf(pattern, hf, e),
                    _ => unreachable!(),
                },
            }
        }
    }
}

// ---------------------------------------------------------------- servers

static NEXT_PORT: AtomicUsize = AtomicUsize::new(0);

/// A loopback address of this process's own, so that parallel workers never meet.
pub fn own_ip() -> Ipv4Addr {
    let pid = std::process::id();
    Ipv4Addr::new(127, 1 + ((pid >> 14) & 0x7f) as u8, ((pid >> 7) & 0x7f) as u8, 2 + (pid & 0x7f) as u8)
}

/// A port that is free on `own_ip` (outside the ephemeral range).
pub fn free_addr() -> SocketAddr {
    for _ in 0..20000 {
        let n = NEXT_PORT.fetch_add(1, Ordering::SeqCst);
        let port = 10_000 + (n % 20_000) as u16;
        let addr = SocketAddr::new(IpAddr::V4(own_ip()), port);
        if TcpListener::bind(addr).is_ok() {
            return addr;
        }
    }
    eprintln!("no free loopback port");
    std::process::exit(3)
}

/// A port of `[::1]` that is free and that no other worker will take; none where there is no IPv6.
pub fn free_addr6() -> Option<SocketAddr> {
    static CLAIMS: Mutex<Vec<TcpListener>> = Mutex::new(vec![]);
    let one = |port| SocketAddr::from(([0, 0, 0, 0, 0, 0, 0, 1], port));
    TcpListener::bind(one(0)).ok()?;
    for _ in 0..20000 {
        let n = NEXT_PORT.fetch_add(1, Ordering::SeqCst);
        let port = 10_000 + (n % 20_000) as u16;
        // all workers share the address, so the port of 127.0.0.1 is held as a claim to it
        if let Ok(claim) = TcpListener::bind(("127.0.0.1", port)) {
            if TcpListener::bind(one(port)).is_ok() {
                CLAIMS.lock().unwrap().push(claim);
                return Some(one(port));
            }
        }
    }
    None
}

pub struct Server {
    pub addr: SocketAddr,
}

/// Starts a server of the library; it lives until the process ends (the library offers no stop).
pub fn launch(pool: usize, build: impl FnOnce(&mut HttpServer)) -> Server {
    launch_at(pool, build, free_addr)
}

pub fn launch_at(pool: usize, build: impl FnOnce(&mut HttpServer), place: impl Fn() -> SocketAddr) -> Server {
    let mut server = HttpServer::new();
    server.set_pool_size(pool);
    server.set_log(log::LevelFilter::Off, String::from("./log"), 1, 1);
    build(&mut server);
    start_at(server, place)
}

pub fn start(server: HttpServer) -> Server {
    start_at(server, free_addr)
}

pub fn start_at(server: HttpServer, place: impl Fn() -> SocketAddr) -> Server {
    let mut last = String::new();
    for _ in 0..20 {
        let addr = place();
        let s = server.clone();
        let th = thread::spawn(move || {
            let _ = s.listener(addr);
        });
        let d = Deadline::ms(PATIENCE_MS);
        loop {
            if th.is_finished() {
                last = String::from("listener ended");
                break;
            }
            match TcpStream::connect_timeout(&addr, Duration::from_secs(5)) {
                Ok(s) => {
                    drop(s);
                    return Server { addr };
                }
                Err(e) => last = e.to_string(),
            }
            if d.over() {
                break;
            }
            thread::sleep(Duration::from_millis(1));
        }
    }
    panic!("the server does not accept connections: {}", last)
}

// ---------------------------------------------------------------- client side

pub struct Conn {
    pub s: TcpStream,
    pub buf: Vec<u8>,
    pub eof: bool,
    pub reset: bool,
    pub patience: u64,
}

#[derive(Debug, Clone)]
pub struct Resp {
    pub version: String,
    pub code: u16,
    pub phrase: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

impl Resp {
    pub fn get(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str())
    }
    pub fn all(&self, name: &str) -> Vec<&str> {
        self.headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str()).collect()
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum NetErr {
    /// nothing (more) arrived within the deadline
    Timeout(String),
    /// the stream ended before a complete response
    Closed(String),
    /// bytes that are not a response
    Garbage(String),
}

impl NetErr {
    pub fn verdict(self, what: &str) -> crate::drv::Verdict {
        match self {
            NetErr::Timeout(m) => crate::drv::Verdict::Slow(format!("{}: no answer: {}", what, m)),
            NetErr::Closed(m) => crate::drv::Verdict::Fail(format!("{}: connection closed: {}", what, m)),
            NetErr::Garbage(m) => crate::drv::Verdict::Fail(format!("{}: not a response: {}", what, m)),
        }
    }
}

pub fn show(b: &[u8]) -> String {
    let mut s = b[..b.len().min(400)].escape_ascii().to_string();
    if b.len() > 400 {
        s.push_str(&format!(" … ({} bytes)", b.len()));
    }
    s
}

/// The server writes an answer in several pieces; without immediate acknowledgements each answer on a
/// kept connection would take a delayed-acknowledgement time (40 ms).
fn quick_ack(s: &TcpStream) {
    use std::os::fd::AsRawFd;
    let on: libc::c_int = 1;
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &on as *const _ as *const libc::c_void, std::mem::size_of_val(&on) as libc::socklen_t);
    }
}

impl Conn {
    pub fn open(addr: SocketAddr) -> Result<Conn, NetErr> {
        let d = Deadline::ms(PATIENCE_MS);
        loop {
            match TcpStream::connect_timeout(&addr, Duration::from_secs(10)) {
                Ok(s) => {
                    let _ = s.set_nodelay(true);
                    let _ = s.set_read_timeout(Some(Duration::from_millis(20)));
                    let _ = s.set_write_timeout(Some(Duration::from_secs(20)));
                    return Ok(Conn { s, buf: vec![], eof: false, reset: false, patience: PATIENCE_MS });
                }
                Err(e) => {
                    if d.over() {
                        return Err(NetErr::Timeout(format!("connect: {}", e)));
                    }
                    thread::sleep(Duration::from_millis(5));
                }
            }
        }
    }

    pub fn local(&self) -> SocketAddr {
        self.s.local_addr().expect("local addr")
    }

    /// Sends; write errors are ignored (the answer tells).
    pub fn send(&mut self, data: &[u8]) {
        let _ = self.s.write_all(data);
        let _ = self.s.flush();
    }

    pub fn try_send(&mut self, data: &[u8]) -> bool {
        self.s.write_all(data).and_then(|_| self.s.flush()).is_ok()
    }

    pub fn finish_sending(&mut self) {
        let _ = self.s.shutdown(Shutdown::Write);
    }

    /// Reads some more; false at end of stream.
    fn more(&mut self, d: &Deadline) -> Result<bool, NetErr> {
        if self.eof {
            return Ok(false);
        }
        let mut tmp = [0u8; 65536];
        loop {
            quick_ack(&self.s);
            match self.s.read(&mut tmp) {
                Ok(0) => {
                    self.eof = true;
                    return Ok(false);
                }
                Ok(n) => {
                    self.buf.extend_from_slice(&tmp[..n]);
                    return Ok(true);
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::TimedOut => {
                    if d.over() {
                        return Err(NetErr::Timeout(format!("got so far: {}", show(&self.buf))));
                    }
                }
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(_) => {
                    self.eof = true;
                    self.reset = true;
                    return Ok(false);
                }
            }
        }
    }

    /// Reads exactly one response (framed by Content-Length; none means no body unless closing).
    pub fn response(&mut self, head_request: bool) -> Result<Resp, NetErr> {
        let d = Deadline::ms(self.patience);
        let end = loop {
            if let Some(i) = find(&self.buf, b"\r\n\r\n") {
                break i;
            }
            if !self.more(&d)? {
                return Err(NetErr::Closed(format!("before the end of the head, got: {}", show(&self.buf))));
            }
        };
        let head = self.buf[..end].to_vec();
        let mut r = parse_head(&head).map_err(NetErr::Garbage)?;
        self.buf.drain(..end + 4);
        let lens = r.all("Content-Length").iter().map(|s| s.to_string()).collect::<Vec<_>>();
        if lens.len() > 1 {
            return Err(NetErr::Garbage(format!("several Content-Length headers: {}", show(&head))));
        }
        let len = match lens.first() {
            None => 0,
            Some(s) => s.parse::<usize>().map_err(|_| NetErr::Garbage(format!("Content-Length {:?}", s)))?,
        };
        let want = if head_request { 0 } else { len };
        while self.buf.len() < want {
            if !self.more(&d)? {
                return Err(NetErr::Closed(format!("body has {} of {} announced bytes", self.buf.len(), want)));
            }
        }
        r.body = self.buf.drain(..want).collect();
        Ok(r)
    }

    /// Whether nothing is left of what has arrived.
    pub fn blank(&self) -> bool {
        self.buf.is_empty()
    }

    /// Everything until the server closes.
    pub fn rest(&mut self) -> Result<Vec<u8>, NetErr> {
        let d = Deadline::ms(self.patience);
        while self.more(&d)? {}
        Ok(std::mem::take(&mut self.buf))
    }

    /// Expects the server to close without sending anything more.
    pub fn expect_close(&mut self) -> Result<(), NetErr> {
        let rest = self.rest()?;
        if rest.is_empty() {
            Ok(())
        } else {
            Err(NetErr::Garbage(format!("bytes after the response: {}", show(&rest))))
        }
    }
}

pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    if h.len() < n.len() {
        return None;
    }
    h.windows(n.len()).position(|w| w == n)
}

pub fn parse_head(head: &[u8]) -> Result<Resp, String> {
    let text = std::str::from_utf8(head).map_err(|_| format!("head is not text: {}", show(head)))?;
    let mut lines = text.split("\r\n");
    let status = lines.next().unwrap_or("");
    let mut parts = status.splitn(3, ' ');
    let version = parts.next().unwrap_or("").to_string();
    let code = parts.next().unwrap_or("").to_string();
    let phrase = match parts.next() {
        Some(p) => p.to_string(),
        None => return Err(format!("status line {:?}", status)),
    };
    if version != "HTTP/1.0" && version != "HTTP/1.1" {
        return Err(format!("status line {:?}", status));
    }
    let code: u16 = match code.parse() {
        Ok(c) if code.len() == 3 => c,
        _ => return Err(format!("status line {:?}", status)),
    };
    let mut headers = vec![];
    for l in lines {
        match l.split_once(": ").or_else(|| l.split_once(':')) {
            Some((k, v)) => headers.push((k.to_string(), v.to_string())),
            None => return Err(format!("header line {:?}", l)),
        }
    }
    Ok(Resp { version, code, phrase, headers, body: vec![] })
}
