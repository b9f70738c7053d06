//! Pieces shared by the properties that talk to a running server.
use crate::drv::Verdict;
use crate::net::*;
use starry::Context;
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

/// Events recorded by handlers and filters, in order.
pub struct Events<T>(Arc<Mutex<Vec<T>>>);
impl<T> Clone for Events<T> {
    fn clone(&self) -> Self {
        Events(self.0.clone())
    }
}
impl<T> Events<T> {
    pub fn new() -> Events<T> {
        Events(Arc::new(Mutex::new(vec![])))
    }
    pub fn push(&self, e: T) {
        match self.0.lock() {
            Ok(mut g) => g.push(e),
            Err(p) => p.into_inner().push(e),
        }
    }
    pub fn take(&self) -> Vec<T> {
        match self.0.lock() {
            Ok(mut g) => std::mem::take(&mut *g),
            Err(p) => std::mem::take(&mut *p.into_inner()),
        }
    }
    pub fn len(&self) -> usize {
        match self.0.lock() {
            Ok(g) => g.len(),
            Err(p) => p.into_inner().len(),
        }
    }
}

/// A request in one piece.
pub fn request(method: &str, target: &str, headers: &[(&str, &str)], body: &[u8]) -> Vec<u8> {
    let mut s = format!("{} {} HTTP/1.1\r\nHost: localhost\r\n", method, target).into_bytes();
    for (k, v) in headers {
        s.extend_from_slice(format!("{}: {}\r\n", k, v).as_bytes());
    }
    s.extend_from_slice(b"\r\n");
    s.extend_from_slice(body);
    s
}

/// Sends a request on a connection of its own, expects one response and the end of the connection.
pub fn exchange(addr: SocketAddr, req: &[u8], head: bool) -> Result<Resp, NetErr> {
    let mut c = Conn::open(addr)?;
    c.send(req);
    let r = c.response(head)?;
    c.expect_close()?;
    Ok(r)
}

pub fn must<T>(r: Result<T, NetErr>, what: &str) -> Result<T, Verdict> {
    r.map_err(|e| e.verdict(what))
}

pub fn fail<T>(m: String) -> Result<T, Verdict> {
    Err(Verdict::Fail(m))
}

/// Finishes a case whose checks short-cut with `?`.
pub fn settle(r: Result<bool, Verdict>) -> Verdict {
    match r {
        Ok(nt) => Verdict::Ok(nt),
        Err(v) => v,
    }
}

pub fn header_map(ctx: &Context) -> BTreeMap<String, Vec<String>> {
    ctx.req_header().map().into_iter().collect()
}
