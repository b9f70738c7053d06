// Shared by the demonstrations: a starry server on a loopback port, and raw requests to it.
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::thread;
use std::time::{Duration, Instant};

pub fn free_addr() -> String {
    TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().to_string()
}

/// Starts a server in this process and waits until it accepts connections.
pub fn start(setup: impl FnOnce(&mut starry::HttpServer)) -> String {
    let mut server = starry::HttpServer::new();
    server.set_log("off".parse().unwrap(), "logs".to_string(), 1, 1);
    setup(&mut server);
    let addr = free_addr();
    let bind = addr.clone();
    thread::spawn(move || {
        let _ = server.listener(bind.as_str());
    });
    let end = Instant::now() + Duration::from_secs(20);
    while Instant::now() < end {
        if TcpStream::connect(&addr).is_ok() {
            thread::sleep(Duration::from_millis(50));
            return addr;
        }
        thread::sleep(Duration::from_millis(10));
    }
    panic!("server did not start");
}

pub fn connect(addr: &str) -> TcpStream {
    let stream = TcpStream::connect(addr).unwrap();
    stream.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
    stream.set_nodelay(true).unwrap();
    stream
}

/// Sends a request and reads until the server closes (or 5 s pass without data).
pub fn ask(addr: &str, request: &[u8]) -> Vec<u8> {
    let mut stream = connect(addr);
    stream.write_all(request).unwrap();
    read_all(&mut stream)
}

pub fn read_all(stream: &mut TcpStream) -> Vec<u8> {
    let mut all = vec![];
    let mut buf = [0u8; 65536];
    loop {
        match stream.read(&mut buf) {
            Ok(0) | Err(_) => return all,
            Ok(n) => all.extend_from_slice(&buf[..n]),
        }
    }
}

/// Reads one response framed by Content-Length; None if the connection ends or stalls before it is complete.
pub fn read_one(stream: &mut TcpStream) -> Option<Vec<u8>> {
    let mut all = vec![];
    let mut buf = [0u8; 65536];
    loop {
        if let Some(at) = all.windows(4).position(|w| w == b"\r\n\r\n") {
            let len = header(&all, "content-length").and_then(|v| v.parse::<usize>().ok()).unwrap_or(0);
            if all.len() >= at + 4 + len {
                return Some(all);
            }
        }
        match stream.read(&mut buf) {
            Ok(0) | Err(_) => return None,
            Ok(n) => all.extend_from_slice(&buf[..n]),
        }
    }
}

pub fn status(response: &[u8]) -> u16 {
    String::from_utf8_lossy(response).split(' ').nth(1).and_then(|s| s.parse().ok()).unwrap_or(0)
}

pub fn body(response: &[u8]) -> Vec<u8> {
    match response.windows(4).position(|w| w == b"\r\n\r\n") {
        Some(at) => response[at + 4..].to_vec(),
        None => vec![],
    }
}

pub fn headers(response: &[u8], name: &str) -> Vec<String> {
    let head = response.windows(4).position(|w| w == b"\r\n\r\n").unwrap_or(response.len());
    String::from_utf8_lossy(&response[..head]).lines().skip(1).filter_map(|line| {
        let (k, v) = line.split_once(':')?;
        if k.eq_ignore_ascii_case(name) { Some(v.trim().to_string()) } else { None }
    }).collect()
}

pub fn header(response: &[u8], name: &str) -> Option<String> {
    headers(response, name).into_iter().next()
}

pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("BROKEN: {}", what);
        std::process::exit(1);
    }
}

pub fn text(bytes: &[u8]) -> String {
    String::from_utf8_lossy(bytes).to_string()
}
