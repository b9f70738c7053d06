//! C24: methods, statuses, versions; C25: content types.
use super::Prop;
use crate::drv::{guarded, Classes, Ctx, Verdict};
use crate::gen;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use starry::header::ContentType;
use starry::{Inner, Method, Status, Version};

pub const C24: Prop = Prop {
    id: "C24",
    shards: 4,
    assumptions: &["the standard reason phrases are the IANA registry's at the time of RFC 7231 (413 Payload Too Large, 422 Unprocessable Entity) plus 418"],
    run: run24,
};

pub fn methods() -> Vec<(&'static str, Method)> {
    vec![
        ("GET", Method::GET), ("POST", Method::POST), ("PUT", Method::PUT), ("DELETE", Method::DELETE),
        ("HEAD", Method::HEAD), ("OPTIONS", Method::OPTIONS), ("TRACE", Method::TRACE), ("CONNECT", Method::CONNECT),
        ("PATCH", Method::PATCH), ("LINK", Method::LINK), ("UNLINK", Method::UNLINK), ("PRI", Method::PRI),
    ]
}

pub fn statuses() -> Vec<(u16, &'static str, Status)> {
    vec![
        (100, "Continue", Status::CONTINUE), (101, "Switching Protocols", Status::SWITCHING_PROTOCOLS),
        (102, "Processing", Status::PROCESSING), (200, "OK", Status::OK), (201, "Created", Status::CREATED),
        (202, "Accepted", Status::ACCEPTED), (203, "Non Authoritative Information", Status::NON_AUTHORITATIVE_INFORMATION),
        (204, "No Content", Status::NO_CONTENT), (205, "Reset Content", Status::RESET_CONTENT),
        (206, "Partial Content", Status::PARTIAL_CONTENT), (207, "Multi-Status", Status::MULTI_STATUS),
        (208, "Already Reported", Status::ALREADY_REPORTED), (226, "IM Used", Status::IM_USED),
        (300, "Multiple Choices", Status::MULTIPLE_CHOICES), (301, "Moved Permanently", Status::MOVED_PERMANENTLY),
        (302, "Found", Status::FOUND), (303, "See Other", Status::SEE_OTHER), (304, "Not Modified", Status::NOT_MODIFIED),
        (305, "Use Proxy", Status::USE_PROXY), (307, "Temporary Redirect", Status::TEMPORARY_REDIRECT),
        (308, "Permanent Redirect", Status::PERMANENT_REDIRECT), (400, "Bad Request", Status::BAD_REQUEST),
        (401, "Unauthorized", Status::UNAUTHORIZED), (402, "Payment Required", Status::PAYMENT_REQUIRED),
        (403, "Forbidden", Status::FORBIDDEN), (404, "Not Found", Status::NOT_FOUND),
        (405, "Method Not Allowed", Status::METHOD_NOT_ALLOWED), (406, "Not Acceptable", Status::NOT_ACCEPTABLE),
        (407, "Proxy Authentication Required", Status::PROXY_AUTHENTICATION_REQUIRED),
        (408, "Request Timeout", Status::REQUEST_TIMEOUT), (409, "Conflict", Status::CONFLICT), (410, "Gone", Status::GONE),
        (411, "Length Required", Status::LENGTH_REQUIRED), (412, "Precondition Failed", Status::PRECONDITION_FAILED),
        (413, "Payload Too Large", Status::PAYLOAD_TOO_LARGE), (414, "URI Too Long", Status::URI_TOO_LONG),
        (415, "Unsupported Media Type", Status::UNSUPPORTED_MEDIA_TYPE),
        (416, "Range Not Satisfiable", Status::RANGE_NOT_SATISFIABLE), (417, "Expectation Failed", Status::EXPECTATION_FAILED),
        (418, "I'm a teapot", Status::IM_A_TEAPOT), (421, "Misdirected Request", Status::MISDIRECTED_REQUEST),
        (422, "Unprocessable Entity", Status::UNPROCESSABLE_ENTITY), (423, "Locked", Status::LOCKED),
        (424, "Failed Dependency", Status::FAILED_DEPENDENCY), (426, "Upgrade Required", Status::UPGRADE_REQUIRED),
        (428, "Precondition Required", Status::PRECONDITION_REQUIRED), (429, "Too Many Requests", Status::TOO_MANY_REQUESTS),
        (431, "Request Header Fields Too Large", Status::REQUEST_HEADER_FIELDS_TOO_LARGE),
        (451, "Unavailable For Legal Reasons", Status::UNAVAILABLE_FOR_LEGAL_REASONS),
        (500, "Internal Server Error", Status::INTERNAL_SERVER_ERROR), (501, "Not Implemented", Status::NOT_IMPLEMENTED),
        (502, "Bad Gateway", Status::BAD_GATEWAY), (503, "Service Unavailable", Status::SERVICE_UNAVAILABLE),
        (504, "Gateway Timeout", Status::GATEWAY_TIMEOUT), (505, "HTTP Version Not Supported", Status::HTTP_VERSION_NOT_SUPPORTED),
        (506, "Variant Also Negotiates", Status::VARIANT_ALSO_NEGOTIATES), (507, "Insufficient Storage", Status::INSUFFICIENT_STORAGE),
        (508, "Loop Detected", Status::LOOP_DETECTED), (510, "Not Extended", Status::NOT_EXTENDED),
        (511, "Network Authentication Required", Status::NETWORK_AUTHENTICATION_REQUIRED),
    ]
}

fn check_status(code: u16) -> Result<bool, String> {
    let all = statuses();
    let want = all.iter().find(|(c, _, _)| *c == code);
    let got = guarded(|| Status::from_code(code))?;
    match (got, want) {
        (Err(_), None) => Ok(false),
        (Ok(s), None) => Err(format!("from_code({}) accepted as {:?}", code, s)),
        (Err(e), Some(_)) => Err(format!("from_code({}) rejected: {}", code, e)),
        (Ok(s), Some((_, phrase, constant))) => {
            if s.code() != code || s.phrase() != *phrase || s.phrase_as_slice() != phrase.as_bytes() {
                return Err(format!("from_code({}) gives {} {:?}, not {:?}", code, s.code(), s.phrase(), phrase));
            }
            if format!("{:?}", s) != format!("{} {}", code, phrase) {
                return Err(format!("status {} prints as {:?}", code, s));
            }
            if s != *constant || constant.code() != code {
                return Err(format!("from_code({}) is not its constant {:?}", code, constant));
            }
            if s != phrase.to_string() || phrase.to_string() != s || *phrase != s || code != s || s != code || s != **phrase {
                return Err(format!("status {} is not equal to its phrase or code", code));
            }
            for (c, p, k) in all.iter().filter(|(c, _, _)| *c != code) {
                if s == *k || k == s || s == *c || *c == s || s == **p || s == *p || *p == s || s == p.to_string() {
                    return Err(format!("status {} equals {}", code, c));
                }
            }
            Ok(true)
        }
    }
}

/// A status, method and version against a text, in every direction the comparisons are offered.
fn check_equality(text: &str) -> Result<bool, String> {
    let owned = text.to_string();
    let mut any = false;
    for (code, phrase, s) in statuses() {
        let got = [s == owned, owned == s, s == *text, *text == s, s == text, text == s];
        if got.iter().any(|g| *g != (text == phrase)) {
            return Err(format!("status {} {:?} against {:?}: {:?}", code, phrase, text, got));
        }
        any |= got[0];
    }
    for (name, m) in methods() {
        let got = [m == *text, *text == m, m == text, text == m];
        if got.iter().any(|g| *g != (text == name)) {
            return Err(format!("method {} against {:?}: {:?}", name, text, got));
        }
        any |= got[0];
    }
    for (name, v) in [("HTTP/1.0", Version::HTTP_10), ("HTTP/1.1", Version::HTTP_11)] {
        let got = [v == *text, *text == v, v == text, text == v];
        if got.iter().any(|g| *g != (text == name)) {
            return Err(format!("version {} against {:?}: {:?}", name, text, got));
        }
        any |= got[0];
    }
    Ok(any)
}

/// The neighbourhood of a long text: pieces, letter cases of the whole and of single letters, one byte more or other.
fn near_texts(tokens: &[&str]) -> Vec<String> {
    let mut out = vec![String::new()];
    for t in tokens {
        let v: Vec<char> = t.chars().collect();
        let text = |c: &[char]| c.iter().collect::<String>();
        out.extend([t.to_lowercase(), t.to_uppercase(), format!(" {}", t), format!("{} ", t), t.replace(' ', ""), t.replace(' ', "-"), t.replace('-', " "), t.replace(' ', "_")]);
        for i in 0..v.len() {
            for j in i..=v.len() {
                out.push(text(&v[i..j]));
            }
            out.push(text(&[&v[..i], &v[i + 1..]].concat()));
            for c in ['x', ' ', '\0', '.', '\'', v[i].to_ascii_lowercase(), v[i].to_ascii_uppercase()] {
                let mut w = v.clone();
                w[i] = c;
                out.push(text(&w));
                w[i] = v[i];
                w.insert(i, c);
                out.push(text(&w));
                out.push(format!("{}{}", t, c));
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

fn check_method_text(src: &[u8]) -> Result<bool, String> {
    let all = methods();
    let want = if src.is_empty() { Some("GET") } else { all.iter().map(|(n, _)| *n).find(|n| n.as_bytes() == src) };
    let mut results = vec![guarded(|| Method::from_bytes(src))?];
    if let Ok(s) = std::str::from_utf8(src) {
        results.push(guarded(|| Method::from_str(s))?);
    }
    for got in results {
        match (got, want) {
            (Err(_), None) => {}
            (Ok(m), None) => return Err(format!("{:?} accepted as {:?}", String::from_utf8_lossy(src), m)),
            (Err(e), Some(_)) => return Err(format!("{:?} rejected: {}", String::from_utf8_lossy(src), e)),
            (Ok(m), Some(n)) => {
                let constant = all.iter().find(|(k, _)| *k == n).unwrap().1.clone();
                if m != constant || m.as_str() != n || m.to_string() != n || format!("{:?}", m) != n || m != *n || n != m {
                    return Err(format!("{:?} parsed as {:?}", n, m));
                }
                for (k, o) in all.iter().filter(|(k, _)| *k != n) {
                    if m == *o || o == m || m == **k || *k == m || m == *k || **k == m {
                        return Err(format!("{} equals {}", n, k));
                    }
                }
                let safe = ["GET", "HEAD", "OPTIONS", "TRACE"].contains(&n);
                if m.is_safe() != safe {
                    return Err(format!("{}.is_safe() is {}", n, m.is_safe()));
                }
                let cacheable = ["GET", "HEAD", "POST"].contains(&n);
                if m.is_cacheable() != cacheable {
                    return Err(format!("{}.is_cacheable() is {}", n, m.is_cacheable()));
                }
            }
        }
    }
    Ok(want.is_some())
}

fn check_version_text(src: &str) -> Result<bool, String> {
    let want = match src {
        "HTTP/1.0" => Some((Version::HTTP_10, 1u8, 0u8)),
        "HTTP/1.1" => Some((Version::HTTP_11, 1, 1)),
        _ => None,
    };
    match (guarded(|| Version::from_str(src))?, want) {
        (Err(_), None) => Ok(false),
        (Ok(v), None) => Err(format!("{:?} accepted as {:?}", src, v)),
        (Err(e), Some(_)) => Err(format!("{:?} rejected: {}", src, e)),
        (Ok(v), Some((c, major, minor))) => {
            let other = if minor == 0 { Version::HTTP_11 } else { Version::HTTP_10 };
            if v != c || v == other || v.as_ref() as &str != src || v.to_string() != src || v.as_slice() != src.as_bytes()
                || format!("{:?}", v) != src || v.major() != major || v.minor() != minor || v != *src || src != &v || v == *(other.as_ref() as &str)
                || v.protocol() != c.protocol() || v.protocol() == other.protocol() {
                return Err(format!("{:?} parsed as {:?}", src, v));
            }
            Ok(true)
        }
    }
}

/// Near misses of a token.
fn mangled(tokens: Vec<&'static str>) -> BoxedStrategy<Vec<u8>> {
    let t = proptest::sample::select(tokens);
    (t, 0u8..9, any::<u8>(), any::<prop::sample::Index>()).prop_map(|(t, how, b, at)| {
        let mut v = t.as_bytes().to_vec();
        let i = at.index(v.len());
        match how {
            0 => v[i] = b,
            1 => v.insert(i, b),
            2 => {
                v.remove(i);
            }
            3 => v = t.to_lowercase().into_bytes(),
            4 => v.push(b' '),
            5 => v.insert(0, b' '),
            6 => v[i] = v[i].to_ascii_lowercase(),
            7 => v.truncate(i),
            _ => {}
        }
        v
    }).boxed()
}

/// Every text one step away from a token: letter cases, one byte changed, added or left out,
/// two bytes exchanged, a piece left out, two tokens joined.
fn neighbours(tokens: &[&str]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    for t in tokens {
        let v = t.as_bytes();
        let letters: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_alphabetic()).collect();
        for m in 0..1u32 << letters.len().min(12) {
            let mut w = v.to_vec();
            for (k, i) in letters.iter().enumerate() {
                if m >> k & 1 == 1 {
                    w[*i] ^= 0x20;
                }
            }
            out.push(w);
        }
        for i in 0..=v.len() {
            for b in 0..=255u8 {
                let mut w = v.to_vec();
                w.insert(i, b);
                out.push(w);
                if i < v.len() {
                    let mut w = v.to_vec();
                    w[i] = b;
                    out.push(w);
                }
            }
            for j in i..=v.len() {
                out.push(v[i..j].to_vec());
                out.push([&v[..i], &v[j..]].concat());
                if j < v.len() {
                    let mut w = v.to_vec();
                    w.swap(i, j);
                    out.push(w);
                }
            }
        }
        for u in tokens {
            for sep in ["", " ", "/", ",", "\r\n", "\0"] {
                out.push([v, sep.as_bytes(), u.as_bytes()].concat());
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

fn verdict(r: Result<bool, String>) -> Verdict {
    match r {
        Ok(nt) => Verdict::Ok(nt),
        Err(e) => Verdict::Fail(e),
    }
}

fn run24(ctx: &mut Ctx) {
    ctx.rule("Codes: all 65536 are enumerated, non-trivial when supported. Texts: non-trivial when within one edit of a supported token or equal to one.");
    ctx.each("status-code", (0..=u16::MAX).collect::<Vec<u16>>(), |c, cl| {
        let r = check_status(*c);
        cl.when(matches!(r, Ok(true)), "supported-status");
        verdict(r)
    });
    let names: Vec<&'static str> = methods().iter().map(|(n, _)| *n).collect();
    let mtext = prop_oneof![3 => mangled(names.clone()), 1 => vec(any::<u8>(), 0..9)];
    let n = ctx.n(800_000, 20_000_000);
    ctx.run("method-text", n, mtext, |s, cl| match check_method_text(s) {
        Ok(known) => {
            cl.when(known, "supported-method");
            Verdict::Ok(true)
        }
        Err(e) => Verdict::Fail(e),
    });
    ctx.each("method-near", neighbours(&names), |s, cl| {
        let r = check_method_text(s);
        cl.when(matches!(r, Ok(true)), "supported-method");
        verdict(r.map(|_| true))
    });
    let near: Vec<String> = neighbours(&["HTTP/1.0", "HTTP/1.1", "HTTP/2.0", "HTTP/0.9", "HTTPS/1.1"]).into_iter().filter_map(|v| String::from_utf8(v).ok()).collect();
    ctx.each("version-near", near, |s, cl| {
        let r = check_version_text(s);
        cl.when(matches!(r, Ok(true)), "supported-version");
        verdict(r.map(|_| true))
    });
    let phrases: Vec<&'static str> = statuses().iter().map(|(_, p, _)| *p).chain(names.iter().cloned()).chain(["HTTP/1.0", "HTTP/1.1", "HTTP/2.0", "http"]).collect();
    ctx.each("equality", near_texts(&phrases), |s, cl| {
        let r = check_equality(s);
        cl.when(matches!(r, Ok(true)), "equal-to-a-token");
        verdict(r.map(|_| true))
    });
    ctx.each("code-equality", statuses().into_iter().map(|(c, ..)| c).collect::<Vec<u16>>(), |c, _| {
        let s = statuses().into_iter().find(|(k, ..)| k == c).unwrap().2;
        for n in 0..=u16::MAX {
            if (s == n) != (n == *c) || (n == s) != (n == *c) {
                return Verdict::Fail(format!("status {} against {}", c, n));
            }
        }
        Verdict::Ok(true)
    });
    let vtext = prop_oneof![3 => mangled(vec!["HTTP/1.0", "HTTP/1.1", "HTTP/2.0", "HTTP/0.9", "http/1.1"]), 1 => vec(any::<u8>(), 0..12)]
        .prop_map(|v| String::from_utf8_lossy(&v).to_string());
    ctx.run("version-text", n / 2, vtext, |s, cl| match check_version_text(s) {
        Ok(known) => {
            cl.when(known, "supported-version");
            Verdict::Ok(true)
        }
        Err(e) => Verdict::Fail(e),
    });
    ctx.each("defaults", vec![0u8], |_, _| {
        if Version::default() != "HTTP/1.0" {
            return Verdict::Fail("the default version is not HTTP/1.0".into());
        }
        for (n, m) in methods() {
            if let Err(e) = check_method_text(n.as_bytes()) {
                return Verdict::Fail(e);
            }
            if m.as_str() != n {
                return Verdict::Fail(format!("{} prints as {}", n, m));
            }
        }
        verdict(check_method_text(b""))
    });
}

// ------------------------------------------------------------------------------------------ C25

pub const C25: Prop = Prop {
    id: "C25",
    shards: 4,
    assumptions: &["boundaries are the ones RFC 2046 allows (up to 70 of its boundary characters, a blank only inside)"],
    run: run25,
};

const TYPES: [(&str, ContentType); 14] = [
    ("text/html", ContentType::TEXT_HTML), ("text/plain", ContentType::TEXT_PLAIN), ("text/xml", ContentType::TEXT_XML),
    ("image/gif", ContentType::IMAGE_GIF), ("image/jpeg", ContentType::IMAGE_JPEG), ("image/png", ContentType::IMAGE_PNG),
    ("application/xhtml+xml", ContentType::APPLICATION_XHTML_XML), ("application/xml", ContentType::APPLICATION_XML),
    ("application/atom+xml", ContentType::APPLICATION_ATOM_XML), ("application/json", ContentType::APPLICATION_JSON),
    ("application/pdf", ContentType::APPLICATION_PDF), ("application/msword", ContentType::APPLICATION_MS_WORD),
    ("application/octet-stream", ContentType::APPLICATION_OCTET_STREAM),
    ("application/x-www-form-urlencoded", ContentType::APPLICATION_X_WWW_FORM_URL_ENCODED),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Media {
    index: usize,
    upper: Vec<bool>,
    before: String,
    after: String,
    params: Vec<(String, String, String)>,
    /// (name's letter case, blanks, boundary, quoted, position)
    boundary: Option<(u8, String, String, bool, usize)>,
}

fn blanks() -> BoxedStrategy<String> {
    prop_oneof![2 => Just(String::new()), 1 => Just(" ".to_string()), 1 => gen::over(" \t", 0, 3)].boxed()
}

pub fn boundary() -> BoxedStrategy<(String, bool)> {
    let plain = "abcdefXYZ0123456789-_'()+,./:=?";
    prop_oneof![
        3 => gen::over("0123456789abcdefABCDEF-", 1, 40).prop_map(|b| (b, false)),
        2 => (gen::over(plain, 1, 70), any::<bool>()),
        1 => gen::over("-", 1, 30).prop_map(|b| (b, false)),
        1 => (gen::over(plain, 1, 20), gen::over("ab '()+_,-./:=?", 0, 20), gen::over(plain, 1, 10)).prop_map(|(a, b, c)| (format!("{}{}{}", a, b, c), true)),
    ].boxed()
}

fn media() -> impl Strategy<Value = Media> {
    let param = (gen::few(&["charset", "q", "version", "boundaryx", "xboundary", "Charset"]), gen::few(&["utf-8", "\"utf-8\"", "", "boundary=x", "0.5", "été"]), blanks());
    (0..TYPES.len() + 4, vec(any::<bool>(), 40), blanks(), blanks(), vec(param, 0..4), (0u8..3, blanks(), boundary(), 0usize..4))
        .prop_map(|(index, upper, before, after, params, b)| Media {
            index, upper, before, after, params,
            boundary: Some((b.0, b.1, b.2 .0, b.2 .1, b.3)),
        })
}

fn cased(s: &str, upper: &[bool]) -> String {
    s.chars().zip(upper.iter().cycle()).map(|(c, u)| if *u { c.to_ascii_uppercase() } else { c }).collect()
}

fn media_case(m: &Media, cl: &mut Classes) -> Verdict {
    let multipart = m.index >= TYPES.len();
    let name = if multipart { "multipart/form-data" } else { TYPES[m.index].0 };
    let mut params: Vec<String> = m.params.iter().map(|(k, v, b)| format!("{}{}={}", b, k, v)).collect();
    let mut want_boundary = String::new();
    if multipart {
        let (case, blank, b, quoted, at) = m.boundary.as_ref().unwrap();
        let key = ["boundary", "Boundary", "BOUNDARY"][*case as usize];
        let text = if *quoted { format!("{}{}=\"{}\"{}", blank, key, b, blank) } else { format!("{}{}={}", blank, key, b) };
        params.insert((*at).min(params.len()), text);
        want_boundary = b.clone();
        cl.when(*quoted, "quoted-boundary");
    }
    let mut src = format!("{}{}{}", m.before, cased(name, &m.upper), m.after);
    for p in &params {
        src.push(';');
        src.push_str(p);
    }
    cl.when(!params.is_empty(), "with-parameters");
    let got = match guarded(|| ContentType::from_str(&src)) {
        Ok(g) => g,
        Err(e) => return Verdict::Fail(format!("{:?}: {}", src, e)),
    };
    let want = if multipart { ContentType::multipart_form_data(want_boundary.clone()) } else { TYPES[m.index].1.clone() };
    if got != want {
        let b = match got.inner() {
            Inner::MultipartFormData(b) => format!(" with boundary {:?}", b),
            _ => String::new(),
        };
        return Verdict::Fail(format!("{:?} is read as {:?}{} instead of {:?} {:?}", src, got, b, want, want_boundary));
    }
    if got.as_str() != name || got.as_ref() as &str != name || got != *name || name != &got || format!("{:?}", got) != name {
        return Verdict::Fail(format!("{:?} prints as {:?}", src, got.as_str()));
    }
    for (i, (n, t)) in TYPES.iter().enumerate() {
        if (i != m.index) && (got == *t || got == **n) {
            return Verdict::Fail(format!("{:?} equals {}", got, n));
        }
    }
    Verdict::Ok(src != name)
}

fn foreign_case(src: &String, cl: &mut Classes) -> Verdict {
    let got = match guarded(|| ContentType::from_str(src)) {
        Ok(g) => g,
        Err(e) => return Verdict::Fail(format!("{:?}: {}", src, e)),
    };
    let base = src.split(';').next().unwrap().trim().to_ascii_lowercase();
    if let Some((_, t)) = TYPES.iter().find(|(n, _)| *n == base) {
        cl.hit("happens-to-be-supported");
        return if got == *t { Verdict::Ok(false) } else { Verdict::Fail(format!("{:?} is read as {:?}", src, got)) };
    }
    if base == "multipart/form-data" {
        // with a boundary parameter multipart, without one binary
        let named = src.split(';').skip(1).any(|p| p.split('=').next().unwrap().trim().eq_ignore_ascii_case("boundary"));
        cl.when(!named, "multipart-without-boundary");
        return if named == (got.as_str() == "multipart/form-data") && (named || got == ContentType::APPLICATION_OCTET_STREAM) {
            Verdict::Ok(true)
        } else {
            Verdict::Fail(format!("{:?} is read as {:?}", src, got))
        };
    }
    if got != ContentType::APPLICATION_OCTET_STREAM || got.as_str() != "application/octet-stream" {
        return Verdict::Fail(format!("{:?} is read as {:?}, not as binary data", src, got));
    }
    Verdict::Ok(base.contains('/') || !src.is_ascii())
}

fn run25(ctx: &mut Ctx) {
    ctx.rule("Supported types: the text differs from the plain name (case, blanks, parameters or a boundary); foreign text: contains '/' or non-ASCII.");
    ctx.run("supported", ctx.n(500_000, 10_000_000), media(), media_case);
    ctx.run("together", ctx.n(2_400, 80_000), proptest::collection::vec(proptest::collection::vec(media(), 1..8), 2..9), |l, cl| crate::drv::together(l, cl, media_case));
    let names: Vec<&'static str> = TYPES.iter().map(|(n, _)| *n).chain(["multipart/form-data", "text/csv", "image/svg+xml", "multipart/mixed; boundary=x"]).collect();
    ctx.each("near", neighbours(&names).into_iter().filter_map(|v| String::from_utf8(v).ok()).collect::<Vec<String>>(), foreign_case);
    ctx.each("known-elsewhere", [
        "image/jpg", "text/json", "text/javascript", "application/javascript", "application/x-javascript", "text/css", "text/csv", "text/markdown", "application/x-json",
        "application/ld+json", "application/problem+json", "application/rss+xml", "application/soap+xml", "application/x-pdf", "application/zip", "application/gzip", "application/x-tar",
        "application/vnd.ms-word", "application/vnd.ms-excel", "application/doc", "application/x-msword", "application/xhtml", "application/html", "application/text", "text/htm", "html",
        "json", "xml", "plain", "text", "image", "application", "application/*", "text/*", "*/*", "image/webp", "image/bmp", "image/x-icon", "image/svg+xml", "image/tiff", "image/pjpeg",
        "audio/mpeg", "video/mp4", "font/woff2", "multipart/mixed", "multipart/byteranges", "multipart/form", "multipart/form-data-encoded", "message/http", "message/rfc822",
        "application/form-data", "application/x-www-form", "application/www-form-urlencoded", "x-www-form-urlencoded", "application/x-www-form-urlencode", "application/octetstream",
        "application/octet", "binary/octet-stream", "application/binary", "application/atomsvc+xml", "application/atom", "application/rdf+xml", "application/xml-dtd", "text/xsl", "text/html5",
        "text / html", "text/ html", "text /html", "text//html", "/text/html", "text/html/", "text.html", "text\\html", "application/json5", "application/jsonp", "application/json-patch+json",
    ].iter().map(|s| s.to_string()).collect::<Vec<String>>(), foreign_case);
    let foreign = prop_oneof![
        mangled(names).prop_map(|v| String::from_utf8_lossy(&v).to_string()),
        gen::text(40),
        vec(any::<char>(), 0..30).prop_map(|v| v.into_iter().collect::<String>()),
        gen::text(10).prop_map(|s| format!("multipart/form-data{}", s)),
        gen::text(12).prop_map(|s| format!("multipart/{}", s)),
        (blanks(), gen::text(12)).prop_map(|(b, s)| format!("multipart/form-data{};{}", b, s)),
    ];
    ctx.run("foreign", ctx.n(500_000, 10_000_000), foreign, foreign_case);
    ctx.run("custom", ctx.n(4_000, 100_000), gen::text(30), |s, _| {
        for c in [ContentType::custom(s.clone()), ContentType::custom_str(s)] {
            if c.as_str() != s || c != **s || c.inner().as_str() != s {
                return Verdict::Fail(format!("custom type {:?} prints as {:?}", s, c.as_str()));
            }
        }
        let m = ContentType::multipart_form_data_str(s);
        match m.inner() {
            Inner::MultipartFormData(b) if b == *s && m.as_str() == "multipart/form-data" => Verdict::Ok(!s.is_empty()),
            _ => Verdict::Fail(format!("multipart boundary {:?} is lost", s)),
        }
    });
    ctx.each("default", vec![0u8], |_, _| {
        if ContentType::default() == ContentType::APPLICATION_OCTET_STREAM {
            Verdict::Ok(false)
        } else {
            Verdict::Fail("the default type is not binary data".into())
        }
    });
}
