//! C21: compression; C22: Base64 and Hex.
use super::inflate::*;
use super::Prop;
use crate::drv::{guarded, Classes, Ctx, Verdict, together};
use crate::gen;
use crate::net::show;
use flate2::Compression;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use starry::utils::cryptos::base64::{Base64Decoder, Base64Encoder};
use starry::utils::cryptos::hex::{HexDecoder, HexEncoder};
use starry::utils::cryptos::{Base64, Hex};
use starry::utils::Compress;

pub const C21: Prop = Prop {
    id: "C21",
    shards: 8,
    assumptions: &[
        "the oracle decoder (RFC 1950/1951/1952) and the stored-block and fixed-code encoders in inflate.rs are written for this check and share no code with flate2",
        "a corrupted checksummed stream decoding to the original data (for example after a change of an informative header byte) is not an error",
    ],
    run: run21,
};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Codec {
    Gzip,
    Zlib,
    Deflate,
}
use Codec::*;

fn encode(c: Codec, data: &[u8], level: u32) -> Result<Vec<u8>, String> {
    let l = Compression::new(level);
    guarded(|| match c {
        Gzip => Compress::gzip(data, l),
        Zlib => Compress::zlib(data, l),
        Deflate => Compress::deflate(data, l),
    })?.map_err(|e| format!("encoding failed: {}", e))
}

/// Ok(Err) is an error returned by the library, Err a panic.
fn decode(c: Codec, data: &[u8]) -> Result<Result<Vec<u8>, String>, String> {
    guarded(|| match c {
        Gzip => Compress::un_gzip(data),
        Zlib => Compress::un_zlib(data),
        Deflate => Compress::un_deflate(data),
    }).map(|r| r.map_err(|e| e.to_string()))
}

pub fn independent(c: Codec, data: &[u8]) -> Result<(Vec<u8>, usize), String> {
    match c {
        Gzip => gunzip(data),
        Zlib => unzlib(data),
        Deflate => inflate(data),
    }
}

fn codec() -> impl Strategy<Value = Codec> {
    prop_oneof![Just(Gzip), Just(Zlib), Just(Deflate)]
}

fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("{} bytes instead of {}, first difference at {}", a.len(), b.len(), i)
}

fn round_case((c, data, level): &(Codec, Vec<u8>, u32), cl: &mut Classes) -> Verdict {
    let enc = match encode(*c, data, *level) {
        Ok(e) => e,
        Err(e) => return Verdict::Fail(e),
    };
    match independent(*c, &enc) {
        Ok((d, used)) if d == *data && used == enc.len() => {}
        Ok((d, used)) => return Verdict::Fail(format!("{:?}: an independent decoder reads {}; {} of {} bytes used", c, diff(&d, data), used, enc.len())),
        Err(e) => return Verdict::Fail(format!("{:?}: an independent decoder rejects the output: {}", c, e)),
    }
    match decode(*c, &enc) {
        Ok(Ok(d)) if d == *data => {}
        Ok(Ok(d)) => return Verdict::Fail(format!("{:?} does not round-trip: {}", c, diff(&d, data))),
        Ok(Err(e)) => return Verdict::Fail(format!("{:?}: own output rejected: {}", c, e)),
        Err(e) => return Verdict::Fail(e),
    }
    cl.when(enc.len() < data.len(), "shortened");
    cl.when(data.len() > 65536, "over-64k");
    cl.when(data.is_empty(), "empty");
    Verdict::Ok(data.len() >= 3)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Foreign {
    codec: Codec,
    data: Vec<u8>,
    block: usize,
    fixed: bool,
    name: Option<String>,
    extra: Option<Vec<u8>>,
}

fn made(f: &Foreign) -> Vec<u8> {
    match f.codec {
        Gzip => simple_gzip(&f.data, f.block, f.fixed, f.name.as_deref(), f.extra.as_deref()),
        Zlib => simple_zlib(&f.data, f.block, f.fixed),
        Deflate => simple_deflate(&f.data, f.block, f.fixed),
    }
}

fn foreign_case(f: &Foreign, cl: &mut Classes) -> Verdict {
    let enc = made(f);
    match decode(f.codec, &enc) {
        Ok(Ok(d)) if d == f.data => {}
        Ok(Ok(d)) => return Verdict::Fail(format!("{:?}: a foreign encoder's output decodes to {}", f.codec, diff(&d, &f.data))),
        Ok(Err(e)) => return Verdict::Fail(format!("{:?}: a foreign encoder's output is rejected: {}", f.codec, e)),
        Err(e) => return Verdict::Fail(e),
    }
    cl.when(f.codec == Gzip && (f.name.is_some() || f.extra.is_some()), "gzip-optional-header-fields");
    cl.when(f.data.len() > f.block, "several-blocks");
    Verdict::Ok(!f.data.is_empty())
}

fn foreign() -> impl Strategy<Value = Foreign> {
    (codec(), gen::bytes(5000), prop_oneof![1usize..100, 100usize..65535], any::<bool>(),
        proptest::option::of(gen::over("abc.txt", 0, 10)), proptest::option::of(vec(any::<u8>(), 0..40)))
        .prop_map(|(codec, data, block, fixed, name, extra)| Foreign { codec, data, block, fixed, name, extra })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Damage {
    Truncate(u16),
    Flip(u16, u8),
    Set(u16, u8),
    Remove(u16),
    Insert(u16, u8),
    /// another codec's output
    Other(Codec),
    Replace(Vec<u8>),
}

fn damage() -> impl Strategy<Value = Damage> {
    prop_oneof![
        4 => any::<u16>().prop_map(Damage::Truncate),
        4 => (any::<u16>(), 0u8..8).prop_map(|(a, b)| Damage::Flip(a, b)),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Damage::Set(a, b)),
        1 => any::<u16>().prop_map(Damage::Remove),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Damage::Insert(a, b)),
        1 => codec().prop_map(Damage::Other),
        1 => vec(any::<u8>(), 0..60).prop_map(Damage::Replace),
    ]
}

fn damaged_case((f, level, dmg): &(Foreign, Option<u32>, Damage), cl: &mut Classes) -> Verdict {
    let c = f.codec;
    let clean = match level {
        Some(l) => match encode(c, &f.data, *l) {
            Ok(e) => e,
            Err(e) => return Verdict::Fail(e),
        },
        None => made(f),
    };
    let mut bad = clean.clone();
    let at = |p: &u16, n: usize| *p as usize * n / 65536;
    match dmg {
        Damage::Truncate(p) => bad.truncate(at(p, clean.len())),
        Damage::Flip(p, b) => bad[at(p, clean.len())] ^= 1 << b,
        Damage::Set(p, b) => bad[at(p, clean.len())] = *b,
        Damage::Remove(p) => {
            bad.remove(at(p, clean.len()));
        }
        Damage::Insert(p, b) => bad.insert(at(p, clean.len()), *b),
        Damage::Other(o) => {
            bad = match encode(*o, &f.data, 6) {
                Ok(e) => e,
                Err(e) => return Verdict::Fail(e),
            }
        }
        Damage::Replace(r) => bad = r.clone(),
    }
    let got = match decode(c, &bad) {
        Ok(g) => g,
        Err(e) => return Verdict::Fail(format!("{:?} of {}: {}", c, show(&bad), e)),
    };
    let oracle = independent(c, &bad);
    cl.when(oracle.is_err(), "damage-makes-it-invalid");
    cl.when(matches!(dmg, Damage::Truncate(_)), "truncated");
    match got {
        Err(_) => match oracle {
            // a stream that still is valid and holds the original data must not be lost
            Ok((d, used)) if used == bad.len() && bad == clean => Verdict::Fail(format!("{:?}: valid data rejected ({} bytes)", c, d.len())),
            _ => Verdict::Ok(true),
        },
        Ok(d) => match oracle {
            Ok((o, _)) if o == d => Verdict::Ok(bad != clean),
            Ok((o, _)) => Verdict::Fail(format!("{:?}: wrong data as success: {}", c, diff(&d, &o))),
            // the header of gzip has bits an implementation may ignore
            Err(_) if c == Gzip && d == f.data && !matches!(dmg, Damage::Truncate(_)) => Verdict::Ok(true),
            // a raw stream carries no checksum, and a reference before its start may read as zeros
            Err(e) if c == Deflate && e == "distance too far" && !matches!(dmg, Damage::Truncate(_)) => {
                cl.hit("raw-reference-before-start");
                Verdict::Ok(false)
            }
            Err(e) => Verdict::Fail(format!("{:?}: {:?} is accepted as {} bytes of data, although: {}; input {}", c, dmg, d.len(), e, show(&bad))),
        },
    }
}

fn run21(ctx: &mut Ctx) {
    ctx.rule("Round trip: at least 3 bytes; foreign: some data; damaged: the stream differs from the valid one or was rejected.");
    let max = ctx.n(20_000, 100_000);
    let data = prop_oneof![30 => gen::bytes(max), 1 => (65_000usize..140_000, any::<u64>()).prop_map(|(n, s)| gen::noise(n, s)), 1 => (60_000usize..200_000, any::<u8>()).prop_map(|(n, b)| vec![b; n])];
    ctx.run("round-trip", ctx.n(20_000, 300_000), (codec(), data, 0u32..=9), round_case);
    ctx.run("large", ctx.n(400, 12_000), (codec(), gen::big_size(4 << 20), any::<(u64, u8)>(), 0u32..=9), |(c, n, (seed, kind), level), cl| {
        cl.when(*n > 1 << 20, "over-a-mebibyte");
        round_case(&(*c, gen::bulk(*n, *seed, *kind), *level), cl)
    });
    ctx.run("foreign-encoder", ctx.n(20_000, 300_000), foreign(), foreign_case);
    let small = foreign().prop_map(|mut f| {
        f.data.truncate(400);
        f
    });
    ctx.run("damaged", ctx.n(200_000, 4_000_000), (small, proptest::option::weighted(0.7, 0u32..=9), damage()), damaged_case);
    let lists = vec(vec((codec(), gen::bytes(9_000), 0u32..=9), 1..6), 2..9);
    ctx.run("together", ctx.n(800, 20_000), lists, |l, cl| together(l, cl, round_case));
}

// ------------------------------------------------------------------------------------------ C22

pub const C22: Prop = Prop {
    id: "C22",
    shards: 8,
    assumptions: &["Base64 text surrounded by blanks or line ends may be accepted or rejected; non-canonical trailing bits may be accepted or rejected"],
    run: run22,
};

const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn ref_b64(data: &[u8]) -> String {
    let mut s = String::new();
    for c in data.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(B64[(v >> (18 - 6 * i)) as usize & 63] as char)
            } else {
                s.push('=')
            }
        }
    }
    s
}

/// Reads Base64; Err when it is not an encoding. The flag tells whether the text is canonical.
fn ref_unb64(s: &str) -> Result<(Vec<u8>, bool), ()> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return Err(());
    }
    let mut out = vec![];
    let mut canonical = true;
    for (i, q) in b.chunks(4).enumerate() {
        let last = (i + 1) * 4 == b.len();
        let pad = q.iter().rev().take_while(|c| **c == b'=').count();
        if pad > 2 || (pad > 0 && !last) {
            return Err(());
        }
        let mut v = 0u32;
        for c in &q[..4 - pad] {
            v = v << 6 | B64.iter().position(|x| x == c).ok_or(())? as u32;
        }
        v <<= 6 * pad;
        canonical &= v & ((1u32 << (8 * pad)) - 1) == 0;
        out.extend_from_slice(&[(v >> 16) as u8, (v >> 8) as u8, v as u8][..3 - pad]);
    }
    Ok((out, canonical))
}

fn ref_hex(data: &[u8]) -> String {
    data.iter().map(|b| format!("{:02x}", b)).collect()
}

fn encode_case(data: &Vec<u8>, cl: &mut Classes) -> Verdict {
    let r = guarded(|| -> Result<(), String> {
        let e = [Base64::encode(data.as_slice()), Base64::encode(data.clone())];
        let want = ref_b64(data);
        for e in e {
            if e != want {
                return Err(format!("Base64 of {} is {:?} instead of {:?}", show(data), e, want));
            }
            for d in [Base64::decode(e.as_str()), Base64::decode(e.clone())] {
                match d {
                    Ok(d) if d == *data => {}
                    other => return Err(format!("Base64 {:?} decodes to {:?} instead of {}", e, other.map_err(|e| e.to_string()), show(data))),
                }
            }
        }
        let mut hexes = vec![Hex::encode(data.as_slice()), Hex::encode(data.clone())];
        if let Ok(s) = std::str::from_utf8(data) {
            hexes.push(Hex::encode(s));
        }
        let want = ref_hex(data);
        for h in hexes {
            if h != want {
                return Err(format!("Hex of {} is {:?} instead of {:?}", show(data), h, want));
            }
            let mixed: String = h.chars().enumerate().map(|(i, c)| if (i * 7 + data.len()) % 3 == 0 { c.to_ascii_uppercase() } else { c }).collect();
            for t in [h.clone(), h.to_uppercase(), mixed] {
                for d in [Hex::decode(t.as_str()), Hex::decode(t.clone())] {
                    match d {
                        Ok(d) if d == *data => {}
                        other => return Err(format!("Hex {:?} decodes to {:?} instead of {}", t, other.map_err(|e| e.to_string()), show(data))),
                    }
                }
            }
        }
        Ok(())
    });
    cl.hit(&format!("length-mod-3-is-{}", data.len() % 3));
    match r {
        Ok(Ok(())) => Verdict::Ok(!data.is_empty()),
        Ok(Err(e)) | Err(e) => Verdict::Fail(e),
    }
}

fn text_case(s: &String, cl: &mut Classes) -> Verdict {
    for owned in [false, true] {
        let got = match guarded(|| if owned { Base64::decode(s.clone()) } else { Base64::decode(s.as_str()) }) {
            Ok(g) => g.map_err(|e| e.to_string()),
            Err(e) => return Verdict::Fail(format!("Base64 {:?}: {}", s, e)),
        };
        match (ref_unb64(s), got) {
            (Ok((want, true)), Ok(d)) if d == want => cl.hit("base64-valid"),
            (Ok((want, false)), Ok(d)) if d == want => cl.hit("base64-non-canonical"),
            (Ok((_, false)), Err(_)) => cl.hit("base64-non-canonical"),
            (Ok((want, _)), got) => return Verdict::Fail(format!("Base64 {:?} decodes to {:?} instead of {:?}", s, got, want)),
            (Err(()), Err(_)) => cl.hit("base64-invalid"),
            (Err(()), Ok(d)) => {
                // blanks around the text are tolerated
                if s.trim() != s && ref_unb64(s.trim()).map(|(w, _)| w == d).unwrap_or(false) {
                    cl.hit("base64-blanks");
                } else {
                    return Verdict::Fail(format!("Base64: {:?} is no encoding but decodes to {:?}", s, d));
                }
            }
        }
        let got = match guarded(|| if owned { Hex::decode(s.clone()) } else { Hex::decode(s.as_str()) }) {
            Ok(g) => g.map_err(|e| e.to_string()),
            Err(e) => return Verdict::Fail(format!("Hex {:?}: {}", s, e)),
        };
        let valid = s.len() % 2 == 0 && s.bytes().all(|b| b.is_ascii_hexdigit());
        match got {
            Ok(d) if valid && ref_hex(&d) == s.to_lowercase() => cl.hit("hex-valid"),
            Err(_) if !valid => cl.hit("hex-invalid"),
            other => return Verdict::Fail(format!("Hex {:?} decodes to {:?}", s, other)),
        }
    }
    Verdict::Ok(!s.is_empty())
}

fn run22(ctx: &mut Ctx) {
    ctx.rule("Non-empty data or text.");
    let n = ctx.n(100_000, 3_000_000);
    ctx.run("encode-decode", n, gen::bytes(2000), encode_case);
    ctx.run("together", n / 50, vec(vec(gen::bytes(3_000), 1..6), 2..9), |l, cl| together(l, cl, encode_case));
    ctx.run("large", n / 120, (gen::big_size(300_000), any::<(u64, u8)>()), |(n, (seed, kind)), cl| encode_case(&gen::bulk(*n, *seed, *kind), cl));
    ctx.each("all-short", (0..=256u32).flat_map(|a| (0..=16u32).map(move |b| (a, b))).map(|(a, b)| {
        if a == 256 { vec![b as u8; b as usize] } else if b == 16 { vec![a as u8] } else { vec![a as u8, (b * 17) as u8] }
    }).collect::<Vec<Vec<u8>>>(), encode_case);
    let b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mangled = (gen::bytes(60), 0u8..8, any::<prop::sample::Index>(), any::<prop::sample::Index>(), "[=\\-_ \n\u{e9}A/z.]").prop_map(move |(d, how, i, j, c)| {
        let mut t: Vec<char> = if how % 2 == 0 { ref_b64(&d) } else { ref_hex(&d) }.chars().collect();
        let k = if t.is_empty() { 0 } else { i.index(t.len()) };
        match how / 2 {
            0 if !t.is_empty() => t[k] = c.chars().next().unwrap(),
            1 => t.insert(k, c.chars().next().unwrap()),
            2 if !t.is_empty() => {
                t.remove(k);
            }
            _ if !t.is_empty() => {
                let l = j.index(t.len());
                t.swap(k, l)
            }
            _ => {}
        }
        t.into_iter().collect::<String>()
    });
    let texts = prop_oneof![
        4 => mangled,
        2 => gen::over(b64, 0, 24),
        2 => gen::over("AQgw=", 0, 12),
        1 => gen::over("0123456789abcdefABCDEF", 0, 20),
        1 => gen::text(20),
        1 => vec(any::<char>(), 0..12).prop_map(|v| v.into_iter().collect::<String>()),
    ];
    ctx.run("texts", n * 3, texts, text_case);
}
