//! Shared generators.
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

pub const TOKEN: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!~*'+^|`$%#&";
pub const ALNUM: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";

/// A string over `chars`.
pub fn over(chars: &str, min: usize, max: usize) -> BoxedStrategy<String> {
    let cs: Vec<char> = chars.chars().collect();
    vec(proptest::sample::select(cs), min..=max).prop_map(|v| v.into_iter().collect()).boxed()
}

pub fn word() -> BoxedStrategy<String> {
    over(ALNUM, 1, 8)
}

/// Few different names, so that collisions happen.
pub fn few(names: &'static [&'static str]) -> BoxedStrategy<String> {
    proptest::sample::select(names.to_vec()).prop_map(|s| s.to_string()).boxed()
}

/// Bytes of mixed character: empty, small, text, runs, random, large.
pub fn bytes(max: usize) -> BoxedStrategy<Vec<u8>> {
    let max = max.max(4);
    prop_oneof![
        1 => Just(vec![]),
        4 => vec(any::<u8>(), 0..=max.min(40)),
        3 => vec(proptest::sample::select(b"\r\n-=&;:\"\0a \xff\xc3".to_vec()), 0..=max.min(60)),
        3 => vec(any::<u8>(), 0..=max),
        2 => (any::<u8>(), 0..=max).prop_map(|(b, n)| vec![b; n]),
        2 => (vec(any::<u8>(), 1..=16usize.min(max)), 0..=max).prop_map(|(p, n)| p.iter().cycle().take(n).cloned().collect()),
        2 => (0..=max, any::<u64>()).prop_map(|(n, seed)| noise(n, seed)),
    ].boxed()
}

/// Incompressible bytes.
pub fn noise(n: usize, seed: u64) -> Vec<u8> {
    let mut x = seed | 1;
    (0..n).map(|_| {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 24) as u8
    }).collect()
}

/// Text without control characters, including non-ASCII.
pub fn text(max: usize) -> BoxedStrategy<String> {
    vec(prop_oneof![6 => 0x20u32..0x7f, 1 => 0xa1u32..0x250, 1 => 0x4e00u32..0x9fff, 1 => 0x1f300u32..0x1f500], 0..=max)
        .prop_map(|v| v.into_iter().filter_map(char::from_u32).collect()).boxed()
}

/// A size biased to buffer boundaries.
pub fn edge_size(max: usize) -> BoxedStrategy<usize> {
    let edges: Vec<usize> = [0usize, 1, 2, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4096, 8191, 8192, 65535, 65536, 65537]
        .into_iter().filter(|n| *n <= max).collect();
    prop_oneof![2 => proptest::sample::select(edges), 2 => 0..=max.min(200), 1 => 0..=max].boxed()
}

/// A size up to `max`, biased to the surroundings of powers of two and round thousands.
pub fn big_size(max: usize) -> BoxedStrategy<usize> {
    let edge = (10u32..=max.ilog2(), prop_oneof![Just(0i64), -3i64..4, -1100i64..1100]).prop_map(move |(p, d)| (((1i64 << p) + d).max(0) as usize).min(max));
    let round = (1usize..=(max / 1000).max(1)).prop_map(move |n| (n * 1000).min(max));
    prop_oneof![3 => edge, 1 => round, 1 => 0..=max].boxed()
}

/// Large content from a few numbers: `kind` chooses between incompressible, text, runs and mixtures.
pub fn bulk(n: usize, seed: u64, kind: u8) -> Vec<u8> {
    match kind % 5 {
        0 => noise(n, seed),
        1 => vec![seed as u8; n],
        2 => noise(n, seed).into_iter().map(|b| b"etaoin shrdlu\r\n-="[b as usize % 17]).collect(),
        3 => {
            let p = noise(1 + (seed % 40_000) as usize, seed);
            p.iter().cycle().take(n).cloned().collect()
        }
        _ => {
            let mut v = Vec::with_capacity(n);
            let mut x = seed | 1;
            while v.len() < n {
                x = x.rotate_left(9).wrapping_mul(0x9e3779b97f4a7c15) | 1;
                let k = ((x >> 20) as usize % 9000).min(n - v.len());
                v.extend(bulk(k, x, (x >> 50) as u8 % 4));
                if k == 0 {
                    v.push(0);
                }
            }
            v.truncate(n);
            v
        }
    }
}
