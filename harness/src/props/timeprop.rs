//! C23: Time against a calendar and integer arithmetic written for this check.
use super::Prop;
use crate::drv::{guarded, Classes, Ctx, Verdict, together};
use crate::gen;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use starry::utils::Time;

pub const C23: Prop = Prop {
    id: "C23",
    shards: 4,
    assumptions: &["instants are generated in the years 1 to 9999, sums of added units stay within +/- 10^15 seconds"],
    run,
};

const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
const DAYS: [&str; 7] = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];

fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
fn month_len(y: i64, m: usize) -> i64 {
    [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m]
}

pub struct Civil {
    pub y: i64,
    pub mon: usize,
    pub d: i64,
    pub h: i64,
    pub mi: i64,
    pub s: i64,
    pub wd: usize,
    pub yd: i64,
}

/// Calendar of a UTC second count, by plain counting of years and months.
pub fn civil(secs: i64) -> Civil {
    let days = secs.div_euclid(86400);
    let sod = secs.rem_euclid(86400);
    let wd = (days + 3).rem_euclid(7) as usize;
    // 400 years have 146097 days; 2000-01-01 is day 10957
    let mut rest = days - 10957;
    let mut y = 2000 + 400 * rest.div_euclid(146097);
    rest = rest.rem_euclid(146097);
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if rest < n {
            break;
        }
        rest -= n;
        y += 1;
    }
    let yd = rest;
    let mut mon = 0;
    while rest >= month_len(y, mon) {
        rest -= month_len(y, mon);
        mon += 1;
    }
    Civil { y, mon, d: rest + 1, h: sod / 3600, mi: sod / 60 % 60, s: sod % 60, wd, yd: yd + 1 }
}

const FORMATS: &[&str] = &["%Y-%m-%d %H:%M:%S", "%a, %d %b %Y %H:%M:%S GMT", "%Y-%m-%dT%H:%M:%S", "%Y%j%H%M%S", "%d%b%Y%H%M%S"];

pub fn render(secs: i64, fmt: usize) -> String {
    let c = civil(secs);
    match fmt {
        0 => format!("{:04}-{:02}-{:02} {:02}:{:02}:{:02}", c.y, c.mon + 1, c.d, c.h, c.mi, c.s),
        1 => format!("{}, {:02} {} {:04} {:02}:{:02}:{:02} GMT", DAYS[c.wd], c.d, MONTHS[c.mon], c.y, c.h, c.mi, c.s),
        2 => format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", c.y, c.mon + 1, c.d, c.h, c.mi, c.s),
        3 => format!("{:04}{:03}{:02}{:02}{:02}", c.y, c.yd, c.h, c.mi, c.s),
        _ => format!("{:02}{}{:04}{:02}{:02}{:02}", c.d, MONTHS[c.mon], c.y, c.h, c.mi, c.s),
    }
}

pub const MIN_SECS: i64 = -62_135_596_800; // 0001-01-01
pub const MAX_SECS: i64 = 253_402_300_799; // 9999-12-31 23:59:59

pub fn instant() -> BoxedStrategy<i64> {
    let boundary = (1i64..=9999, 0usize..12, -2i64..=2).prop_map(|(y, m, off)| {
        // first second of a month, give or take
        let mut days = 0;
        let base = 400 * (y / 400);
        days += 146097 * (y / 400) - 719528; // day number of 0000-01-01 is -719528
        for k in base..y {
            days += if leap(k) { 366 } else { 365 };
        }
        for k in 0..m {
            days += month_len(y, k);
        }
        (days * 86400 + off).clamp(MIN_SECS, MAX_SECS)
    });
    prop_oneof![4 => MIN_SECS..=MAX_SECS, 3 => 0i64..4_000_000_000, 3 => boundary, 1 => -100i64..100].boxed()
}

fn build_case((unit, secs, sub): &(u8, i64, i64), cl: &mut Classes) -> Verdict {
    // (built, nanoseconds it denotes)
    let (t, ns): (Result<Time, String>, i128) = match unit {
        0 => {
            let v = secs.div_euclid(60);
            (guarded(|| Time::from_minutes(v)), v as i128 * 60_000_000_000)
        }
        1 => (guarded(|| Time::from_secs(*secs)), *secs as i128 * 1_000_000_000),
        2 => {
            let v = secs * 1000 + sub.rem_euclid(1000);
            (guarded(|| Time::from_milliseconds(v)), v as i128 * 1_000_000)
        }
        3 => {
            let v = secs * 1_000_000 + sub.rem_euclid(1_000_000);
            (guarded(|| Time::from_microseconds(v)), v as i128 * 1000)
        }
        _ => {
            let lim = 9_223_372_035i64;
            let v = (*secs).clamp(-lim, lim) * 1_000_000_000 + sub.rem_euclid(1_000_000_000);
            (guarded(|| Time::from_nanoseconds(v)), v as i128)
        }
    };
    let t = match t {
        Ok(t) => t,
        Err(e) => return Verdict::Fail(e),
    };
    let floor = ns.div_euclid(1_000_000_000) as i64;
    cl.when(ns < 0, "before-1970");
    cl.when(ns % 1_000_000_000 != 0, "sub-second");
    cl.when(civil(floor).mon == 1 && civil(floor).d == 29, "29-february");
    for (i, f) in FORMATS.iter().enumerate() {
        let want = render(floor, i);
        let got = match guarded(|| (t.format_string(f), t.format(f).to_string(), Time::format_data(t, f))) {
            Ok(g) => g,
            Err(e) => return Verdict::Fail(format!("format {:?} of {} ns: {}", f, ns, e)),
        };
        if got.0 != want || got.1 != want || got.2 != want {
            return Verdict::Fail(format!("{} ns formats as {:?} instead of {:?}", ns, got, want));
        }
        match guarded(|| Time::parse_from_str(&want, f)) {
            Ok(Ok(p)) => {
                if p != Time::from_secs(floor) || p.num_seconds() != floor {
                    return Verdict::Fail(format!("{:?} parses to {} s instead of {}", want, p.num_seconds(), floor));
                }
                if ns == floor as i128 * 1_000_000_000 && p != t {
                    return Verdict::Fail(format!("{:?} does not parse back to an equal time", want));
                }
            }
            Ok(Err(e)) => return Verdict::Fail(format!("{:?} with {:?} is rejected: {}", want, f, e)),
            Err(e) => return Verdict::Fail(format!("parsing {:?}: {}", want, e)),
        }
    }
    if t.to_string() != render(floor, 0) {
        return Verdict::Fail(format!("to_string of {} ns is {:?}", ns, t.to_string()));
    }
    if let Err(e) = counts(&t, ns) {
        return Verdict::Fail(e);
    }
    Verdict::Ok(true)
}

fn counts(t: &Time, ns: i128) -> Result<(), String> {
    let q = |d: i128| (ns / d) as i64;
    let s = 1_000_000_000i128;
    let list = [
        ("weeks", t.num_weeks(), q(604800 * s)), ("days", t.num_days(), q(86400 * s)), ("hours", t.num_hours(), q(3600 * s)),
        ("minutes", t.num_minutes(), q(60 * s)), ("seconds", t.num_seconds(), q(s)), ("milliseconds", t.num_milliseconds(), q(1_000_000)),
    ];
    for (n, got, want) in list {
        if got != want {
            return Err(format!("{} ns has num_{} {} instead of {}", ns, n, got, want));
        }
    }
    let fits = |v: i128| if v >= i64::MIN as i128 && v <= i64::MAX as i128 { Some(v as i64) } else { None };
    if t.num_microseconds() != fits(ns / 1000) {
        return Err(format!("{} ns has num_microseconds {:?}", ns, t.num_microseconds()));
    }
    if t.num_nanoseconds() != fits(ns) {
        return Err(format!("{} ns has num_nanoseconds {:?}", ns, t.num_nanoseconds()));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    unit: u8,
    n: i64,
    sub: bool,
    undo: bool,
}

const UNIT_NS: [i128; 8] = [1, 1_000, 1_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000, 86_400_000_000_000, 604_800_000_000_000];

fn apply(t: &mut Time, unit: u8, n: i64, sub: bool) {
    use chrono::Duration as D;
    match (unit, sub) {
        (0, false) => t.add_nanoseconds(n), (0, true) => t.sub_nanoseconds(n),
        (1, false) => t.add_microseconds(n), (1, true) => t.sub_microseconds(n),
        (2, false) => t.add_milliseconds(n), (2, true) => t.sub_milliseconds(n),
        (3, false) => t.add_seconds(n), (3, true) => t.sub_seconds(n),
        (4, false) => t.add_minutes(n), (4, true) => t.sub_minutes(n),
        (5, false) => t.add_hours(n), (5, true) => t.sub_hours(n),
        (6, false) => t.add_days(n), (6, true) => t.sub_days(n),
        (7, false) => t.add_weeks(n), (7, true) => t.sub_weeks(n),
        (8, false) => t.add(D::seconds(n)), (8, true) => t.sub(D::seconds(n)),
        (_, false) => t.add(D::nanoseconds(n)), (_, true) => t.sub(D::nanoseconds(n)),
    }
}

fn arith_case((start, steps): &(i64, Vec<Step>), cl: &mut Classes) -> Verdict {
    let mut t = Time::from_nanoseconds(*start);
    let mut ns = *start as i128;
    for (i, s) in steps.iter().enumerate() {
        let unit = match s.unit {
            8 => UNIT_NS[3],
            9 => 1,
            u => UNIT_NS[u as usize],
        };
        // keep the amount within what the unit makes sensible
        let lim = (1_000_000_000_000_000_000_000i128 / unit).min(i64::MAX as i128) as i64;
        let n = s.n % lim;
        let before = t;
        if let Err(e) = guarded(|| apply(&mut t, s.unit, n, s.sub)) {
            return Verdict::Fail(format!("step {}: {}", i, e));
        }
        let moved = ns + if s.sub { -1 } else { 1 } * n as i128 * unit;
        if let Err(e) = counts(&t, moved) {
            return Verdict::Fail(format!("after step {} ({:?}): {}", i, s, e));
        }
        let d = t.duration();
        let back = Time::from(d);
        if back != t {
            return Verdict::Fail(format!("after step {}: from(duration()) is not equal", i));
        }
        let sec = moved / 1_000_000_000;
        if d != chrono::Duration::seconds(sec as i64) + chrono::Duration::nanoseconds((moved % 1_000_000_000) as i64) {
            return Verdict::Fail(format!("after step {} ({:?}): duration is {:?}, not {} ns", i, s, d, moved));
        }
        if s.undo {
            let mut u = t;
            if let Err(e) = guarded(|| apply(&mut u, s.unit, n, !s.sub)) {
                return Verdict::Fail(format!("undo of step {}: {}", i, e));
            }
            if u != before {
                return Verdict::Fail(format!("undoing step {} ({:?}) does not restore the time", i, s));
            }
            cl.hit("undone");
        }
        ns = moved;
    }
    Verdict::Ok(steps.len() >= 2)
}

fn invalid_case((text, fmt): &(String, usize), cl: &mut Classes) -> Verdict {
    let got = match guarded(|| Time::parse_from_str(text, FORMATS[*fmt])) {
        Ok(g) => g,
        Err(e) => return Verdict::Fail(format!("parsing {:?} with {:?}: {}", text, FORMATS[*fmt], e)),
    };
    match got {
        Err(_) => {
            cl.hit("rejected");
            Verdict::Ok(true)
        }
        Ok(t) => {
            // whatever is accepted must name the instant the text shows (leading zeros and blanks may differ)
            let secs = t.num_seconds();
            if *fmt == 3 || !(MIN_SECS..=MAX_SECS).contains(&secs) {
                return Verdict::Ok(false);
            }
            let norm = |s: &str| -> Vec<String> {
                let mut out: Vec<String> = vec![];
                let mut kind = 0;
                for c in s.chars() {
                    if c.is_whitespace() {
                        kind = 0;
                        continue;
                    }
                    let k = if c.is_ascii_digit() { 1 } else { 2 };
                    if k != kind {
                        out.push(String::new());
                        kind = k;
                    }
                    out.last_mut().unwrap().push(c.to_ascii_lowercase());
                }
                out.into_iter().map(|s| s.trim_start_matches('0').to_string()).collect()
            };
            if *fmt == 4 {
                return Verdict::Ok(false);
            }
            let want = render(secs, *fmt);
            // fields may touch where the format has a blank
            if text.split_whitespace().count() != want.split_whitespace().count() {
                return Verdict::Ok(false);
            }
            // a leap second is written as :60 and lies within the same minute
            if norm(text) != norm(&want) && !text.contains(":60") && !text.contains('+') {
                return Verdict::Fail(format!("{:?} is accepted as {:?}", text, want));
            }
            cl.hit("accepted");
            Verdict::Ok(false)
        }
    }
}

/// West of Greenwich by minutes, and perhaps with a summer time.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Zone {
    minutes: i32,
    summer: u8,
}

impl Zone {
    fn text(&self) -> String {
        let m = self.minutes.abs();
        let sign = if self.minutes < 0 { "-" } else { "" };
        let rule = ["", "XDT,M3.2.0,M11.1.0", "XDT,M3.5.0/2,M10.5.0/3", "XDT,M10.1.0,M4.1.0/3"][self.summer as usize % 4];
        format!("XST{}{}:{:02}{}", sign, m / 60, m % 60, rule)
    }
}

/// Seconds that local time is ahead, by the C library.
fn ahead(at: i64) -> i64 {
    extern "C" {
        fn tzset();
    }
    unsafe {
        tzset();
        let t: libc::time_t = at;
        let mut tm: libc::tm = std::mem::zeroed();
        libc::localtime_r(&t, &mut tm);
        tm.tm_gmtoff
    }
}

/// The present, at any moment and place.
fn now_case(moments: &[i64], zone: &Zone, cl: &mut Classes) -> Verdict {
    std::env::set_var("TZ", zone.text());
    let clock = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_nanos() as i64);
    // what is remembered of the zone is remembered by thread
    let seen: Vec<Result<(i64, Time, i64), String>> = std::thread::scope(|s| s.spawn(|| moments.iter().map(|ms| crate::clock::standing(*ms, || {
        let before = clock();
        guarded(Time::now).map(|t| (before, t, clock()))
    })).collect()).join().unwrap_or_default());
    for r in seen {
        let (before, t, after) = match r {
            Ok(x) => x,
            Err(e) => return Verdict::Fail(format!("now() {}", e)),
        };
        let (a, b) = (ahead(before.div_euclid(1_000_000_000)), ahead(after.div_euclid(1_000_000_000)));
        let got = match t.num_nanoseconds() {
            Some(n) => n,
            None => return Verdict::Fail(String::from("now() has no count of nanoseconds")),
        };
        let (low, high) = (before + a.min(b) * 1_000_000_000 - 1_000, after + a.max(b) * 1_000_000_000);
        if got < low || got > high {
            return Verdict::Fail(format!("now() is {} ({} ns) between {} and {} ns local time with {}", t.format_string("%Y-%m-%d %H:%M:%S"), got, low, high, zone.text()));
        }
        cl.when(a != 0, "not-greenwich");
    }
    Verdict::Ok(zone.minutes != 0)
}

fn run(ctx: &mut Ctx) {
    ctx.rule("Formatting: every generated instant; arithmetic: at least two steps; now: elsewhere than at Greenwich; invalid text: rejected ones.");
    ctx.run("build-format-parse", ctx.n(400_000, 20_000_000), (0u8..5, instant(), any::<i64>()), build_case);
    ctx.run("together", ctx.n(2_400, 80_000), vec(vec((0u8..5, instant(), any::<i64>()), 1..8), 2..9), |l, cl| together(l, cl, build_case));
    let amount = prop_oneof![3 => -100i64..100, 2 => -100_000_000i64..100_000_000, 1 => any::<i64>()];
    let step = (0u8..10, amount, any::<bool>(), any::<bool>()).prop_map(|(unit, n, sub, undo)| Step { unit, n, sub, undo });
    ctx.run("arithmetic", ctx.n(300_000, 10_000_000), (any::<i64>().prop_map(|n| n / 2), vec(step, 1..8)), arith_case);
    let bad = (instant(), 0usize..5, 0u8..6, any::<prop::sample::Index>(), "[0-9 :\\-a-zA-Z\u{e9}+]").prop_map(|(s, f, how, i, c)| {
        let mut t: Vec<char> = render(s, f).chars().collect();
        let k = i.index(t.len());
        match how {
            0 => t[k] = c.chars().next().unwrap(),
            1 => t.insert(k, c.chars().next().unwrap()),
            2 => {
                t.remove(k);
            }
            3 => t.truncate(k),
            4 => t.push(c.chars().next().unwrap()),
            _ => t[k] = '9',
        }
        (t.into_iter().collect::<String>(), f)
    });
    let bad = prop_oneof![5 => bad, 1 => (gen::text(30), 0usize..5)];
    let moments = vec(prop_oneof![3 => 0i64..7_000_000_000_000, 1 => (0i64..80_000, -3i64..3).prop_map(|(d, s)| (d * 86_400_000 + s * 1000).max(0))], 1..4);
    let zone = (prop_oneof![1 => Just(0i32), 2 => (-14i32..=12).prop_map(|h| h * 60), 2 => -840i32..=720], prop_oneof![2 => Just(0u8), 1 => 1u8..4]).prop_map(|(minutes, summer)| Zone { minutes, summer });
    ctx.run("now", ctx.n(8_000, 200_000), (moments, zone), |(m, z), cl| now_case(m, z, cl));
    ctx.run("invalid-text", ctx.n(400_000, 10_000_000), bad, invalid_case);
}
