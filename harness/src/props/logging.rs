//! C26 log records go to the configured files. Each case runs in processes of its own.
use super::Prop;
use crate::drv::{Classes, Ctx, Verdict};
use crate::gen;
use crate::net::{free_addr, Deadline, PATIENCE_MS};
use log::{Level, LevelFilter};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use starry::utils::log::LogModule;
use starry::HttpServer;
use std::collections::BTreeMap;
use std::net::{SocketAddr, TcpStream};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

pub const C26: Prop = Prop {
    id: "C26",
    shards: 8,
    assumptions: &[
        "module names within one configuration differ from each other, from the main name and from \"stdout\", and so do package names, which are well-formed paths",
        "the size and count limits of the main file are positive",
        "no record is being written while the configuration changes",
    ],
    run,
};

// ---------------------------------------------------------------- cases

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Module {
    name: String,
    pkg: String,
    /// 0 off .. 5 trace
    level: u8,
    additive: bool,
    dir: String,
    size: u64,
    count: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Setup {
    /// config_log with the first module as the main one
    Modules(Module, Vec<Module>),
    /// a server with set_log
    Server(Module),
    /// a server without
    PlainServer,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rec {
    /// 1 error .. 5 trace
    level: u8,
    target: String,
    text: String,
    /// the text is repeated this often
    times: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Phase {
    setup: Setup,
    threads: u8,
    recs: Vec<Rec>,
}

/// Processes one after another in the same directory.
type Case = Vec<Vec<Phase>>;

#[derive(Serialize, Deserialize)]
struct Job {
    run: usize,
    phases: Vec<Phase>,
    addrs: Vec<SocketAddr>,
}

fn filter(n: u8) -> LevelFilter {
    [LevelFilter::Off, LevelFilter::Error, LevelFilter::Warn, LevelFilter::Info, LevelFilter::Debug, LevelFilter::Trace][n as usize % 6]
}

fn level(n: u8) -> Level {
    [Level::Error, Level::Warn, Level::Info, Level::Debug, Level::Trace][(n.max(1) - 1) as usize % 5]
}

fn message(run: usize, phase: usize, i: usize, r: &Rec) -> String {
    format!("r{}p{}n{} {}", run, phase, i, r.text.repeat(r.times as usize))
}

// ---------------------------------------------------------------- the child process

/// `vh logcase FILE`: sets logging up and writes records as FILE says; files go below the current directory.
pub fn child(args: &[String]) {
    let job: Job = serde_json::from_str(&std::fs::read_to_string(&args[0]).expect("job")).expect("job");
    let module = |m: &Module| LogModule {
        name: m.name.clone(),
        pkg: m.pkg.clone(),
        level: filter(m.level),
        additive: m.additive,
        dir: m.dir.clone(),
        file_max_size: m.size,
        file_max_count: m.count,
    };
    for (p, phase) in job.phases.iter().enumerate() {
        if p > 0 && !matches!(job.phases[p - 1].setup, Setup::Modules(..)) {
            // the server before has finished with the probing connection
            std::thread::sleep(Duration::from_millis(20));
        }
        match &phase.setup {
            Setup::Modules(main, rest) => module(main).config_log(rest.iter().map(module).collect()),
            server => {
                let m = match server {
                    Setup::Server(m) => Some(m.clone()),
                    _ => None,
                };
                let addr = job.addrs[p];
                std::thread::spawn(move || {
                    let mut server = HttpServer::new();
                    server.set_pool_size(1);
                    if let Some(m) = m {
                        server.set_log(filter(m.level), m.dir, m.size, m.count);
                    }
                    let _ = server.listener(addr);
                    std::process::exit(7)
                });
                // logging is set up before the server accepts
                while TcpStream::connect(addr).is_err() {
                    std::thread::sleep(Duration::from_millis(1))
                }
            }
        }
        let threads = phase.threads.max(1) as usize;
        let emit = |t: usize| {
            for (i, r) in phase.recs.iter().enumerate().filter(|(i, _)| i % threads == t) {
                log::log!(target: &r.target, level(r.level), "{}", message(job.run, p, i, r));
            }
        };
        if threads == 1 {
            emit(0)
        } else {
            std::thread::scope(|s| {
                for t in 0..threads {
                    let emit = &emit;
                    s.spawn(move || emit(t));
                }
            });
        }
    }
    std::process::exit(0)
}

static NEXT: AtomicU64 = AtomicU64::new(0);

struct Yard(PathBuf);
impl Drop for Yard {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Runs the processes of a case and returns the directory with their files.
fn execute(scratch: &Path, case: &Case) -> Result<Yard, Verdict> {
    let yard = Yard(scratch.join(format!("log-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed))));
    std::fs::create_dir_all(yard.0.join("cwd")).expect("scratch directory");
    let exe = std::env::current_exe().expect("own path");
    for (run, phases) in case.iter().enumerate() {
        let addrs = phases.iter().map(|p| if matches!(p.setup, Setup::Modules(..)) { "127.0.0.1:1".parse().unwrap() } else { free_addr() }).collect();
        let file = yard.0.join(format!("job-{}", run));
        std::fs::write(&file, serde_json::to_vec(&Job { run, phases: phases.clone(), addrs }).unwrap()).expect("job file");
        let errors = yard.0.join(format!("errors-{}", run));
        let err = std::fs::File::create(&errors).expect("error file");
        let out = std::fs::File::create(yard.0.join(format!("console-{}", run))).expect("console file");
        let mut c = Command::new(&exe).arg("logcase").arg(&file).current_dir(yard.0.join("cwd")).stdin(Stdio::null()).stdout(out).stderr(err).spawn().expect("child process");
        let d = Deadline::ms(PATIENCE_MS);
        let status = loop {
            match c.try_wait().expect("child process") {
                Some(s) => break s,
                None if d.over() => {
                    let _ = c.kill();
                    let _ = c.wait();
                    return Err(Verdict::Slow("the process that logs does not end".into()));
                }
                None => std::thread::sleep(Duration::from_micros(300)),
            }
        };
        if !status.success() {
            let mut text = std::fs::read_to_string(&errors).unwrap_or_default();
            crate::drv::truncate(&mut text, 600);
            return Err(Verdict::Fail(format!("process {} that logs ended with {}: {}", run, status, text)));
        }
    }
    Ok(yard)
}

// ---------------------------------------------------------------- the model

#[derive(Clone, Debug, PartialEq)]
struct Line {
    level: String,
    target: String,
    message: String,
    /// which thread of which phase wrote it
    source: (usize, usize, usize),
}

fn covers(pkg: &str, target: &str) -> bool {
    target == pkg || target.strip_prefix(pkg).map_or(false, |r| r.starts_with("::"))
}

fn place(dir: &str, name: &str) -> String {
    let parts: Vec<&str> = dir.split('/').filter(|p| !p.is_empty() && *p != ".").collect();
    format!("{}/{}", parts.join("/"), name)
}

/// The files (without ".log") a record must be written to.
fn destinations(setup: &Setup, r: &Rec) -> Vec<String> {
    let none = vec![];
    let (main_name, main_dir, main_level, modules) = match setup {
        Setup::Modules(m, rest) => (m.name.as_str(), m.dir.as_str(), m.level, rest),
        Setup::Server(m) => ("starry-http", m.dir.as_str(), m.level, &none),
        Setup::PlainServer => ("starry-http-server", "tmp", 5, &none),
    };
    let mut chain: Vec<&Module> = modules.iter().filter(|m| covers(&m.pkg, &r.target)).collect();
    chain.sort_by_key(|m| std::cmp::Reverse(m.pkg.len()));
    let limit = chain.first().map_or(main_level, |m| m.level);
    if r.level > limit {
        return vec![];
    }
    let mut to = vec![];
    for m in chain {
        to.push(place(if m.dir.is_empty() { main_dir } else { &m.dir }, &m.name));
        if !m.additive {
            return to;
        }
    }
    to.push(place(main_dir, main_name));
    to
}

fn expected(case: &Case) -> BTreeMap<String, Vec<Line>> {
    let mut files: BTreeMap<String, Vec<Line>> = BTreeMap::new();
    for (run, phases) in case.iter().enumerate() {
        for (p, phase) in phases.iter().enumerate() {
            for (i, r) in phase.recs.iter().enumerate() {
                for to in destinations(&phase.setup, r) {
                    files.entry(to).or_default().push(Line {
                        level: level(r.level).to_string(),
                        target: r.target.clone(),
                        message: message(run, p, i, r),
                        source: (run, p, i % phase.threads.max(1) as usize),
                    });
                }
            }
        }
    }
    files
}

/// The lines of a log file that the case wrote; everything in it must be well formed. A server that is
/// still logging when its process ends or logging is reconfigured can leave torn lines of its own: those
/// of the case are written by then.
fn read_log(path: &Path, server: bool) -> Result<Vec<(String, String, String)>, String> {
    let bytes = std::fs::read(path).map_err(|e| format!("{}: {}", path.display(), e))?;
    let text = String::from_utf8(bytes).map_err(|_| format!("{} is not text", path.display()))?;
    if !server && !text.is_empty() && !text.ends_with('\n') {
        return Err(format!("{} does not end with a line end", path.display()));
    }
    let mut lines = vec![];
    for l in text.lines() {
        let parsed = serde_json::from_str(l);
        if server && parsed.is_err() {
            continue;
        }
        let v: serde_json::Value = parsed.map_err(|e| format!("{}: line {:?} is not JSON: {}", path.display(), short(l), e))?;
        let field = |k: &str| v.get(k).and_then(|x| x.as_str()).map(|s| s.to_string()).ok_or_else(|| format!("{}: line {:?} has no {}", path.display(), short(l), k));
        let (level, target, message) = (field("level")?, field("target")?, field("message")?);
        if !own(&target) {
            lines.push((level, target, message));
        }
    }
    Ok(lines)
}

/// Records of the library (a server that runs on logs by itself) and of what it is built on.
fn own(target: &str) -> bool {
    ["starry", "log4rs", "mio", "polling"].iter().any(|p| covers(p, target))
}

fn short(s: &str) -> String {
    let mut s = s.to_string();
    crate::drv::truncate(&mut s, 200);
    s
}

fn listing(root: &Path, at: &Path, found: &mut BTreeMap<String, PathBuf>) {
    for e in std::fs::read_dir(at).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            listing(root, &p, found);
        } else {
            let rel = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
            let rel = if rel.contains('/') { rel } else { format!("/{}", rel) };
            found.insert(rel, p);
        }
    }
}

/// Same records, and those of each thread in its order; phases one after another.
fn compare(file: &str, got: &[(String, String, String)], want: &[Line]) -> Result<(), String> {
    let mut index: BTreeMap<(&str, &str, &str), usize> = BTreeMap::new();
    for (i, w) in want.iter().enumerate() {
        index.insert((w.level.as_str(), w.target.as_str(), w.message.as_str()), i);
    }
    let mut seen = vec![false; want.len()];
    let mut last: BTreeMap<(usize, usize, usize), usize> = BTreeMap::new();
    let mut phase = (0, 0);
    for g in got {
        let i = match index.get(&(g.0.as_str(), g.1.as_str(), g.2.as_str())) {
            Some(i) => *i,
            None => return Err(format!("{} has a record that does not belong there: {} {} {:?}", file, g.0, g.1, short(&g.2))),
        };
        let w = &want[i];
        if std::mem::replace(&mut seen[i], true) {
            return Err(format!("{} has a record twice: {} {} {:?}", file, g.0, g.1, short(&g.2)));
        }
        let now = (w.source.0, w.source.1);
        if now < phase || last.get(&w.source).map_or(false, |l| *l > i) {
            return Err(format!("{}: record out of order: {} {} {:?}", file, g.0, g.1, short(&g.2)));
        }
        phase = now;
        last.insert(w.source, i);
    }
    match seen.iter().position(|s| !s) {
        Some(i) => Err(format!("{} lacks a record: {} {} {:?}", file, want[i].level, want[i].target, short(&want[i].message))),
        None => Ok(()),
    }
}

/// What reaches the main file is on the console too, and nothing else.
fn console(yard: &Yard, case: &Case) -> Result<usize, String> {
    let mut shown = 0;
    for (run, phases) in case.iter().enumerate() {
        let bytes = std::fs::read(yard.0.join(format!("console-{}", run))).map_err(|e| format!("console: {}", e))?;
        let text = String::from_utf8_lossy(&bytes);
        let mut last: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        for (p, phase) in phases.iter().enumerate() {
            let main = match &phase.setup {
                Setup::Modules(m, _) => place(&m.dir, &m.name),
                Setup::Server(m) => place(&m.dir, "starry-http"),
                Setup::PlainServer => place("tmp", "starry-http-server"),
            };
            for (i, r) in phase.recs.iter().enumerate() {
                let what = format!("{} {} {}", level(r.level), r.target, short(&message(run, p, i, r)));
                let head = format!(" {} {} r{}p{}n{} ", level(r.level), r.target, run, p, i);
                let places: Vec<usize> = text.match_indices(&head).map(|(at, _)| at).collect();
                if !destinations(&phase.setup, r).contains(&main) {
                    if !places.is_empty() {
                        return Err(format!("a record is on the console that does not belong there: {}", what));
                    }
                    continue;
                }
                shown += 1;
                let whole = format!(" {} {} {}\n", level(r.level), r.target, message(run, p, i, r));
                if places.len() != 1 || !text[places[0]..].starts_with(&whole) {
                    return Err(format!("a record is on the console {} times, or not whole: {}", places.len(), what));
                }
                let thread = (p, i % phase.threads.max(1) as usize);
                if last.insert(thread, places[0]).is_some_and(|l| l > places[0]) {
                    return Err(format!("a record is out of order on the console: {}", what));
                }
            }
        }
    }
    Ok(shown)
}

fn files_case(scratch: &Path, case: &Case, cl: &mut Classes) -> Verdict {
    let yard = match execute(scratch, case) {
        Ok(y) => y,
        Err(v) => return v,
    };
    let root = yard.0.join("cwd");
    let mut found = BTreeMap::new();
    listing(&root, &root, &mut found);
    let want = expected(case);
    let server = case.iter().flatten().any(|p| !matches!(p.setup, Setup::Modules(..)));
    for (to, lines) in &want {
        let file = format!("{}.log", to);
        let got = match found.remove(&file) {
            Some(p) => match read_log(&p, server) {
                Ok(l) => l,
                Err(e) => return Verdict::Fail(e),
            },
            None => vec![],
        };
        if let Err(e) = compare(&file, &got, lines) {
            return Verdict::Fail(e);
        }
    }
    // no record anywhere else
    for (file, p) in &found {
        match read_log(p, server) {
            Ok(l) if l.is_empty() => {}
            Ok(l) => return Verdict::Fail(format!("{} has records that do not belong there: {} {} {:?}", file, l[0].0, l[0].1, short(&l[0].2))),
            Err(e) => return Verdict::Fail(e),
        }
    }
    match console(&yard, case) {
        Ok(n) => cl.when(n > 0, "on-the-console"),
        Err(e) => return Verdict::Fail(e),
    }
    let phases: Vec<&Phase> = case.iter().flatten().collect();
    let setups: Vec<&Setup> = phases.iter().map(|p| &p.setup).collect();
    cl.when(case.len() > 1, "several-processes");
    cl.when(case.iter().any(|p| p.len() > 1), "reconfigured");
    cl.when(phases.iter().any(|p| p.threads > 1 && p.recs.len() > 1), "threads");
    cl.when(setups.iter().any(|s| !matches!(s, Setup::Modules(..))), "server");
    cl.when(setups.iter().any(|s| matches!(s, Setup::Modules(_, r) if r.iter().any(|a| r.iter().any(|b| a.pkg != b.pkg && covers(&a.pkg, &b.pkg))))), "nested-packages");
    cl.when(setups.iter().any(|s| matches!(s, Setup::Modules(_, r) if r.iter().any(|a| a.dir.is_empty()))), "inherited-directory");
    cl.when(setups.iter().any(|s| matches!(s, Setup::Modules(_, r) if r.iter().any(|a| a.size == 0))), "inherited-limits");
    cl.when(phases.iter().any(|p| p.recs.iter().any(|r| r.text.contains('\n') || r.text.contains('"'))), "awkward-text");
    let total: usize = phases.iter().map(|p| p.recs.len()).sum();
    let written: usize = want.values().map(|v| v.len()).sum();
    Verdict::Ok(total >= 3 && written >= 1 && written != total)
}

// ---------------------------------------------------------------- generators

const PARTS: &[&str] = &["app", "api", "app_db", "a", "b", "ap", "db", "日志"];

fn path(max: usize) -> BoxedStrategy<String> {
    vec(prop_oneof![5 => proptest::sample::select(PARTS[..4].to_vec()), 1 => proptest::sample::select(PARTS.to_vec())], 1..=max).prop_map(|v| v.join("::")).boxed()
}

fn module() -> BoxedStrategy<Module> {
    let name = prop_oneof![4 => gen::few(&["main", "one", "two", "mod-3", "four.x", "日志", "app", "a"]), 1 => gen::over(gen::ALNUM, 1, 6)];
    let dir = gen::few(&["", "", "logs", "logs/deep/er", "other", "./logs", "logs/"]);
    (name, path(3), 0u8..6, any::<bool>(), dir, prop_oneof![2 => Just(0u64), 3 => 1u64..5, 1 => Just(1024u64)], prop_oneof![2 => Just(0u32), 3 => 1u32..9])
        .prop_map(|(name, pkg, level, additive, dir, size, count)| Module { name, pkg, level, additive, dir, size, count }).boxed()
}

fn main_module() -> BoxedStrategy<Module> {
    (module(), gen::few(&["logs", "logs", "main/logs", "."])).prop_map(|(mut m, dir)| {
        if m.dir.is_empty() {
            m.dir = dir
        }
        m.size = m.size.max(1);
        m.count = m.count.max(1);
        m
    }).boxed()
}

fn setup() -> BoxedStrategy<Setup> {
    prop_oneof![
        14 => (main_module(), vec(module(), 0..5)).prop_map(|(main, rest)| {
            let mut kept: Vec<Module> = vec![];
            for mut m in rest {
                if kept.iter().any(|k| k.pkg == m.pkg) {
                    continue;
                }
                if m.name == main.name || m.name == "stdout" || kept.iter().any(|k| k.name == m.name) {
                    m.name = format!("{}_{}", m.name, kept.len());
                }
                if m.name == main.name || kept.iter().any(|k| k.name == m.name) {
                    continue;
                }
                kept.push(m);
            }
            Setup::Modules(main, kept)
        }),
        1 => main_module().prop_map(Setup::Server),
        1 => Just(Setup::PlainServer),
    ].boxed()
}

fn rec() -> BoxedStrategy<Rec> {
    let target = prop_oneof![6 => path(4), 1 => gen::few(&["", "app::", "::app", "application", "app:api", "App", "vh"])];
    let text = prop_oneof![
        5 => gen::text(20),
        2 => gen::over("\"\\\n\r\t{}[],:'\u{0}\u{7f}\u{2028}é", 0, 12),
        1 => gen::few(&["{}", "%n", "{\"message\":\"x\"}\n{\"a\":1}", "$ENV{HOME}", "{d}{m}"]),
    ];
    (1u8..6, target, text, prop_oneof![12 => Just(1u32), 1 => 2u32..2000]).prop_map(|(level, target, text, times)| Rec { level, target, text, times }).boxed()
}

fn case() -> BoxedStrategy<Case> {
    let phase = (setup(), prop_oneof![4 => Just(1u8), 1 => 2u8..5], vec(rec(), 0..14)).prop_map(|(setup, threads, recs)| {
        // records of one file must not fill it
        let mut recs = recs;
        let mut room = 600_000usize;
        for r in &mut recs {
            let one = r.text.len().max(1) * 6;
            let times = (r.times as usize).min(room / 3 / one).max(1);
            room = room.saturating_sub(one * times + 400);
            r.times = times as u32;
        }
        Phase { setup, threads, recs }
    });
    prop_oneof![3 => vec(vec(phase.clone(), 1..4), 1..2), 1 => vec(vec(phase, 1..3), 2..4)].prop_filter("too much text", |c: &Case| {
        let total: usize = c.iter().flatten().flat_map(|p| &p.recs).map(|r| r.text.len() * 6 * r.times as usize + 400).sum();
        total < 900_000
    }).boxed()
}

// ---------------------------------------------------------------- size limits

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Roll {
    /// limits of the main file; those of the module, zero inherits
    main: (u64, u32),
    module: Option<(u64, u32)>,
    /// sizes of the records in KiB
    kib: Vec<u16>,
    threads: u8,
    /// a second process continues after this many records
    split: Option<u8>,
}

fn roll() -> BoxedStrategy<Roll> {
    let kib = prop_oneof![3 => vec(100u16..500, 4..20), 2 => vec(prop_oneof![1u16..30, 300u16..1500], 4..24), 1 => vec(Just(256u16), 4..24)];
    (
        (1u64..3, 1u32..4),
        proptest::option::of((prop_oneof![2 => Just(0u64), 2 => Just(1u64), 1 => Just(2u64)], prop_oneof![2 => Just(0u32), 3 => 1u32..4])),
        kib,
        prop_oneof![4 => Just(1u8), 1 => 2u8..4],
        proptest::option::weighted(0.3, 1u8..10),
    ).prop_map(|(main, module, kib, threads, split)| Roll { main, module, kib, threads, split }).boxed()
}

const MIB: u64 = 1 << 20;

fn roll_case(scratch: &Path, r: &Roll, cl: &mut Classes) -> Verdict {
    let plain = |name: &str, pkg: &str, dir: &str, size: u64, count: u32, additive: bool| Module { name: name.into(), pkg: pkg.into(), level: 5, additive, dir: dir.into(), size, count };
    let setup = Setup::Modules(
        plain("main", "", "logs", r.main.0, r.main.1, true),
        r.module.iter().map(|(s, c)| plain("part", "part", "", *s, *c, true)).collect(),
    );
    let recs: Vec<Rec> = r.kib.iter().map(|k| Rec { level: 3, target: "part".into(), text: "0123456789abcdef".into(), times: *k as u32 * 64 }).collect();
    let phase = |recs: &[Rec]| Phase { setup: setup.clone(), threads: r.threads, recs: recs.to_vec() };
    let case: Case = match r.split {
        Some(n) if (n as usize) < recs.len() => vec![vec![phase(&recs[..n as usize])], vec![phase(&recs[n as usize..])]],
        _ => vec![vec![phase(&recs)]],
    };
    let yard = match execute(scratch, &case) {
        Ok(y) => y,
        Err(v) => return v,
    };
    let root = yard.0.join("cwd");
    let mut found = BTreeMap::new();
    listing(&root, &root, &mut found);
    let largest = r.kib.iter().map(|k| *k as u64 * 1024).max().unwrap_or(0) + 1024;
    let mut limits = vec![("main", r.main.0, r.main.1)];
    if let Some((s, c)) = r.module {
        limits.push(("part", if s == 0 { r.main.0 } else { s }, if c == 0 { r.main.1 } else { c }));
    }
    let want = expected(&case);
    let mut rolled = false;
    for (name, size, count) in limits {
        let judge = || -> Result<(bool, bool), String> {
            // oldest first
            let mut files: Vec<(u32, &PathBuf)> = vec![];
            for (rel, p) in &found {
                let rel = match rel.strip_prefix("logs/") {
                    Some(x) => x,
                    None => continue,
                };
                if rel == format!("{}.log", name) {
                    files.push((0, p));
                } else if let Some(n) = rel.strip_prefix(&format!("{}-log-", name)).and_then(|x| x.strip_suffix(".log")).and_then(|x| x.parse().ok()) {
                    files.push((n, p));
                }
            }
            files.sort_by_key(|f| std::cmp::Reverse(f.0));
            let old = files.iter().filter(|f| f.0 > 0).count();
            if old as u32 > count {
                return Err(format!("{} full files of {:?} are kept, the limit is {}", old, name, count));
            }
            let mut got = vec![];
            for (n, p) in &files {
                let len = std::fs::metadata(p).map(|m| m.len()).unwrap_or(0);
                if len > size * MIB + largest {
                    return Err(format!("{} has {} bytes, the limit is {} MiB", p.display(), len, size));
                }
                if *n > 0 && len + largest < size * MIB {
                    return Err(format!("{} was put away with only {} bytes, the limit is {} MiB", p.display(), len, size));
                }
                got.extend(read_log(p, false)?);
            }
            let all = want.get(&format!("logs/{}", name)).cloned().unwrap_or_default();
            let lost = all.len().saturating_sub(got.len());
            if lost > 0 && (old as u32) < count {
                return Err(format!("{} records of {:?} are gone with only {} of {} full files kept", lost, name, old, count));
            }
            // what is left are the latest records
            let left = if r.threads <= 1 {
                all[lost..].to_vec()
            } else {
                let have: Vec<&str> = got.iter().map(|g| g.2.as_str()).collect();
                all.into_iter().filter(|l| have.contains(&l.message.as_str())).collect()
            };
            compare(name, &got, &left)?;
            Ok((old > 0, lost > 0))
        };
        match judge() {
            Ok((full, lost)) => {
                rolled |= full;
                cl.when(full, "rolled");
                cl.when(lost, "oldest-dropped");
            }
            Err(e) => return Verdict::Fail(e),
        }
    }
    cl.when(matches!(r.module, Some((0, _))), "inherited-size");
    Verdict::Ok(rolled)
}

fn run(ctx: &mut Ctx) {
    ctx.rule("files: at least three records, some written and some not (or to several files)");
    ctx.rule("limits: at least one file was full and put away");
    let scratch = ctx.scratch.clone();
    let n = ctx.n(12_000, 300_000);
    ctx.run("files", n, case(), |c, cl| files_case(&scratch, c, cl));
    let n = ctx.n(600, 12_000);
    ctx.run("limits", n, roll(), |c, cl| roll_case(&scratch, c, cl));
}
