mod clock;
mod drv;
mod gen;
mod net;
mod props;
mod scarce;
mod signals;

use drv::{truncate, Ctx, Failure};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(check(&args[2])),
        Some("worker") => worker(&args[2..]),
        Some("replay") => std::process::exit(replay(&args[2])),
        Some("logcase") => props::logging::child(&args[2..]),
        Some("list") => {
            for p in props::ALL.iter() {
                println!("{}", p.id)
            }
        }
        _ => {
            eprintln!("usage: vh check ID | vh replay FILE | vh list");
            std::process::exit(2)
        }
    }
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let p = std::env::temp_dir().join(format!("vh-{}", std::process::id()));
        fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn spawn_worker(id: &str, shard: usize, nshards: usize, seed: u64, thorough: bool, dir: &Path, replay: Option<&str>) -> std::process::Child {
    let wdir = dir.join(format!("w{}", shard));
    fs::create_dir_all(&wdir).expect("worker directory");
    let err = fs::File::create(dir.join(format!("stderr-{}", shard))).expect("stderr file");
    let mut c = Command::new(std::env::current_exe().expect("current exe"));
    c.arg("worker").arg(id).arg(shard.to_string()).arg(nshards.to_string()).arg(seed.to_string())
        .arg(if thorough { "thorough" } else { "quick" }).arg(dir).current_dir(&wdir)
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(err);
    if let Some(r) = replay {
        c.arg(r);
    }
    c.spawn().expect("spawn worker")
}

/// Body of a worker process.
fn worker(a: &[String]) {
    let (id, shard, nshards, seed, thorough, dir) = (
        a[0].clone(), a[1].parse::<usize>().unwrap(), a[2].parse::<usize>().unwrap(),
        a[3].parse::<u64>().unwrap(), a[4] == "thorough", PathBuf::from(&a[5]),
    );
    let replay = a.get(6).map(|f| {
        let v: Value = serde_json::from_str(&fs::read_to_string(f).expect("replay file")).expect("replay json");
        (v["sub"].as_str().unwrap_or("").to_string(), v["case"].as_str().unwrap_or("").to_string())
    });
    // a worker must not outlive the check
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    drv::install_panic_hook();
    net::start_heartbeat();
    let mut ctx = Ctx::new(&id, thorough, seed, shard, nshards, dir.clone(), replay);
    let prop = props::ALL.iter().find(|p| p.id == id).expect("property");
    (prop.run)(&mut ctx);
    ctx.clear_inflight();
    let hashes: Vec<String> = ctx.nontrivial.iter().map(|h| h.to_string()).collect();
    let fail = ctx.failure.as_ref().map(|f| json!({"sub": f.sub, "case": f.case, "msg": f.msg, "debug": f.debug}));
    let rr = ctx.replay_result.as_ref().map(|r| match r {
        Ok(m) => json!({"held": true, "msg": m}),
        Err(m) => json!({"held": false, "msg": m}),
    });
    let out = json!({"evaluations": ctx.evaluations, "skipped": ctx.skipped, "hashes": hashes, "classes": ctx.classes.0,
        "samples": ctx.samples, "rules": ctx.rules, "failure": fail, "replay": rr});
    fs::write(dir.join(format!("out-{}.tmp", shard)), out.to_string()).expect("write result");
    fs::rename(dir.join(format!("out-{}.tmp", shard)), dir.join(format!("out-{}", shard))).expect("write result");
    // leaked server threads are not waited for
    unsafe { libc::_exit(0) }
}

enum WorkerEnd {
    Result(Value),
    Crash { sub: String, case: String, signal: i32 },
    /// one case has been running for longer than any case can
    Hang { sub: String, case: String },
    Error(String),
}

fn read_inflight(p: &Path) -> Option<(String, String)> {
    let b = fs::read(p).ok()?;
    if b.len() < 16 {
        return None;
    }
    let n = u64::from_le_bytes(b[..8].try_into().ok()?) as usize;
    if n == 0 || b.len() < 16 + n {
        return None;
    }
    let v: Value = serde_json::from_slice(&b[16..16 + n]).ok()?;
    Some((v["sub"].as_str()?.to_string(), v["case"].as_str()?.to_string()))
}

/// Number of the case in flight, 0 for none.
fn inflight_seq(p: &Path) -> u64 {
    use std::io::Read;
    let mut b = [0u8; 16];
    match fs::File::open(p).and_then(|mut f| f.read_exact(&mut b)) {
        Ok(()) if b[..8] != [0; 8] => u64::from_le_bytes(b[8..].try_into().unwrap()),
        _ => 0,
    }
}

const HANG: Duration = Duration::from_secs(200);

fn run_workers(id: &str, nshards: usize, at_once: usize, seed: u64, thorough: bool, dir: &Path, replay: Option<&str>, limit: Duration) -> Vec<WorkerEnd> {
    let start = Instant::now();
    let mut kids: Vec<Option<std::process::Child>> = (0..nshards).map(|_| None).collect();
    let mut next = 0;
    let mut ends: Vec<Option<WorkerEnd>> = (0..nshards).map(|_| None).collect();
    let mut since: Vec<(u64, Instant)> = (0..nshards).map(|_| (0, Instant::now())).collect();
    loop {
        let mut alive = 0;
        let mut failed = false;
        while next < nshards && kids.iter().flatten().count() < at_once {
            kids[next] = Some(spawn_worker(id, next, nshards, seed, thorough, dir, replay));
            next += 1;
        }
        for s in 0..nshards {
            if let Some(k) = kids[s].as_mut() {
                match k.try_wait() {
                    Ok(None) => {
                        alive += 1;
                        let seq = inflight_seq(&dir.join(format!("inflight-{}", s)));
                        if seq != since[s].0 || seq == 0 {
                            since[s] = (seq, Instant::now());
                        } else if since[s].1.elapsed() > HANG {
                            if let Some((sub, case)) = read_inflight(&dir.join(format!("inflight-{}", s))) {
                                failed = true;
                                let _ = k.kill();
                                let _ = k.wait();
                                kids[s] = None;
                                ends[s] = Some(WorkerEnd::Hang { sub, case });
                            }
                        }
                    }
                    Ok(Some(st)) => {
                        let stderr = {
                            let mut t = fs::read_to_string(dir.join(format!("stderr-{}", s))).unwrap_or_default();
                            if t.len() > 2000 {
                                let cut = t.len() - 2000;
                                t = t.chars().skip(t.char_indices().take_while(|(i, _)| *i < cut).count()).collect();
                            }
                            t
                        };
                        let end = if st.success() {
                            match fs::read_to_string(dir.join(format!("out-{}", s))).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
                                Some(v) => {
                                    if !v["failure"].is_null() {
                                        failed = true;
                                    }
                                    WorkerEnd::Result(v)
                                }
                                None => WorkerEnd::Error(format!("worker {} left no result; {}", s, stderr)),
                            }
                        } else if let Some(sig) = st.signal() {
                            match (sig, read_inflight(&dir.join(format!("inflight-{}", s)))) {
                                (libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE, Some((sub, case))) => {
                                    failed = true;
                                    WorkerEnd::Crash { sub, case, signal: sig }
                                }
                                _ => WorkerEnd::Error(format!("worker {} ended by signal {}; {}", s, sig, stderr)),
                            }
                        } else {
                            WorkerEnd::Error(format!("worker {} ended with {:?}; {}", s, st.code(), stderr))
                        };
                        ends[s] = Some(end);
                        kids[s] = None;
                    }
                    Err(e) => {
                        ends[s] = Some(WorkerEnd::Error(e.to_string()));
                        kids[s] = None;
                    }
                }
            }
        }
        if alive == 0 && next == nshards {
            break;
        }
        // one violation decides the run
        let over = start.elapsed() > limit;
        if failed || over {
            for s in 0..nshards {
                if let Some(mut k) = kids[s].take() {
                    let _ = k.kill();
                    let _ = k.wait();
                    if over && !failed {
                        let at = read_inflight(&dir.join(format!("inflight-{}", s)));
                        ends[s] = Some(WorkerEnd::Error(format!("worker {} did not finish in {:?}; in flight: {:?}", s, limit, at)));
                    }
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    ends.into_iter().flatten().collect()
}

fn check(id: &str) -> i32 {
    let prop = match props::ALL.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    // what a case leaves behind (listening servers, the threads of dropped pools) goes with its process
    let nshards = if thorough { prop.shards * 25 } else { prop.shards * 8 };
    let started = Instant::now();
    let scratch = Scratch::new();
    let limit = Duration::from_secs(if thorough { 6 * 3600 } else { 840 });
    let ends = run_workers(id, nshards, prop.shards, seed, thorough, &scratch.0, None, limit);

    let mut evaluations = 0u64;
    let mut skipped = 0u64;
    let mut hashes: HashSet<String> = HashSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut rules: Vec<String> = vec![];
    let mut failure: Option<Failure> = None;
    let mut errors: Vec<String> = vec![];
    for e in ends {
        match e {
            WorkerEnd::Result(v) => {
                evaluations += v["evaluations"].as_u64().unwrap_or(0);
                skipped += v["skipped"].as_u64().unwrap_or(0);
                for h in v["hashes"].as_array().into_iter().flatten() {
                    hashes.insert(h.as_str().unwrap_or("").to_string());
                }
                for (k, n) in v["classes"].as_object().into_iter().flatten() {
                    *classes.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
                }
                for s in v["samples"].as_array().into_iter().flatten() {
                    if samples.len() < 10 {
                        samples.push(s.as_str().unwrap_or("").to_string());
                    }
                }
                for r in v["rules"].as_array().into_iter().flatten() {
                    let r = r.as_str().unwrap_or("").to_string();
                    if !rules.contains(&r) {
                        rules.push(r);
                    }
                }
                if failure.is_none() && !v["failure"].is_null() {
                    let f = &v["failure"];
                    let g = |k: &str| f[k].as_str().unwrap_or("").to_string();
                    failure = Some(Failure { sub: g("sub"), case: g("case"), msg: g("msg"), debug: g("debug") });
                }
            }
            WorkerEnd::Crash { sub, case, signal } => {
                if failure.is_none() {
                    failure = Some(Failure { sub, debug: case.clone(), case, msg: format!("the process running the library died with signal {}", signal) });
                }
            }
            WorkerEnd::Hang { sub, case } => {
                if failure.is_none() {
                    // only a case that hangs on its own, in a fresh process, counts
                    let f = scratch.0.join("hang.json");
                    let _ = fs::write(&f, json!({"property": id, "sub": sub, "case": case}).to_string());
                    let dir = scratch.0.join("hang");
                    let _ = fs::create_dir_all(&dir);
                    let again = run_workers(id, 1, 1, seed, thorough, &dir, Some(&f.display().to_string()), HANG + Duration::from_secs(20));
                    match again.into_iter().next() {
                        Some(WorkerEnd::Result(v)) if v["replay"]["held"].as_bool() != Some(false) => {
                            errors.push(format!("a case did not finish within {:?}, but did when run again: [{}] {}", HANG, sub, case))
                        }
                        Some(WorkerEnd::Error(m)) => errors.push(m),
                        _ => failure = Some(Failure { sub, debug: case.clone(), case, msg: format!("the case does not finish within {:?}", HANG) }),
                    }
                }
            }
            WorkerEnd::Error(m) => errors.push(m),
        }
    }
    let wall = started.elapsed().as_secs_f64();
    let dir = verif_dir();
    if failure.is_none() && !errors.is_empty() {
        for e in errors {
            eprintln!("ERROR {}: {}", id, e);
        }
        return 2;
    }
    let ev = json!({
        "property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evaluations, "distinct_nontrivial": hashes.len(), "rule": rules.join(" "),
            "samples": samples, "classes": classes, "undecided_cases": skipped, "worker_processes": nshards},
        "assumptions": prop.assumptions, "wall_s": wall, "violations": if failure.is_some() { 1 } else { 0 },
    });
    let evdir = dir.join("evidence");
    let _ = fs::create_dir_all(&evdir);
    if let Err(e) = fs::write(evdir.join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    if let Some(f) = failure {
        let rdir = dir.join("replays");
        let _ = fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-seed{}.json", id, seed));
        let v = json!({"property": id, "sub": f.sub, "case": f.case, "message": f.msg, "seed": seed,
            "case_readable": f.debug, "how": format!("./check.sh --replay {}", path.display())});
        let _ = fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        let mut m = f.msg.clone();
        truncate(&mut m, 3000);
        println!("{} [{}] {}", id, f.sub, m);
        let mut d = f.debug.clone();
        truncate(&mut d, 2500);
        println!("case: {}", d);
        println!("VIOLATION property={} replay={}", id, path.display());
        return 1;
    }
    println!("{}: held on {} cases ({} distinct non-trivial, {} undecided) in {:.1}s, seed {}", id, evaluations, hashes.len(), skipped, wall, seed);
    0
}

fn replay(file: &str) -> i32 {
    let file = fs::canonicalize(file).expect("replay file");
    let v: Value = serde_json::from_str(&fs::read_to_string(&file).expect("replay file")).expect("replay json");
    let id = v["property"].as_str().unwrap_or("").to_string();
    let scratch = Scratch::new();
    let ends = run_workers(&id, 1, 1, v["seed"].as_u64().unwrap_or(1), false, &scratch.0, Some(&file.display().to_string()), Duration::from_secs(600));
    for e in ends {
        match e {
            WorkerEnd::Result(v) => {
                let r = &v["replay"];
                if r.is_null() {
                    eprintln!("the replay's sub-check was not found");
                    return 2;
                }
                if r["held"].as_bool().unwrap_or(false) {
                    println!("replay held: {}", id);
                    return 0;
                }
                println!("{}", r["msg"].as_str().unwrap_or(""));
                println!("VIOLATION property={} replay={}", id, file.display());
                return 1;
            }
            WorkerEnd::Crash { signal, .. } => {
                println!("died with signal {}", signal);
                println!("VIOLATION property={} replay={}", id, file.display());
                return 1;
            }
            WorkerEnd::Hang { .. } => {
                println!("the case does not finish within {:?}", HANG);
                println!("VIOLATION property={} replay={}", id, file.display());
                return 1;
            }
            WorkerEnd::Error(m) => eprintln!("{}", m),
        }
    }
    2
}
