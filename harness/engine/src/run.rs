//! Supervisor, workers, replay and evidence

use crate::gen_::{G, R, Rng, Source, Stop, hash_bytes};
use crate::shrink::shrink;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, exit};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// One sub-property decided by generated cases
pub struct Law {
    pub name: &'static str,
    /// number of cases in the quick tier
    pub quick: u64,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub f: fn(&mut G) -> R,
}

pub struct Property {
    pub id: &'static str,
    pub assumptions: &'static [&'static str],
    pub laws: Vec<Law>,
}

const THOROUGH_FACTOR: u64 = 25;
const SAMPLES_PER_LAW: usize = 2;

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() {
            if g.is_none() {
                *g = Some((msg, loc));
            }
        }
    }));
}

pub enum Outcome {
    Pass,
    Discard,
    Fail { key: String, msg: String },
}

pub struct Case {
    pub outcome: Outcome,
    pub tape: Vec<u64>,
    pub notes: Vec<(String, String)>,
    pub classes: Vec<&'static str>,
    pub nontrivial: bool,
}

/// Runs a closure; a panic becomes Err((message, location))
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    *LAST_PANIC.lock().unwrap() = None;
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let p = LAST_PANIC.lock().unwrap().take().unwrap_or(("unknown panic".into(), String::new()));
            Err(p)
        }
    }
}

fn run_case(law: &Law, src: Source, verbose: bool, scratch: &Path, tape_file: Option<fs::File>) -> Case {
    let mut g = G::new(src, verbose);
    g.scratch = scratch.to_path_buf();
    g.tape_file = tape_file;
    let res = catch(|| (law.f)(&mut g));
    let outcome = match res {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(Stop::Discard)) => Outcome::Discard,
        Ok(Err(Stop::Fail { key, msg })) => Outcome::Fail { key, msg },
        Err((msg, loc)) => {
            let file = loc.split(':').next().unwrap_or("").to_string();
            let file = file.rsplit("/repo/").next().unwrap_or("").to_string();
            Outcome::Fail {
                key: format!("panic:{}", file),
                msg: format!("panic on valid input: {} ({})", msg, loc),
            }
        }
    };
    Case {
        outcome,
        tape: g.tape,
        notes: g.notes,
        classes: g.classes,
        nontrivial: g.nontrivial,
    }
}

fn case_rng(seed: u64, prop: &str, law: &str, case: u64) -> Rng {
    let h = hash_bytes(seed, format!("{}/{}", prop, law).as_bytes());
    Rng(hash_bytes(h, &case.to_le_bytes()))
}

fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|v| v.trim().parse::<i64>().ok()).map(|v| v as u64).unwrap_or(default)
}

fn tier() -> String {
    match std::env::var("VERIF_TIER") {
        Ok(t) if t == "thorough" => t,
        _ => "quick".to_string(),
    }
}

fn n_cases(law: &Law) -> u64 {
    let scale = std::env::var("VP_SCALE").ok().and_then(|v| v.parse::<f64>().ok()).unwrap_or(1.0);
    let n = if tier() == "thorough" { law.quick * THOROUGH_FACTOR } else { law.quick };
    ((n as f64 * scale).ceil() as u64).max(1)
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VP_ROOT").unwrap_or("/verif".to_string()))
}

/// `known: property=<id> key=<key> <description>`
fn known_findings(prop: &str) -> BTreeMap<String, String> {
    let mut map = BTreeMap::new();
    if let Ok(text) = fs::read_to_string(root().join("known_findings.txt")) {
        for line in text.lines() {
            if let Some(rest) = line.strip_prefix("known: property=") {
                let mut it = rest.splitn(2, ' ');
                let id = it.next().unwrap_or("");
                let rest = it.next().unwrap_or("");
                if id == prop {
                    if let Some(r) = rest.strip_prefix("key=") {
                        let mut it = r.splitn(2, ' ');
                        let key = it.next().unwrap_or("").to_string();
                        map.insert(key, it.next().unwrap_or("").to_string());
                    }
                }
            }
        }
    }
    map
}

fn find<'a>(props: &'a [Property], id: &str) -> &'a Property {
    match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            exit(2)
        }
    }
}

fn find_law<'a>(p: &'a Property, name: &str) -> (usize, &'a Law) {
    match p.laws.iter().enumerate().find(|(_, l)| l.name == name) {
        Some(x) => x,
        None => {
            eprintln!("unknown law {}", name);
            exit(2)
        }
    }
}

fn notes_json(notes: &[(String, String)]) -> Value {
    let mut m = serde_json::Map::new();
    for (k, v) in notes {
        let mut key = k.clone();
        let mut i = 2;
        while m.contains_key(&key) {
            key = format!("{}#{}", k, i);
            i += 1;
        }
        m.insert(key, json!(v));
    }
    Value::Object(m)
}

pub fn main(props: &[Property]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "list" => {
            for p in props {
                for l in &p.laws {
                    println!("{} {} {}", p.id, l.name, l.quick);
                }
            }
            exit(0)
        }
        "run" => supervise(find(props, &args[2])),
        "worker" => worker(
            find(props, &args[2]),
            args[3].parse().unwrap(),
            args[4].parse().unwrap(),
            Path::new(&args[5]),
        ),
        "law" => dev_law(find(props, &args[2]), &args[3], args.get(4).and_then(|s| s.parse().ok())),
        "tape" => {
            // tape <ID> <law> <file> : exit 10 if the case fails
            install_hook();
            let p = find(props, &args[2]);
            let (_, law) = find_law(p, &args[3]);
            let tape = read_tape(Path::new(&args[4]));
            let scratch = scratch_dir();
            let c = run_case(law, Source::Tape(tape), false, &scratch, None);
            let _ = fs::remove_dir_all(&scratch);
            exit(match c.outcome {
                Outcome::Fail { .. } => 10,
                _ => 0,
            })
        }
        "dump" => {
            // dump <ID> <law> <case> <file> : writes the tape while running
            install_hook();
            let p = find(props, &args[2]);
            let (_, law) = find_law(p, &args[3]);
            let case: u64 = args[4].parse().unwrap();
            let f = fs::File::create(&args[5]).unwrap();
            let scratch = scratch_dir();
            let seed = env_u64("VERIF_SEED", 1);
            run_case(law, Source::Random(case_rng(seed, p.id, law.name, case)), false, &scratch, Some(f));
            let _ = fs::remove_dir_all(&scratch);
            exit(0)
        }
        "replay" => {
            install_hook();
            let text = fs::read_to_string(&args[2]).unwrap();
            let v: Value = serde_json::from_str(&text).unwrap();
            let p = find(props, v["property"].as_str().unwrap());
            let (_, law) = find_law(p, v["law"].as_str().unwrap());
            let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let scratch = scratch_dir();
            if v["key"] == "endless" {
                let (id, file, dir) = (p.id, args[2].clone(), scratch.clone());
                std::thread::spawn(move || {
                    std::thread::sleep(Duration::from_secs(100));
                    let _ = fs::remove_dir_all(&dir);
                    println!("FAIL the case does not end within 100 s");
                    println!("VIOLATION property={} replay={}", id, file);
                    exit(1)
                });
            }
            let c = run_case(law, Source::Tape(tape), true, &scratch, None);
            let _ = fs::remove_dir_all(&scratch);
            for (k, val) in &c.notes {
                println!("  {} = {}", k, val);
            }
            match c.outcome {
                Outcome::Fail { key, msg } => {
                    println!("FAIL law={} key={} {}", law.name, key, msg);
                    println!("VIOLATION property={} replay={}", p.id, args[2]);
                    exit(1)
                }
                Outcome::Pass => println!("PASS"),
                Outcome::Discard => println!("DISCARD"),
            }
            exit(0)
        }
        _ => {
            eprintln!("usage: run <ID> | law <ID> <law> [n] | replay <file> | list");
            exit(2)
        }
    }
}

fn scratch_dir() -> PathBuf {
    let d = std::env::temp_dir().join(format!("vp-scratch-{}", std::process::id()));
    let _ = fs::create_dir_all(&d);
    d
}

fn read_tape(p: &Path) -> Vec<u64> {
    fs::read_to_string(p).unwrap_or_default().lines().filter_map(|l| l.trim().parse().ok()).collect()
}

// development helper: runs one law in this process and prints failures and classes
fn dev_law(p: &Property, name: &str, n: Option<u64>) -> ! {
    install_hook();
    let seed = env_u64("VERIF_SEED", 1);
    let scratch = scratch_dir();
    let mut status = 0;
    for law in &p.laws {
        if name != "all" && law.name != name {
            continue;
        }
        let t0 = Instant::now();
        let n = n.unwrap_or_else(|| n_cases(law));
        let (mut pass, mut disc, mut nt) = (0u64, 0u64, 0u64);
        let mut classes: BTreeMap<&str, u64> = BTreeMap::new();
        let mut fails: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
        for case in 0..n {
            let c = run_case(law, Source::Random(case_rng(seed, p.id, law.name, case)), false, &scratch, None);
            if c.nontrivial {
                nt += 1;
            }
            for k in &c.classes {
                *classes.entry(k).or_insert(0) += 1;
            }
            match c.outcome {
                Outcome::Pass => pass += 1,
                Outcome::Discard => disc += 1,
                Outcome::Fail { key, msg } => {
                    let e = fails.entry(key).or_insert((0, case, msg));
                    e.0 += 1;
                }
            }
        }
        println!(
            "{} {}: cases={} pass={} discard={} nontrivial={} {:.2}s classes={:?}",
            p.id,
            law.name,
            n,
            pass,
            disc,
            nt,
            t0.elapsed().as_secs_f64(),
            classes
        );
        for (key, (count, case, msg)) in &fails {
            status = 1;
            println!("  FAIL key={} count={} first case={} {}", key, count, case, msg);
            let c = run_case(law, Source::Random(case_rng(seed, p.id, law.name, *case)), false, &scratch, None);
            let (tape, used) = shrink(c.tape, 3000, 20, |t| {
                let c = run_case(law, Source::Tape(t.to_vec()), false, &scratch, None);
                match c.outcome {
                    Outcome::Fail { key: k, .. } if k == *key => Some(c.tape),
                    _ => None,
                }
            });
            let c = run_case(law, Source::Tape(tape), true, &scratch, None);
            println!("    shrunk after {} runs:", used);
            for (k, v) in &c.notes {
                let mut v = v.clone();
                if v.len() > 600 {
                    let mut k = 600;
                    while !v.is_char_boundary(k) {
                        k -= 1;
                    }
                    v.truncate(k);
                }
                println!("      {} = {}", k, v);
            }
            if let Outcome::Fail { msg, .. } = c.outcome {
                println!("      => {}", msg);
            }
        }
    }
    let _ = fs::remove_dir_all(&scratch);
    exit(status)
}

fn worker(p: &Property, k: u64, nw: u64, out: &Path) -> ! {
    install_hook();
    let seed = env_u64("VERIF_SEED", 1);
    let known = known_findings(p.id);
    let scratch = out.join(format!("scratch-{}", k));
    fs::create_dir_all(&scratch).unwrap();
    let progress = fs::OpenOptions::new().create(true).write(true).open(out.join(format!("progress-{}", k))).unwrap();
    let mut laws_json = Vec::new();
    let mut failure = Value::Null;
    let mut known_hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut hashes_out = fs::File::create(out.join(format!("hashes-{}", k))).unwrap();
    'laws: for (il, law) in p.laws.iter().enumerate() {
        let n = n_cases(law);
        let t0 = Instant::now();
        let (mut evals, mut disc) = (0u64, 0u64);
        let mut classes: BTreeMap<&str, u64> = BTreeMap::new();
        let mut hashes: HashSet<u64> = HashSet::new();
        let mut samples = Vec::new();
        let mut slowest = 0.0f64;
        let mut case = k;
        while case < n {
            let mut buf = [0u8; 16];
            buf[..8].copy_from_slice(&(il as u64).to_le_bytes());
            buf[8..].copy_from_slice(&case.to_le_bytes());
            let _ = progress.write_at(&buf, 0);
            let begin = Instant::now();
            let c = run_case(law, Source::Random(case_rng(seed, p.id, law.name, case)), false, &scratch, None);
            slowest = slowest.max(begin.elapsed().as_secs_f64());
            evals += 1;
            for k in &c.classes {
                *classes.entry(k).or_insert(0) += 1;
            }
            if c.nontrivial {
                let mut bytes = Vec::with_capacity(c.tape.len() * 8);
                for v in &c.tape {
                    bytes.extend_from_slice(&v.to_le_bytes());
                }
                hashes.insert(hash_bytes(il as u64, &bytes));
            }
            match c.outcome {
                Outcome::Pass => {
                    if k == 0 && c.nontrivial && samples.len() < SAMPLES_PER_LAW {
                        let v = run_case(law, Source::Tape(c.tape), true, &scratch, None);
                        samples.push(json!({"law": law.name, "case": case, "input": notes_json(&v.notes)}));
                    }
                }
                Outcome::Discard => disc += 1,
                Outcome::Fail { key, msg } => {
                    if known.contains_key(&key) {
                        let e = known_hits.entry(key).or_insert((0, msg));
                        e.0 += 1;
                    } else {
                        // what is left if a smaller case never ends
                        let first = json!({
                            "law": law.name, "law_index": il, "case": case, "key": key, "message": msg,
                            "tape": c.tape, "input": {}, "shrink_runs": 0,
                        });
                        let _ = fs::write(out.join(format!("first-{}", k)), serde_json::to_string(&first).unwrap());
                        let (tape, used) = shrink(c.tape, 4000, 40, |t| {
                            let c = run_case(law, Source::Tape(t.to_vec()), false, &scratch, None);
                            match c.outcome {
                                Outcome::Fail { key, .. } if !known.contains_key(&key) => Some(c.tape),
                                _ => None,
                            }
                        });
                        let v = run_case(law, Source::Tape(tape.clone()), true, &scratch, None);
                        let (key, msg) = match v.outcome {
                            Outcome::Fail { key, msg } => (key, msg),
                            _ => (key, format!("(not reproduced while shrinking) {}", msg)),
                        };
                        failure = json!({
                            "law": law.name, "law_index": il, "case": case, "key": key, "message": msg,
                            "tape": tape, "input": notes_json(&v.notes), "shrink_runs": used,
                        });
                    }
                }
            }
            if !failure.is_null() {
                break;
            }
            case += nw;
        }
        for h in &hashes {
            let _ = hashes_out.write_all(&h.to_le_bytes());
        }
        laws_json.push(json!({
            "law": law.name, "evaluations": evals, "discards": disc, "nontrivial": hashes.len(),
            "classes": classes, "seconds": t0.elapsed().as_secs_f64(), "slowest": slowest, "samples": samples,
        }));
        if !failure.is_null() {
            break 'laws;
        }
    }
    let _ = fs::remove_dir_all(&scratch);
    let kh: Vec<Value> = known_hits.iter().map(|(k, (n, m))| json!({"key": k, "count": n, "message": m})).collect();
    let res = json!({"laws": laws_json, "failure": failure, "known": kh});
    fs::write(out.join(format!("result-{}.tmp", k)), serde_json::to_string(&res).unwrap()).unwrap();
    fs::rename(out.join(format!("result-{}.tmp", k)), out.join(format!("result-{}", k))).unwrap();
    exit(0)
}

fn crash_signal(sig: i32) -> bool {
    [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGFPE, libc::SIGILL, libc::SIGTRAP].contains(&sig)
}

/// Runs `self args...` with a time limit; returns (exit code, signal)
fn child(args: &[&str], secs: u64) -> (Option<i32>, Option<i32>) {
    let exe = std::env::current_exe().unwrap();
    let mut ch = match Command::new(exe)
        .args(args)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(_) => return (None, None),
    };
    let t0 = Instant::now();
    loop {
        if let Ok(Some(st)) = ch.try_wait() {
            return (st.code(), st.signal());
        }
        if t0.elapsed().as_secs() > secs {
            let _ = ch.kill();
            let _ = ch.wait();
            return (None, None);
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

fn supervise(p: &Property) -> ! {
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = tier();
    let nw = env_u64("VP_WORKERS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16));
    let deadline = env_u64("VP_DEADLINE", if tier == "thorough" { 4 * 3600 } else { 780 });
    let out = std::env::temp_dir().join(format!("vp-{}-{}", p.id, std::process::id()));
    let _ = fs::remove_dir_all(&out);
    fs::create_dir_all(&out).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids = Vec::new();
    for k in 0..nw {
        let log = fs::File::create(out.join(format!("log-{}", k))).unwrap();
        let log2 = log.try_clone().unwrap();
        let c = Command::new(&exe)
            .args(["worker", p.id, &k.to_string(), &nw.to_string(), out.to_str().unwrap()])
            .stdout(log)
            .stderr(log2)
            .spawn()
            .unwrap();
        kids.push((k, c, None));
    }
    let mut timed_out = false;
    // a case that does not end: the worker is stopped and the case tried again below
    let patience = env_u64("VP_PATIENCE", if tier == "thorough" { 900 } else { 100 });
    let mut seen: Vec<(Vec<u8>, Instant)> = (0..nw).map(|_| (Vec::new(), Instant::now())).collect();
    let mut stuck: Vec<bool> = vec![false; nw as usize];
    loop {
        let mut alive = false;
        for (k, c, st) in kids.iter_mut() {
            if st.is_none() {
                match c.try_wait() {
                    Ok(Some(s)) => *st = Some(s),
                    _ => {
                        alive = true;
                        let last = &mut seen[*k as usize];
                        if last.1.elapsed().as_secs() >= patience {
                            let now = fs::read(out.join(format!("progress-{}", k))).unwrap_or_default();
                            if now == last.0 {
                                stuck[*k as usize] = true;
                                let _ = c.kill();
                            }
                            *last = (now, Instant::now());
                        }
                    }
                }
            }
        }
        if !alive {
            break;
        }
        if t0.elapsed().as_secs() > deadline {
            timed_out = true;
            for (_, c, st) in kids.iter_mut() {
                if st.is_none() {
                    let _ = c.kill();
                    let _ = c.wait();
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }

    // collect
    let mut failures: Vec<Value> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let mut per_law: Vec<(u64, u64, f64, BTreeMap<String, u64>)> = p.laws.iter().map(|_| (0, 0, 0.0, BTreeMap::new())).collect();
    let mut slowest: Vec<f64> = vec![0.0; p.laws.len()];
    let mut nontriv_law: Vec<u64> = vec![0; p.laws.len()];
    let mut samples: Vec<Value> = Vec::new();
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    for (k, _, st) in &kids {
        let path = out.join(format!("result-{}", k));
        if let Ok(text) = fs::read_to_string(&path) {
            let v: Value = serde_json::from_str(&text).unwrap();
            for (il, l) in v["laws"].as_array().unwrap().iter().enumerate() {
                per_law[il].0 += l["evaluations"].as_u64().unwrap();
                per_law[il].1 += l["discards"].as_u64().unwrap();
                per_law[il].2 += l["seconds"].as_f64().unwrap();
                slowest[il] = slowest[il].max(l["slowest"].as_f64().unwrap());
                nontriv_law[il] += l["nontrivial"].as_u64().unwrap();
                for (c, n) in l["classes"].as_object().unwrap() {
                    *per_law[il].3.entry(c.clone()).or_insert(0) += n.as_u64().unwrap();
                }
                for s in l["samples"].as_array().unwrap() {
                    samples.push(s.clone());
                }
            }
            for kh in v["known"].as_array().unwrap() {
                let e = known
                    .entry(kh["key"].as_str().unwrap().to_string())
                    .or_insert((0, kh["message"].as_str().unwrap().to_string()));
                e.0 += kh["count"].as_u64().unwrap();
            }
            if !v["failure"].is_null() {
                failures.push(v["failure"].clone());
            }
        } else if let Some(v) = fs::read_to_string(out.join(format!("first-{}", k))).ok().and_then(|t| serde_json::from_str(&t).ok()) {
            failures.push(v);
        } else if stuck[*k as usize] {
            let prog = fs::read(out.join(format!("progress-{}", k))).unwrap_or_default();
            if prog.len() != 16 {
                errors.push(format!("worker {} does not begin", k));
                continue;
            }
            let il = u64::from_le_bytes(prog[..8].try_into().unwrap()) as usize;
            let case = u64::from_le_bytes(prog[8..].try_into().unwrap());
            let law = &p.laws[il];
            if failures.iter().any(|f| f["key"] == "endless") {
                continue;
            }
            let tf = out.join(format!("tape-{}", k));
            let again = if tier == "thorough" { 600 } else { 60 };
            let (code, sg) = child(&["dump", p.id, law.name, &case.to_string(), tf.to_str().unwrap()], again);
            if code.is_none() && sg.is_none() {
                failures.push(json!({
                    "law": law.name, "law_index": il, "case": case, "key": "endless",
                    "message": format!("the case does not end: stopped after {} s and, alone, after {} s (the slowest case known to end takes a few seconds)", patience, again),
                    "tape": read_tape(&tf), "input": {}, "shrink_runs": 0,
                }));
            } else {
                errors.push(format!("worker {} was stopped at {}#{}, which ends when it runs alone", k, law.name, case));
            }
        } else if let Some(s) = st {
            // crashed: find the case, confirm it in a fresh process, shrink in child processes
            let prog = fs::read(out.join(format!("progress-{}", k))).unwrap_or_default();
            match s.signal() {
                Some(sig) if crash_signal(sig) && prog.len() == 16 => {
                    let il = u64::from_le_bytes(prog[..8].try_into().unwrap()) as usize;
                    let case = u64::from_le_bytes(prog[8..].try_into().unwrap());
                    let law = &p.laws[il];
                    let tf = out.join(format!("tape-{}", k));
                    let (_, sg) = child(&["dump", p.id, law.name, &case.to_string(), tf.to_str().unwrap()], 120);
                    if sg.map(crash_signal).unwrap_or(false) {
                        let tape = read_tape(&tf);
                        let cf = out.join(format!("cand-{}", k));
                        let (tape, used) = shrink(tape, 400, 60, |t| {
                            let text: Vec<String> = t.iter().map(|v| v.to_string()).collect();
                            fs::write(&cf, text.join("\n")).unwrap();
                            let (_, sg) = child(&["tape", p.id, law.name, cf.to_str().unwrap()], 60);
                            if sg.map(crash_signal).unwrap_or(false) { Some(t.to_vec()) } else { None }
                        });
                        failures.push(json!({
                            "law": law.name, "law_index": il, "case": case, "key": format!("signal:{}", sig),
                            "message": format!("process killed by signal {} while executing the case", sig),
                            "tape": tape, "input": {}, "shrink_runs": used,
                        }));
                    } else {
                        errors.push(format!("worker {} died by signal {} at {}#{} (not reproducible)", k, sig, law.name, case));
                    }
                }
                other => {
                    let log = fs::read_to_string(out.join(format!("log-{}", k))).unwrap_or_default();
                    errors.push(format!("worker {} ended with {:?} / code {:?}: {}", k, other, s.code(), log));
                }
            }
        }
        if let Ok(b) = fs::read(out.join(format!("hashes-{}", k))) {
            for c in b.chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        if timed_out {
            if let Ok(prog) = fs::read(out.join(format!("progress-{}", k))) {
                if prog.len() == 16 && st.is_none() {
                    let il = u64::from_le_bytes(prog[..8].try_into().unwrap()) as usize;
                    let case = u64::from_le_bytes(prog[8..].try_into().unwrap());
                    errors.push(format!("deadline: worker {} was at {}#{}", k, p.laws[il].name, case));
                }
            }
        }
    }
    let _ = fs::remove_dir_all(&out);
    failures.sort_by_key(|f| (f["law_index"].as_u64().unwrap(), f["case"].as_u64().unwrap()));

    // replay file
    let mut replay_path = None;
    if let Some(f) = failures.first() {
        let dir = root().join("replays");
        let _ = fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", p.id, f["law"].as_str().unwrap()));
        let mut r = f.clone();
        r["property"] = json!(p.id);
        r["seed"] = json!(seed);
        r["replay_cmd"] = json!(format!("bash /verif/check.sh {} --replay {}", p.id, path.display()));
        let _ = fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
        replay_path = Some(path);
    }

    // evidence
    let evals: u64 = per_law.iter().map(|l| l.0).sum();
    let disc: u64 = per_law.iter().map(|l| l.1).sum();
    let rule: Vec<String> = p.laws.iter().map(|l| format!("[{}] {}", l.name, l.rule)).collect();
    let laws: Vec<Value> = p
        .laws
        .iter()
        .enumerate()
        .map(|(i, l)| {
            json!({"law": l.name, "evaluations": per_law[i].0, "discards": per_law[i].1, "distinct_nontrivial": nontriv_law[i],
                   "cpu_s": (per_law[i].2 * 100.0).round() / 100.0, "slowest_case_s": (slowest[i] * 1000.0).round() / 1000.0, "classes": per_law[i].3})
        })
        .collect();
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed as i64, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": hashes.len(), "discarded": disc,
            "rule": format!("every case is a pure function of a choice tape drawn from hash(seed, property, law, case index); distinct = distinct tapes; per law: {}", rule.join(" ")),
            "samples": samples, "laws": laws,
        },
        "assumptions": p.assumptions,
        "violations": failures.len(),
        "known_findings": known.iter().map(|(k, (n, m))| json!({"key": k, "count": n, "message": m})).collect::<Vec<_>>(),
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
    });
    let evdir = root().join("evidence");
    let _ = fs::create_dir_all(&evdir);
    fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();

    for (k, (n, m)) in &known {
        println!("KNOWN-FINDING: property={} key={} ({} cases) {}", p.id, k, n, m);
    }
    println!(
        "{} tier={} seed={} laws={} evaluations={} distinct_nontrivial={} discarded={} wall={:.1}s",
        p.id,
        tier,
        seed,
        p.laws.len(),
        evals,
        hashes.len(),
        disc,
        t0.elapsed().as_secs_f64()
    );
    if let (Some(f), Some(path)) = (failures.first(), replay_path) {
        println!("law={} case={} key={}", f["law"].as_str().unwrap(), f["case"], f["key"].as_str().unwrap());
        println!("{}", f["message"].as_str().unwrap());
        println!("VIOLATION property={} replay={}", p.id, path.display());
        exit(1)
    }
    if !errors.is_empty() {
        for e in &errors {
            println!("ERROR: {}", e);
        }
        exit(2)
    }
    exit(0)
}
