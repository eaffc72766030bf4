mod props;
mod refs;
mod src;
mod sys;

use serde_json::{json, Value};
use src::{base_hashes, build_dict, code_lines, mix, sysmask, Src, DICT};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Ok(true): a non-trivial case. Err: the property does not hold, with an explanation.
pub type Case = Result<bool, String>;

pub struct Prop {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub run: fn(&mut Src) -> Case,
    /// Cases in the quick tier.
    pub quick: u64,
    pub assumptions: &'static [&'static str],
    /// Known findings of this property: (key in known_findings.json, does it still fail?).
    pub known: &'static [(&'static str, fn() -> bool)],
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn run_case(p: &Prop, s: &mut Src) -> Case {
    match catch_unwind(AssertUnwindSafe(|| (p.run)(s))) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", PANIC.with(|m| m.borrow().clone()))),
    }
}

fn fails(p: &Prop, data: &[u64]) -> Option<Vec<u64>> {
    let mut s = Src::replay(data.to_vec());
    match run_case(p, &mut s) {
        Err(_) => Some(s.choices().to_vec()),
        Ok(_) => None,
    }
}

fn shrink(p: &Prop, start: Vec<u64>) -> Vec<u64> {
    let mut best = start;
    let mut budget = 40_000u32;
    let start = Instant::now();
    let over = || start.elapsed() > Duration::from_secs(60);
    let smaller = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    let mut improved = true;
    while improved && budget > 0 && !over() {
        improved = false;
        let attempt = |cand: Vec<u64>, best: &mut Vec<u64>, budget: &mut u32| -> bool {
            if *budget == 0 || over() || !smaller(&cand, best) {
                return false;
            }
            *budget -= 1;
            if let Some(used) = fails(p, &cand) {
                let c = if smaller(&used, &cand) { used } else { cand };
                *best = c;
                return true;
            }
            false
        };
        for size in [8192usize, 2048, 512, 128, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if over() {
                    return best;
                }
                let mut c = best.clone();
                c.drain(i..i + size);
                if attempt(c, &mut best, &mut budget) {
                    improved = true;
                } else {
                    i += if size > 32 { size } else { 1 };
                }
            }
        }
        let mut i = 0;
        while i < best.len() && !over() {
            if best[i] > 0 {
                for v in [0, 1, best[i] >> 26, best[i] >> 8, best[i] / 2, best[i] - best[i] / 4, best[i] - 1] {
                    if v < best[i] {
                        let mut c = best.clone();
                        c[i] = v;
                        if attempt(c, &mut best, &mut budget) {
                            improved = true;
                            if i >= best.len() {
                                break;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        // lower one choice while dropping the next (a list length and one element)
        let mut i = 0;
        while i < best.len() && !over() {
            if best[i] > 0 && best.len() - i > 2 {
                for drop in 1..=6usize {
                    if i + 1 + drop <= best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(i + 1..i + 1 + drop);
                        if attempt(c, &mut best, &mut budget) {
                            improved = true;
                            if i >= best.len() {
                                break;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
    }
    best
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    seen: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, Vec<u64>)>,
    fail: Option<(u64, Vec<u64>)>,
}

fn hash_choices(c: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ c.len() as u64;
    for v in c {
        h = (h ^ v).wrapping_mul(0x0000_0100_0000_01b3);
        h ^= h >> 29;
    }
    h
}

fn id_hash(id: &str) -> u64 {
    id.bytes().fold(7u64, |h, b| h.wrapping_mul(131).wrapping_add(u64::from(b)))
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, tp: *mut Timespec) -> i32;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
}
const THREADS: usize = 8;
/// The case each thread is working on, in a file which outlives the process.
fn case_slots() -> Option<&'static [AtomicU64]> {
    use std::os::fd::AsRawFd;
    let path = std::env::var_os("VERIF_CASES_FILE")?;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).ok()?;
    // SAFETY: a new shared mapping of a file of that size, never unmapped
    unsafe {
        let p = mmap(std::ptr::null_mut(), 8 * THREADS, 3, 1, f.as_raw_fd(), 0);
        (p as isize != -1).then(|| std::slice::from_raw_parts(p.cast::<AtomicU64>(), THREADS))
    }
}
/// Runs the check in a process of its own, so that a call which takes the process down (stack
/// overflow, failed allocation) is reported like any other failure.
fn supervise(id: &str, tier: &str, seed: u64, root: &Path) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("own path");
    let file = std::env::temp_dir().join(format!("verif-cases-{}", std::process::id()));
    if std::fs::write(&file, vec![0xffu8; 8 * THREADS]).is_err() {
        return run(id, tier, seed, root);
    }
    let child = |args: &[&str]| std::process::Command::new(&exe).args(args).env("VERIF_CASES_FILE", &file).env("VERIF_CHILD", "1").status();
    let seed_text = seed.to_string();
    let status = match child(&["run", id, tier, &seed_text]) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("ERROR: {e}");
            return 2;
        }
    };
    let data = std::fs::read(&file).unwrap_or_default();
    let _ = std::fs::remove_file(&file);
    if let Some(c) = status.code() {
        return c;
    }
    eprintln!("the process was ended by signal {:?}", status.signal());
    for w in data.chunks_exact(8) {
        let i = u64::from_ne_bytes(w.try_into().unwrap());
        if i == u64::MAX {
            continue;
        }
        let case_seed = mix(mix(seed, id_hash(id)), i);
        let cs = case_seed.to_string();
        let crashed = |s: std::process::ExitStatus| s.signal().is_some_and(|x| x != 9 && x != 15 && x != 2);
        if child(&["case", id, &cs]).is_ok_and(crashed) {
            let dir = root.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{id}-{case_seed:016x}-crash.json"));
            let msg = "a call of the library took the whole process down";
            let body = json!({"property": id, "seed": seed, "tier": tier, "case": i, "case_seed": cs, "message": msg});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
            println!("{msg}");
            println!("VIOLATION property={id} replay={}", path.display());
            return 1;
        }
    }
    eprintln!("ERROR: no single case reproduces this");
    2
}
/// The clock that counts the processor time of the calling thread, readable from other threads.
fn own_cpu_clock() -> i32 {
    let mut c = 0i32;
    // SAFETY: plain libc calls on the calling thread and a local variable
    if unsafe { pthread_getcpuclockid(pthread_self(), &mut c) } == 0 {
        c
    } else {
        0
    }
}
fn cpu_seconds(clock: i32) -> Option<f64> {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // SAFETY: writes to a local variable; an invalid clock id is an error result
    (clock != 0 && unsafe { clock_gettime(clock, &mut t) } == 0).then(|| t.sec as f64 + t.nsec as f64 * 1e-9)
}

fn hang(id: &str, seed: u64, case: u64, case_seed: u64) -> ! {
    let dir = root_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{case_seed:016x}-hang.json"));
    let msg = "a call of the library did not return within 60 s of processor time";
    let body = json!({"property": id, "seed": seed, "case": case, "case_seed": case_seed.to_string(), "message": msg});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
    println!("{msg}");
    println!("VIOLATION property={id} replay={}", path.display());
    std::process::exit(1);
}
fn root_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn explore(p: &Prop, seed: u64, cases: u64, threads: u64) -> Stats {
    let first_fail = AtomicU64::new(u64::MAX);
    let beats: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let clocks: Vec<AtomicI32> = (0..threads).map(|_| AtomicI32::new(0)).collect();
    let done = AtomicU64::new(0);
    let all: Mutex<Vec<Stats>> = Mutex::new(Vec::new());
    let base = mix(seed, id_hash(p.id));
    let slots = case_slots();
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (first_fail, beats, clocks, done, all) = (&first_fail, &beats, &clocks, &done, &all);
            sc.spawn(move || {
                clocks[t as usize].store(own_cpu_clock(), Ordering::SeqCst);
                let mut st = Stats::default();
                let mut s = Src::random(0);
                let mut i = t;
                while i < cases {
                    if i > first_fail.load(Ordering::Relaxed) {
                        break;
                    }
                    s.restart(mix(base, i));
                    if let Some(c) = slots.and_then(|c| c.get(t as usize)) {
                        c.store(i, Ordering::Relaxed);
                    }
                    let r = run_case(p, &mut s);
                    beats[t as usize].fetch_add(1, Ordering::Relaxed);
                    st.evaluations += 1;
                    for l in &s.labels {
                        *st.labels.entry(l).or_default() += 1;
                    }
                    match r {
                        Ok(true) => {
                            st.nontrivial += 1;
                            // the set is capped to bound memory: the count is a lower bound from there on
                            if st.seen.len() < 1_000_000 && st.seen.insert(hash_choices(s.choices())) && st.samples.len() < 2 {
                                st.samples.push((i, s.choices().to_vec()));
                            }
                        }
                        Ok(false) => {}
                        Err(_) => {
                            st.fail = Some((i, s.choices().to_vec()));
                            first_fail.fetch_min(i, Ordering::Relaxed);
                            break;
                        }
                    }
                    i += threads;
                }
                beats[t as usize].store(u64::MAX, Ordering::Relaxed);
                all.lock().unwrap().push(st);
                done.fetch_add(1, Ordering::SeqCst);
            });
        }
        // Watchdog: cases take microseconds to milliseconds. A single case that has used up a minute
        // of processor time (not of wall time, so a busy machine does not matter) is in a call that
        // does not return, which breaks whatever the property promises about its result.
        // No progress without using processor time is an error of the check, not a violation.
        let (beats, clocks, done) = (&beats, &clocks, &done);
        sc.spawn(move || {
            let n = threads as usize;
            let mut last: Vec<u64> = vec![u64::MAX - 1; n];
            let mut cpu: Vec<f64> = vec![0.0; n];
            let mut since: Vec<Instant> = vec![Instant::now(); n];
            while done.load(Ordering::SeqCst) < threads {
                std::thread::sleep(Duration::from_millis(50));
                for t in 0..n {
                    let b = beats[t].load(Ordering::Relaxed);
                    let now = cpu_seconds(clocks[t].load(Ordering::SeqCst));
                    if b != last[t] {
                        last[t] = b;
                        since[t] = Instant::now();
                        cpu[t] = now.unwrap_or(f64::INFINITY);
                    } else if b != u64::MAX {
                        if now.is_some_and(|c| c - cpu[t] > 60.0) {
                            hang(p.id, seed, b * threads + t as u64, mix(base, b * threads + t as u64));
                        }
                        if since[t].elapsed() > Duration::from_secs(800) {
                            eprintln!("ERROR: no progress for 800 s");
                            std::process::exit(2);
                        }
                    }
                }
            }
        });
    });
    let mut total = Stats::default();
    for st in all.into_inner().unwrap() {
        total.evaluations += st.evaluations;
        total.nontrivial += st.nontrivial;
        total.seen.extend(st.seen);
        for (k, v) in st.labels {
            *total.labels.entry(k).or_default() += v;
        }
        total.samples.extend(st.samples);
        if let Some(f) = st.fail {
            if total.fail.as_ref().map_or(true, |g| f.0 < g.0) {
                total.fail = Some(f);
            }
        }
    }
    total.samples.sort();
    total
}

fn describe(p: &Prop, data: &[u64]) -> (String, Case) {
    let mut s = Src::replay(data.to_vec());
    s.verbose = true;
    let r = run_case(p, &mut s);
    (s.log, r)
}

fn known_entries(root: &Path, id: &str) -> Result<Vec<(String, String)>, String> {
    let f = root.join("known_findings.json");
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).map_err(|e| format!("{}: {e}", f.display()))?)
        .map_err(|e| format!("{}: {e}", f.display()))?;
    Ok(v["known"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .filter(|e| e["property"] == id)
        .map(|e| (e["key"].as_str().unwrap_or("").to_string(), e["what"].as_str().unwrap_or("").to_string()))
        .collect())
}

fn run(id: &str, tier: &str, seed: u64, root: &Path) -> i32 {
    let start = Instant::now();
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("ERROR: no such property {id}");
        return 2;
    };
    let thorough = tier == "thorough";
    let scale: f64 = std::env::var("VERIF_CASES_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0);
    let cases = ((p.quick as f64) * if thorough { 60.0 } else { 3.0 } * scale) as u64;
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(THREADS) as u64;

    // Known findings: the listed inputs are re-run; they are outside the generated domain.
    let mut exit = 0;
    let mut extra_violation: Option<String> = None;
    let entries = match known_entries(root, id) {
        Ok(e) => e,
        Err(e) => {
            eprintln!("ERROR: {e}");
            return 2;
        }
    };
    let mut known_seen = Vec::new();
    for (key, still) in p.known {
        let failing = catch_unwind(AssertUnwindSafe(still)).unwrap_or(true);
        let listed = entries.iter().find(|e| e.0 == *key);
        match (failing, listed) {
            (true, Some(e)) => {
                println!("KNOWN-FINDING: property={id} {}", e.1);
                known_seen.push(e.1.clone());
            }
            (true, None) => extra_violation = Some(format!("unlisted finding {key}")),
            (false, _) => {}
        }
    }

    let st = explore(&p, seed, cases, threads);
    let mut samples = Vec::new();
    for (i, d) in st.samples.iter().take(4) {
        let (log, _) = describe(&p, d);
        samples.push(json!({"case": i, "inputs": log.lines().take(40).collect::<Vec<_>>()}));
    }
    let mut violations = 0;
    if let Some((i, d)) = &st.fail {
        violations = 1;
        exit = 1;
        let dir = root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        // The failure is certain at this point; if shrinking runs into a call that does not return,
        // it is reported unshrunk.
        let shrunk = std::sync::Arc::new(AtomicBool::new(false));
        {
            let (shrunk, dir, d, id, i) = (shrunk.clone(), dir.clone(), d.clone(), id.to_string(), *i);
            std::thread::spawn(move || {
                std::thread::sleep(Duration::from_secs(150));
                if !shrunk.load(Ordering::SeqCst) {
                    let path = dir.join(format!("{id}-{:016x}.json", hash_choices(&d)));
                    let body = json!({"property": id, "seed": seed, "case": i, "choices": d, "message": "not shrunk"});
                    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
                    println!("VIOLATION property={id} replay={}", path.display());
                    std::process::exit(1);
                }
            });
        }
        let small = shrink(&p, d.clone());
        let (log, r) = describe(&p, &small);
        let msg = match r {
            Err(m) => m,
            Ok(_) => "did not reproduce on replay".to_string(),
        };
        let path: PathBuf = dir.join(format!("{id}-{:016x}.json", hash_choices(&small)));
        let body = json!({
            "property": id, "seed": seed, "tier": tier, "case": i,
            "original_choices": d, "choices": small, "inputs": log.lines().collect::<Vec<_>>(), "message": msg,
        });
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()) {
            eprintln!("ERROR: cannot write {}: {e}", path.display());
        }
        shrunk.store(true, Ordering::SeqCst);
        println!("{log}");
        println!("{msg}");
        println!("VIOLATION property={id} replay={}", path.display());
    } else if let Some(m) = extra_violation {
        violations = 1;
        exit = 1;
        let dir = root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{id}-finding.json"));
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": id, "message": m})).unwrap());
        println!("{m}");
        println!("VIOLATION property={id} replay={}", path.display());
    }
    let ev = json!({
        "property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.seen.len(),
            "rule": p.rule,
            "samples": samples,
            "classes": st.labels,
            "dictionary_literals": DICT.get().map_or(0, |d| d.all.len()),
            "dictionary_literals_of_lines_new_in_this_tree": DICT.get().map_or(0, |d| d.fresh.len()),
            "systems_with_changed_code": DICT.get().map_or(0, |d| d.focus.count_ones()),
            "known_findings_seen": known_seen,
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        eprintln!("ERROR: cannot write evidence: {e}");
        return 2;
    }
    println!(
        "{id} {tier} seed={seed}: {} cases, {} distinct non-trivial, {} violations, {:.1} s",
        st.evaluations,
        st.seen.len(),
        violations,
        start.elapsed().as_secs_f64()
    );
    if exit == 0 && st.seen.len() < 1000 {
        eprintln!("ERROR: only {} distinct non-trivial cases were generated", st.seen.len());
        return 2;
    }
    exit
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let t = info.to_string();
        PANIC.with(|m| *m.borrow_mut() = t);
    }));
    let args: Vec<String> = std::env::args().collect();
    let root = root_dir();
    let repo = PathBuf::from(std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into()));
    let lines = code_lines(&repo.join("src"));
    let base: std::collections::HashSet<u64> = std::fs::read_to_string(root.join("harness/base_lines.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| u64::from_str_radix(l.trim(), 16).ok())
        .collect();
    let _ = DICT.set(build_dict(&lines, &base));
    let code = match args.get(1).map(String::as_str) {
        Some("run") if std::env::var_os("VERIF_CHILD").is_none() => supervise(&args[2], &args[3], args[4].parse().unwrap_or(1), &root),
        Some("run") => {
            // RLIMIT_AS: memory a wrong size asks for is refused rather than taken from the machine
            // SAFETY: passes a pointer to a local
            unsafe { setrlimit(9, &[24 << 30, 24 << 30]) };
            run(&args[2], &args[3], args[4].parse().unwrap_or(1), &root)
        }
        Some("case") => {
            // SAFETY: as above
            unsafe { setrlimit(9, &[24 << 30, 24 << 30]) };
            let p = props::all().into_iter().find(|p| p.id == args[2]).expect("property");
            let r = std::thread::spawn(move || run_case(&p, &mut Src::random(args[3].parse().unwrap_or(0)))).join();
            i32::from(!matches!(r, Ok(Ok(_))))
        }
        Some("base") => {
            for v in base_hashes(&lines) {
                println!("{v:016x}");
            }
            0
        }
        Some("dict") => {
            let d = DICT.get().unwrap();
            println!("all {:?}\nnew {:?}\nfocus {:?}", d.all, d.fresh, (0..12).filter(|i| d.focus >> i & 1 == 1).map(|i| sysmask::FILES[i]).collect::<Vec<_>>());
            0
        }
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.quick);
            }
            0
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
            let id = v["property"].as_str().unwrap_or("");
            let p = props::all().into_iter().find(|p| p.id == id).expect("property");
            let data: Vec<u64> = v["choices"].as_array().map(|a| a.iter().filter_map(Value::as_u64).collect()).unwrap_or_default();
            let (log, r) = match v["case_seed"].as_str().and_then(|c| c.parse().ok()) {
                Some(c) => {
                    println!("replaying a case that did not return or took the process down: this may not end");
                    let mut s = Src::random(c);
                    s.verbose = true;
                    let r = run_case(&p, &mut s);
                    (s.log, r)
                }
                None => describe(&p, &data),
            };
            println!("{log}");
            match r {
                Ok(_) => {
                    println!("{id}: the property holds on this input");
                    0
                }
                Err(m) => {
                    println!("{m}");
                    println!("VIOLATION property={id} replay={}", args[2]);
                    1
                }
            }
        }
        _ => {
            eprintln!("usage: harness run ID TIER SEED | replay FILE | list | base | dict");
            2
        }
    };
    std::process::exit(code);
}
