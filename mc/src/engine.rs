//! Exhaustive exploration engine.
//!
//! A property is a list of sections; a section is a finite, totally ordered space of cases.  Every
//! case of every section is executed (in parallel) against the real code.  The run happens in a
//! child process so that aborts (stack overflows, allocation failures) are attributed to the case
//! that caused them, and a watchdog attributes hangs.

use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    /// Picks a bound by tier.
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick { q } else { t }
    }
}

/// A failed case.
#[derive(Clone, Debug)]
pub struct Failure {
    /// Identifies *what* fails: the input, call site or history.  Matched against known findings.
    pub key: String,
    /// Human-readable explanation with expected and actual observations.
    pub detail: String,
}

impl Failure {
    pub fn new<K: Into<String>, D: Into<String>>(key: K, detail: D) -> Self {
        Self { key: key.into(), detail: detail.into() }
    }
}

pub type CaseResult = Result<(), Failure>;

/// Per-thread context in which a case runs.
pub struct Cx {
    pub transitions: u64,
    pub traces: u64,
    pub trivial: u64,
    states: HashSet<u64>,
    counters: BTreeMap<&'static str, u64>,
    slot: usize,
}

impl Cx {
    fn new(slot: usize) -> Self {
        Self {
            transitions: 0,
            traces: 0,
            trivial: 0,
            states: HashSet::default(),
            counters: BTreeMap::new(),
            slot,
        }
    }
    /// Records that the exploration visited the state/observation `t`.  Returns true if new for
    /// this thread.
    pub fn state<T: Hash>(&mut self, t: &T) -> bool {
        let h = hash_of(t);
        if self.states.len() < 8_000_000 { self.states.insert(h) } else { false }
    }
    /// Records `n` transitions (operations applied, statements executed, ...).
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    /// Bumps a named counter that is reported in the evidence.
    pub fn count(&mut self, name: &'static str) {
        *self.counters.entry(name).or_insert(0) += 1;
    }
    /// Tells the watchdog that progress is being made.
    pub fn tick(&self) {
        START[self.slot].store(now_ms(), Ordering::Relaxed);
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub type RunFn = Box<dyn Fn(u64, &mut Cx) -> CaseResult + Sync + Send>;
pub type DescFn = Box<dyn Fn(u64) -> String + Sync + Send>;

/// A finite space of cases.
pub struct Section {
    pub name: String,
    pub size: u64,
    pub describe: DescFn,
    pub run: RunFn,
    /// Stack size for the threads running this section.
    pub stack: usize,
    /// Number of worker threads; 0 for the default.
    pub threads: usize,
    /// What to do with a panic of the code under test: by default a failure.
    pub panic_key: Option<fn(&str) -> String>,
}

impl Section {
    pub fn new<D, R>(name: &str, size: u64, describe: D, run: R) -> Self
    where
        D: Fn(u64) -> String + Sync + Send + 'static,
        R: Fn(u64, &mut Cx) -> CaseResult + Sync + Send + 'static,
    {
        Self {
            name: name.to_owned(),
            size,
            describe: Box::new(describe),
            run: Box::new(run),
            stack: 16 << 20,
            threads: 0,
            panic_key: None,
        }
    }
    pub fn stack(mut self, bytes: usize) -> Self {
        self.stack = bytes;
        self
    }
    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
}

pub struct Property {
    pub id: &'static str,
    /// What is enumerated, with the bounds, and against which oracle.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub sections: fn(Tier) -> Vec<Section>,
}

const MAX_THREADS: usize = 64;
const HANG_MS: u64 = 60_000;

static START: [AtomicU64; MAX_THREADS] = [const { AtomicU64::new(0) }; MAX_THREADS];

fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Routes panics to a thread-local so that they can be reported as part of a case.
pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "unknown panic".to_owned()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/repo/").map(|x| x.1).unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {}: {}", loc, msg));
    }));
}

/// Runs `f` converting a panic into its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

fn run_case(s: &Section, idx: u64, cx: &mut Cx) -> CaseResult {
    match catch(|| (s.run)(idx, cx)) {
        Ok(r) => r,
        Err(msg) => {
            let d = catch(|| (s.describe)(idx)).unwrap_or_else(|_| format!("case {}", idx));
            Err(Failure::new(format!("{}: panic: {}", s.name, d), format!("{}\n{}", d, msg)))
        }
    }
}

fn nthreads() -> usize {
    std::env::var("MC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
        .min(MAX_THREADS)
}

/// Results of a section.
struct SectionStats {
    name: String,
    size: u64,
    executed: u64,
    wall: f64,
}

struct Found {
    section: String,
    index: u64,
    failure: Failure,
    desc: String,
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| {
        Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
    })
}

/// Loads the keys of known (recorded, not repaired) findings for a property.
fn known_findings(id: &str) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    let path = verif_dir().join("known_findings.jsonl");
    if let Ok(text) = fs::read_to_string(path) {
        for line in text.lines() {
            let line = line.trim();
            if !line.starts_with('{') {
                continue;
            }
            let v: Value = serde_json::from_str(line).expect("known findings must be valid JSON");
            if v["property"] == id {
                out.insert(
                    v["key"].as_str().unwrap().to_owned(),
                    v["what"].as_str().unwrap().to_owned(),
                );
            }
        }
    }
    out
}

/// Shared file where worker threads note the case they are running, to attribute crashes.
struct CrashMap {
    ptr: *mut u64,
}
unsafe impl Sync for CrashMap {}
unsafe impl Send for CrashMap {}
impl CrashMap {
    fn create(path: &Path) -> Self {
        let f = fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(path)
            .unwrap();
        f.set_len((MAX_THREADS * 16) as u64).unwrap();
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                MAX_THREADS * 16,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Self { ptr: p as *mut u64 }
    }
    fn set(&self, slot: usize, section: u64, idx: u64) {
        unsafe {
            self.ptr.add(slot * 2).write_volatile(section + 1);
            self.ptr.add(slot * 2 + 1).write_volatile(idx);
        }
    }
    fn unset(&self, slot: usize) {
        unsafe { self.ptr.add(slot * 2).write_volatile(0) }
    }
}

fn tmp_dir() -> PathBuf {
    let d = std::env::temp_dir().join(format!("mc-{}", std::process::id()));
    let _ = fs::create_dir_all(&d);
    d
}

fn write_replay(id: &str, tier: Tier, f: &Found, n: usize) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.json", id, tier.name(), n));
    let v = json!({
        "property": id,
        "tier": tier.name(),
        "section": f.section,
        "index": f.index,
        "case": f.desc,
        "key": f.failure.key,
        "detail": f.failure.detail,
        "how": format!("cd /verif && ./run.sh replay {}", path.display()),
    });
    fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    path
}

/// Entry point for the worker process: explores everything and leaves the result in `out`.
pub fn worker(p: &Property, tier: Tier, out: &Path, crash: &Path) {
    install_panic_hook();
    limit_memory();
    let t0 = Instant::now();
    let sections = (p.sections)(tier);
    let known = known_findings(p.id);
    let crash = CrashMap::create(crash);

    let mut states: HashSet<u64> = HashSet::default();
    let mut transitions = 0u64;
    let mut traces = 0u64;
    let mut trivial = 0u64;
    let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut stats = vec![];
    let mut found: Vec<Found> = vec![];
    let mut known_seen: BTreeMap<String, String> = BTreeMap::new();
    let mut samples = vec![];
    let mut complete = true;

    let only = std::env::var("MC_SECTION").ok();
    'outer: for (si, s) in sections.iter().enumerate() {
        if let Some(o) = &only
            && !s.name.contains(o.as_str())
        {
            complete = false;
            continue;
        }
        let st0 = Instant::now();
        for i in [0, s.size / 2, s.size.saturating_sub(1)] {
            if i < s.size && samples.len() < 60 {
                let v = json!({"section": s.name, "index": i, "case": (s.describe)(i)});
                if !samples.contains(&v) {
                    samples.push(v);
                }
            }
        }

        let n = if s.threads == 0 { nthreads() } else { s.threads };
        let n = n.min(s.size.max(1) as usize);
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let executed = AtomicU64::new(0);
        let fails: Mutex<Vec<(u64, Failure)>> = Mutex::new(vec![]);
        let known_hits: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
        let chunk = (s.size / (n as u64 * 64)).clamp(1, 256);

        let cxs: Vec<Cx> = std::thread::scope(|scope| {
            let mut handles = vec![];
            for slot in 0..n {
                let next = &next;
                let stop = &stop;
                let fails = &fails;
                let known_hits = &known_hits;
                let known = &known;
                let crash = &crash;
                let executed = &executed;
                let h = std::thread::Builder::new()
                    .stack_size(s.stack)
                    .spawn_scoped(scope, move || {
                        let mut cx = Cx::new(slot);
                        let mut exec = 0;
                        while !stop.load(Ordering::Relaxed) {
                            let lo = next.fetch_add(chunk, Ordering::Relaxed);
                            if lo >= s.size {
                                break;
                            }
                            for idx in lo..(lo + chunk).min(s.size) {
                                crash.set(slot, si as u64, idx);
                                START[slot].store(now_ms(), Ordering::Relaxed);
                                if let Err(f) = run_case(s, idx, &mut cx) {
                                    if let Some(what) = known.get(&f.key) {
                                        known_hits.lock().unwrap().insert(f.key, what.clone());
                                    } else {
                                        let mut fails = fails.lock().unwrap();
                                        fails.push((idx, f));
                                        if fails.len() >= max_fails() {
                                            stop.store(true, Ordering::Relaxed);
                                        }
                                    }
                                }
                                exec += 1;
                                if stop.load(Ordering::Relaxed) {
                                    break;
                                }
                            }
                        }
                        START[slot].store(0, Ordering::Relaxed);
                        crash.unset(slot);
                        executed.fetch_add(exec, Ordering::Relaxed);
                        cx
                    })
                    .unwrap();
                handles.push(h);
            }

            let done = &done;
            let stop = &stop;
            let watch = scope.spawn(move || {
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(50));
                    let now = now_ms();
                    for slot in 0..n {
                        let t = START[slot].load(Ordering::Relaxed);
                        if t != 0 && now.saturating_sub(t) > HANG_MS {
                            // The thread cannot be stopped: tell the parent through the crash map.
                            eprintln!("watchdog: slot {} hangs", slot);
                            let _ = stop;
                            std::process::exit(97);
                        }
                    }
                }
            });
            let cxs = handles.into_iter().map(|h| h.join().expect("engine thread")).collect();
            done.store(true, Ordering::Relaxed);
            watch.join().unwrap();
            cxs
        });

        for cx in cxs {
            transitions += cx.transitions;
            traces += cx.traces;
            trivial += cx.trivial;
            if states.len() < 60_000_000 {
                states.extend(cx.states);
            }
            for (k, v) in cx.counters {
                *counters.entry(k).or_insert(0) += v;
            }
        }
        let executed = executed.load(Ordering::Relaxed);
        stats.push(SectionStats {
            name: s.name.clone(),
            size: s.size,
            executed,
            wall: st0.elapsed().as_secs_f64(),
        });
        if executed != s.size {
            complete = false;
        }
        known_seen.extend(known_hits.into_inner().unwrap());

        let mut fails = fails.into_inner().unwrap();
        fails.sort_by(|a, b| a.0.cmp(&b.0));
        // Replay the failures, each one alone.  One that does not fail alone may depend on what the
        // implementation keeps from earlier cases: run the section again, and report the failures
        // that repeat alone or, if none does, those of the second run.  A failure that never shows
        // again is noise of the host (only the checks that run processes have any).
        let mut keys = HashSet::new();
        let mut confirmed = vec![];
        let mut lost = vec![];
        for (idx, f) in fails {
            if keys.insert(f.key.clone()) {
                if fails_alone(s, idx, &f) { confirmed.push((idx, f)) } else { lost.push((idx, f)) }
            }
        }
        if confirmed.is_empty() && !lost.is_empty() {
            for (idx, f) in &lost {
                eprintln!("case {}#{} does not fail alone: {} {}", s.name, idx, f.key, f.detail);
            }
            let second = rerun(s, si, n, &known, &crash);
            for (idx, f) in &second {
                if fails_alone(s, *idx, f) {
                    confirmed.push((*idx, f.clone()));
                    break;
                }
            }
            if confirmed.is_empty()
                && let Some((idx, mut f)) = second.into_iter().next()
            {
                f.detail.push_str("\n(only after other cases in the same process)");
                confirmed.push((idx, f));
            }
            if confirmed.is_empty() {
                *counters.entry("failures that never repeated").or_insert(0) += lost.len() as u64;
            }
        }
        for (idx, failure) in confirmed {
            let desc = (s.describe)(idx);
            found.push(Found { section: s.name.clone(), index: idx, failure, desc });
        }
        if !found.is_empty() && std::env::var("MC_ALL").is_err() {
            if si + 1 < sections.len() {
                complete = false;
            }
            break 'outer;
        }
    }

    let cases: u64 = stats.iter().map(|s| s.executed).sum();
    let v = json!({
        "wall_s": t0.elapsed().as_secs_f64(),
        "coverage": {
            "states": states.len(),
            "transitions": transitions,
            "traces_validated_against_impl": if traces > 0 { traces } else { cases },
            "evaluations": cases,
            "distinct_nontrivial": cases - trivial.min(cases),
            "rule": p.rule,
            "exhaustive": complete,
            "sections": stats.iter().map(|s| json!({
                "name": s.name, "space": s.size, "executed": s.executed,
                "wall_s": (s.wall * 1000.0).round() / 1000.0
            })).collect::<Vec<_>>(),
            "counters": counters,
            "samples": samples,
        },
        "known": known_seen,
        "found": found.iter().map(|f| json!({
            "section": f.section, "index": f.index, "desc": f.desc,
            "key": f.failure.key, "detail": f.failure.detail,
        })).collect::<Vec<_>>(),
    });
    fs::write(out, serde_json::to_string(&v).unwrap()).unwrap();
}

/// Whether a case fails in the same way in a thread of its own.
fn fails_alone(s: &Section, idx: u64, f: &Failure) -> bool {
    let again = std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(s.stack)
            .spawn_scoped(scope, move || run_case(s, idx, &mut Cx::new(0)))
            .unwrap()
            .join()
            .unwrap()
    });
    matches!(again, Err(f2) if f2.key == f.key)
}

/// Runs all cases of a section once more until a few fail.
fn rerun(
    s: &Section,
    si: usize,
    n: usize,
    known: &BTreeMap<String, String>,
    crash: &CrashMap,
) -> Vec<(u64, Failure)> {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let fails: Mutex<Vec<(u64, Failure)>> = Mutex::new(vec![]);
    std::thread::scope(|scope| {
        for slot in 0..n {
            let (next, stop, fails) = (&next, &stop, &fails);
            std::thread::Builder::new()
                .stack_size(s.stack)
                .spawn_scoped(scope, move || {
                    let mut cx = Cx::new(slot);
                    while !stop.load(Ordering::Relaxed) {
                        let idx = next.fetch_add(1, Ordering::Relaxed);
                        if idx >= s.size {
                            break;
                        }
                        crash.set(slot, si as u64, idx);
                        if let Err(f) = run_case(s, idx, &mut cx)
                            && !known.contains_key(&f.key)
                        {
                            let mut fails = fails.lock().unwrap();
                            fails.push((idx, f));
                            if fails.len() >= 8 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    crash.unset(slot);
                })
                .unwrap();
        }
    });
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by(|a, b| a.0.cmp(&b.0));
    fails
}

fn max_fails() -> usize {
    std::env::var("MC_MAX_FAILS").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn limit_memory() {
    let gb: u64 = 24;
    let l = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

/// Entry point for a single case in its own process.
pub fn single(p: &Property, tier: Tier, section: usize, idx: u64) -> i32 {
    install_panic_hook();
    limit_memory();
    let sections = (p.sections)(tier);
    let s = &sections[section];
    let r = std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(s.stack)
            .spawn_scoped(scope, || run_case(s, idx, &mut Cx::new(0)))
            .unwrap()
            .join()
            .unwrap()
    });
    println!("{}", (s.describe)(idx));
    match r {
        Ok(()) => {
            println!("case holds");
            0
        }
        Err(f) => {
            println!("case fails: {}\n{}", f.key, f.detail);
            1
        }
    }
}

pub fn replay(props: &[Property], path: &str) -> i32 {
    let v: Value = serde_json::from_str(&fs::read_to_string(path).unwrap()).unwrap();
    let p = props.iter().find(|p| v["property"] == p.id).expect("unknown property");
    let tier = if v["tier"] == "quick" { Tier::Quick } else { Tier::Thorough };
    let sections = (p.sections)(tier);
    let si = sections.iter().position(|s| v["section"] == s.name.as_str()).expect("section");
    drop(sections);
    single(p, tier, si, v["index"].as_u64().unwrap())
}

fn wait_with_timeout(cmd: &mut Command, secs: u64) -> Option<std::process::ExitStatus> {
    let mut child = cmd.spawn().unwrap();
    let t0 = Instant::now();
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            return Some(st);
        }
        if t0.elapsed().as_secs() > secs {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn crashed(s: &Section, index: u64, what: String) -> Found {
    let desc = (s.describe)(index);
    Found {
        section: s.name.clone(),
        index,
        failure: Failure::new(format!("{}: crash: {}", s.name, desc), what),
        desc,
    }
}

/// Entry point for a check: runs the worker, decides and writes the evidence.
pub fn check(p: &Property, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let tmp = tmp_dir();
    let out = tmp.join("out.json");
    let crash = tmp.join("crash.bin");
    let exe = std::env::current_exe().unwrap();
    let seed: i64 =
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);

    let run_worker = || {
        Command::new(&exe)
            .args(["worker", p.id, tier.name()])
            .arg(&out)
            .arg(&crash)
            .stdin(Stdio::null())
            .status()
            .unwrap()
    };
    let mut status = run_worker();

    let mut found: Vec<Found> = vec![];
    let mut coverage = json!({"explanation": "worker crashed", "states": 0, "transitions": 0,
        "traces_validated_against_impl": 0, "samples": []});
    let mut known = serde_json::Map::new();
    let code;

    if !status.success() {
        // Attribute the crash or hang to a case; if none crashes alone, to the history of cases.
        for attempt in 0..2 {
            let raw = fs::read(&crash).unwrap_or_default();
            let mut cands = vec![];
            for c in raw.chunks_exact(16) {
                let s = u64::from_ne_bytes(c[0..8].try_into().unwrap());
                let i = u64::from_ne_bytes(c[8..16].try_into().unwrap());
                if s > 0 {
                    cands.push((s - 1, i));
                }
            }
            cands.sort();
            let sections = (p.sections)(tier);
            for (s, i) in &cands {
                let mut cmd = Command::new(&exe);
                cmd.args(["case", p.id, tier.name(), &s.to_string(), &i.to_string()])
                    .stdin(Stdio::null())
                    .stdout(Stdio::null())
                    .stderr(Stdio::null());
                let what = match wait_with_timeout(&mut cmd, 60) {
                    None => "does not terminate".to_owned(),
                    Some(st) if st.code() == Some(0) || st.code() == Some(1) => continue,
                    Some(st) => format!("kills the process: {}", st),
                };
                found.push(crashed(&sections[*s as usize], *i, what));
                break;
            }
            if !found.is_empty() {
                break;
            }
            if attempt == 1 {
                if let Some((s, i)) = cands.first() {
                    let what = format!("ends the process after other cases: {}", status);
                    found.push(crashed(&sections[*s as usize], *i, what));
                    break;
                }
                eprintln!("engine error: worker ended with {} outside of the cases", status);
                let _ = fs::remove_dir_all(&tmp);
                return 2;
            }
            eprintln!("worker ended with {} and no case alone does that: again", status);
            status = run_worker();
            if status.success() {
                break;
            }
        }
    }
    if status.success() {
        let v: Value = serde_json::from_str(&fs::read_to_string(&out).unwrap()).unwrap();
        coverage = v["coverage"].clone();
        if let Some(m) = v["known"].as_object() {
            known = m.clone();
        }
        for f in v["found"].as_array().unwrap() {
            found.push(Found {
                section: f["section"].as_str().unwrap().to_owned(),
                index: f["index"].as_u64().unwrap(),
                desc: f["desc"].as_str().unwrap().to_owned(),
                failure: Failure::new(
                    f["key"].as_str().unwrap(),
                    f["detail"].as_str().unwrap(),
                ),
            });
        }
        code = if found.is_empty() { 0 } else { 1 };
    } else {
        code = 1;
    }

    let ev = json!({
        "property": p.id,
        "tier": tier.name(),
        "seed": seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": found.len(),
    });
    let evdir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&evdir);
    fs::write(
        evdir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();

    let so = std::io::stdout();
    let mut so = so.lock();
    for (key, what) in &known {
        writeln!(so, "KNOWN-FINDING: property={} {} [{}]", p.id, what.as_str().unwrap(), key)
            .unwrap();
    }
    for (n, f) in found.iter().enumerate().take(8) {
        let path = write_replay(p.id, tier, f, n);
        writeln!(so, "{}: {}\n{}", f.section, f.desc, f.failure.detail).unwrap();
        writeln!(so, "VIOLATION property={} replay={}", p.id, path.display()).unwrap();
    }
    writeln!(
        so,
        "{} {}: {} cases, {} states, {} transitions, exhaustive={}, {:.1}s: {}",
        p.id,
        tier.name(),
        ev["coverage"]["evaluations"],
        ev["coverage"]["states"],
        ev["coverage"]["transitions"],
        ev["coverage"]["exhaustive"],
        t0.elapsed().as_secs_f64(),
        if code == 0 { "held" } else { "VIOLATED" }
    )
    .unwrap();
    let _ = fs::remove_dir_all(&tmp);
    code
}

// ---------------------------------------------------------------------------------------------
// Enumeration helpers.

/// Number of sequences over an alphabet of `k` symbols with length in `[lo, hi]`.
pub fn seq_count(k: u64, lo: u32, hi: u32) -> u64 {
    (lo..=hi).map(|n| k.pow(n)).sum()
}

/// Decodes the `idx`th sequence over `k` symbols, shortest first starting at length `lo`.
pub fn seq_decode(k: u64, lo: u32, mut idx: u64) -> Vec<usize> {
    let mut n = lo;
    loop {
        let c = k.pow(n);
        if idx < c {
            break;
        }
        idx -= c;
        n += 1;
    }
    let mut v = vec![0; n as usize];
    for i in (0..n as usize).rev() {
        v[i] = (idx % k) as usize;
        idx /= k;
    }
    v
}

/// Decodes a mixed-radix number; the last digit varies fastest.
pub fn mixed(radices: &[u64], mut idx: u64) -> Vec<usize> {
    let mut v = vec![0; radices.len()];
    for i in (0..radices.len()).rev() {
        v[i] = (idx % radices[i]) as usize;
        idx /= radices[i];
    }
    v
}

pub fn product(radices: &[u64]) -> u64 {
    radices.iter().product()
}

/// The command line of a harness.
pub fn main(props: Vec<Property>) {
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| props.iter().find(|p| p.id == id).expect("unknown property");
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let code = match args[1].as_str() {
        "list" => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        "check" => check(find(&args[2]), tier(&args[3])),
        "worker" => {
            worker(find(&args[2]), tier(&args[3]), args[4].as_ref(), args[5].as_ref());
            0
        }
        "case" => single(
            find(&args[2]),
            tier(&args[3]),
            args[4].parse().unwrap(),
            args[5].parse().unwrap(),
        ),
        "replay" => replay(&props, &args[2]),
        _ => panic!("bad command"),
    };
    std::process::exit(code);
}
