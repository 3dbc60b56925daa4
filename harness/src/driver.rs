//! Runs one property: generation by proptest from a seed, the check, shrinking, the replay file
//! and the evidence file. The generating process is a child (`worker`) so that an abort, a
//! runaway allocation or an endless loop in the library becomes a reported case as well.

use crate::util::{hash64, trunc, ZONE};
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::fs;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;
/// CPU seconds after which one case counts as never ending.
fn case_cpu(tier: Tier) -> u64 {
    // cases of tens of thousands of sets take up to 25 s, with more of them in the thorough tier
    if tier == Tier::Quick { 120 } else { 400 }
}
/// No more cases are started after this many seconds (slow machines; recorded in the evidence).
fn soft_limit(tier: Tier) -> Duration {
    Duration::from_secs(if tier == Tier::Quick { 420 } else { 1800 })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

/// What a check says about the case it looked at.
#[derive(Default)]
pub struct Cx {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
}

impl Cx {
    pub fn class(&mut self, name: &'static str) {
        if !self.classes.contains(&name) {
            self.classes.push(name);
        }
    }
    pub fn class_if(&mut self, c: bool, name: &'static str) {
        if c {
            self.class(name);
        }
    }
}

pub trait Prop: Sync {
    type Case: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static;
    fn id(&self) -> &'static str;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> &'static [&'static str] {
        &[]
    }
    fn strategy(&self) -> BoxedStrategy<Self::Case>;
    /// Cases of the quick tier; the thorough tier runs `THOROUGH` times as many.
    fn cases(&self) -> u64;
    /// Cases that are always run first.
    fn fixed(&self) -> Vec<Self::Case> {
        Vec::new()
    }
    /// More of them, for the thorough tier only.
    fn fixed_thorough(&self) -> Vec<Self::Case> {
        Vec::new()
    }
    /// Cases that are run as well, but the search goes on if one of them fails: the known findings.
    fn known(&self) -> Vec<Self::Case> {
        Vec::new()
    }
    fn check(&self, case: &Self::Case, cx: &mut Cx) -> Result<(), String>;
}

pub const THOROUGH: u64 = 20;

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static CATCH: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_hook() {
    let default = panic::take_hook();
    panic::set_hook(Box::new(move |info| {
        if CATCH.with(|c| *c.borrow()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            PANIC.with(|p| {
                let mut p = p.borrow_mut();
                if p.is_none() {
                    *p = Some(format!("panic at {}: {}", loc, msg))
                }
            });
        } else {
            default(info);
        }
    }));
}

/// Runs a closure; a panic inside becomes an error with its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = CATCH.with(|c| c.replace(true));
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    CATCH.with(|c| *c.borrow_mut() = prev);
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

pub fn eval<P: Prop>(p: &P, case: &P::Case, cx: &mut Cx) -> Result<(), String> {
    match guarded(|| p.check(case, cx)) {
        Ok(r) => r,
        Err(m) => Err(m),
    }
}

#[derive(Serialize, Deserialize)]
struct Failure {
    thread: usize,
    index: u64,
    message: String,
    case: Value,
    shrunk_from: Option<Value>,
    shrink_steps: u64,
}

#[derive(Serialize, Deserialize, Default)]
struct Report {
    evaluations: u64,
    distinct_nontrivial: u64,
    nontrivial: u64,
    distinct: u64,
    stopped_early: bool,
    regressions: u64,
    fixed: u64,
    classes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    failures: Vec<Failure>,
}

pub struct Dirs {
    pub verif: PathBuf,
}

impl Dirs {
    pub fn new() -> Dirs {
        let v = std::env::var_os("RUP_VERIF").map(PathBuf::from);
        Dirs { verif: v.unwrap_or_else(|| PathBuf::from("/verif")) }
    }
    fn regressions(&self, id: &str) -> PathBuf {
        self.verif.join("harness/regressions").join(id)
    }
    fn evidence(&self, id: &str) -> PathBuf {
        self.verif.join("evidence").join(format!("{}.json", id))
    }
    fn replays(&self) -> PathBuf {
        self.verif.join("replays")
    }
}

struct ThreadOut {
    evals: u64,
    nontrivial: u64,
    seen: HashSet<u64>,
    seen_nontrivial: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    failure: Option<Failure>,
    stopped: bool,
}

fn seed32(seed: u64, id: &str, thread: usize) -> [u8; 32] {
    let mut m = crate::util::Mix::new(seed ^ hash64(id.as_bytes()).rotate_left(17) ^ ((thread as u64) << 48));
    let mut s = [0u8; 32];
    for c in s.chunks_mut(8) {
        c.copy_from_slice(&m.next().to_le_bytes());
    }
    s
}

struct Slot {
    count: AtomicU64,
    clock: Mutex<Option<libc::clockid_t>>,
}

struct CurFile(fs::File);

impl CurFile {
    fn open(dir: &Path, thread: usize) -> CurFile {
        let f = fs::OpenOptions::new()
            .create(true)
            .truncate(true)
            .write(true)
            .open(dir.join(format!("cur-{}.json", thread)))
            .expect("cur file");
        CurFile(f)
    }
    fn set(&self, json: &[u8]) {
        let mut b = Vec::with_capacity(json.len() + 1);
        b.extend_from_slice(json);
        b.push(b'\n');
        // the case ends at the first newline; JSON has none
        let _ = self.0.write_all_at(&b, 0);
    }
}

fn thread_cpu(clock: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: plain clock read into a local
    unsafe { libc::clock_gettime(clock, &mut ts) };
    ts.tv_sec as u64
}

fn own_clock() -> Option<libc::clockid_t> {
    let mut c: libc::clockid_t = 0;
    // SAFETY: queries the CPU clock of the calling thread
    let r = unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
    if r == 0 {
        Some(c)
    } else {
        None
    }
}

fn scale_pct() -> u64 {
    std::env::var("RUP_SCALE_PCT").ok().and_then(|s| s.parse().ok()).unwrap_or(100)
}

/// The child process: generates and checks, and prints a `Report` to `out`.
pub fn worker<P: Prop>(p: &P, tier: Tier, seed: u64, run_dir: &Path) {
    let total = p.cases() * if tier == Tier::Quick { 1 } else { THOROUGH } * scale_pct() / 100;
    let per = (total / THREADS as u64).max(1);
    let mut rep = Report::default();
    let dirs = Dirs::new();

    // saved minimal cases and fixed ones first, spread over the threads
    let mut list: Vec<P::Case> = Vec::new();
    {
        let mut files: Vec<PathBuf> = fs::read_dir(dirs.regressions(p.id()))
            .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
            .unwrap_or_default();
        files.sort();
        for f in &files {
            let v: Value = serde_json::from_slice(&fs::read(f).expect("regression file")).expect("regression json");
            let c = v.get("case").cloned().unwrap_or(v);
            list.push(serde_json::from_value(c).unwrap_or_else(|e| panic!("{}: {}", f.display(), e)));
            rep.regressions += 1;
        }
        list.extend(p.fixed());
        if tier == Tier::Thorough {
            list.extend(p.fixed_thorough());
        }
        rep.fixed = list.len() as u64 - rep.regressions;
    }
    let list = &list;
    for (i, c) in p.known().iter().enumerate() {
        if let Err(message) = eval(p, c, &mut Cx::default()) {
            let case = serde_json::to_value(c).unwrap();
            // after whatever else fails
            rep.failures.push(Failure { thread: THREADS, index: u64::MAX - i as u64, message, case, shrunk_from: None, shrink_steps: 0 });
        }
    }

    let stop = AtomicBool::new(false);
    let started = Instant::now();
    let slots: Vec<Slot> =
        (0..THREADS).map(|_| Slot { count: AtomicU64::new(0), clock: Mutex::new(None) }).collect();
    let done = AtomicBool::new(false);
    let outs: Vec<ThreadOut> = std::thread::scope(|s| {
        let slots = &slots;
        let done = &done;
        let stop = &stop;
        // watches for a case that never ends, by CPU time of its thread
        s.spawn(move || {
            let mut last: Vec<(u64, u64)> = vec![(u64::MAX, 0); THREADS];
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                for (i, sl) in slots.iter().enumerate() {
                    let clock = *sl.clock.lock().unwrap();
                    if let Some(c) = clock {
                        let n = sl.count.load(Ordering::Relaxed);
                        let cpu = thread_cpu(c);
                        if last[i].0 != n {
                            last[i] = (n, cpu);
                        } else if cpu > last[i].1 + case_cpu(tier) {
                            // SAFETY: leaves at once, the parent takes over
                            unsafe { libc::_exit(77) };
                        }
                    }
                }
            }
        });
        let handles: Vec<_> = (0..THREADS)
            .map(|t| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        *slots[t].clock.lock().unwrap() = own_clock();
                        let r = thread_run(p, list, t, per, seed, tier, run_dir, stop, started, &slots[t].count);
                        *slots[t].clock.lock().unwrap() = None;
                        r
                    })
                    .unwrap()
            })
            .collect();
        let outs = handles.into_iter().map(|h| h.join().expect("worker thread")).collect();
        done.store(true, Ordering::Relaxed);
        outs
    });

    let mut all: HashSet<u64> = HashSet::new();
    let mut allnt: HashSet<u64> = HashSet::new();
    for o in outs {
        rep.evaluations += o.evals;
        rep.nontrivial += o.nontrivial;
        rep.stopped_early |= o.stopped;
        all.extend(o.seen);
        allnt.extend(o.seen_nontrivial);
        for (k, v) in o.classes {
            *rep.classes.entry(k).or_default() += v;
        }
        rep.samples.extend(o.samples);
        rep.failures.extend(o.failure);
    }
    rep.distinct = all.len() as u64;
    rep.distinct_nontrivial = allnt.len() as u64;
    rep.samples.truncate(4);
    fs::write(run_dir.join("report.json"), serde_json::to_vec(&rep).unwrap()).expect("report");
}

#[allow(clippy::too_many_arguments)]
fn thread_run<P: Prop>(
    p: &P,
    list: &[P::Case],
    t: usize,
    per: u64,
    seed: u64,
    tier: Tier,
    run_dir: &Path,
    stop: &AtomicBool,
    started: Instant,
    count: &AtomicU64,
) -> ThreadOut {
    let mut out = ThreadOut {
        evals: 0,
        nontrivial: 0,
        seen: HashSet::new(),
        seen_nontrivial: HashSet::new(),
        classes: BTreeMap::new(),
        samples: Vec::new(),
        failure: None,
        stopped: false,
    };
    let cur = CurFile::open(run_dir, t);
    let cfg = Config { failure_persistence: None, max_shrink_iters: 1, ..Config::default() };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed32(seed, p.id(), t));
    let mut runner = TestRunner::new_with_rng(cfg, rng);
    let strat = p.strategy();
    for c in list.iter().skip(t).step_by(THREADS) {
        if stop.load(Ordering::Relaxed) {
            break;
        }
        cur.set(&serde_json::to_vec(&c).unwrap());
        count.fetch_add(1, Ordering::Relaxed);
        out.evals += 1;
        let mut cx = Cx::default();
        let r = eval(p, c, &mut cx);
        for c in cx.classes {
            *out.classes.entry(c.to_owned()).or_default() += 1;
        }
        if let Err(message) = r {
            stop.store(true, Ordering::Relaxed);
            out.failure = Some(Failure {
                thread: t,
                index: 0,
                message,
                case: serde_json::to_value(c).unwrap(),
                shrunk_from: None,
                shrink_steps: 0,
            });
            return out;
        }
    }
    for i in 0..per {
        if stop.load(Ordering::Relaxed) {
            break;
        }
        if started.elapsed() > soft_limit(tier) {
            out.stopped = true;
            break;
        }
        let mut tree = match strat.new_tree(&mut runner) {
            Ok(t) => t,
            Err(_) => continue,
        };
        let case = tree.current();
        let j = serde_json::to_vec(&case).unwrap();
        cur.set(&j);
        count.fetch_add(1, Ordering::Relaxed);
        let mut cx = Cx::default();
        let r = eval(p, &case, &mut cx);
        out.evals += 1;
        let h = hash64(&j);
        out.seen.insert(h);
        if cx.nontrivial {
            out.nontrivial += 1;
            if out.seen_nontrivial.insert(h) && out.samples.is_empty() && i > 20 && t < 4 && j.len() < 6000 {
                out.samples.push(serde_json::to_value(&case).unwrap());
            }
        }
        for c in cx.classes {
            *out.classes.entry(c.to_owned()).or_default() += 1;
        }
        if let Err(first) = r {
            // other threads may stop: one failure is enough
            stop.store(true, Ordering::Relaxed);
            let original = case.clone();
            let (best, msg, steps) = shrink(p, &mut *tree, case, first, &cur, count);
            out.failure = Some(Failure {
                thread: t,
                index: i,
                message: msg,
                case: serde_json::to_value(&best).unwrap(),
                shrunk_from: Some(serde_json::to_value(&original).unwrap()),
                shrink_steps: steps,
            });
            break;
        }
    }
    cur.set(b"");
    out
}

fn shrink<P: Prop>(
    p: &P,
    tree: &mut dyn ValueTree<Value = P::Case>,
    first: P::Case,
    msg: String,
    cur: &CurFile,
    count: &AtomicU64,
) -> (P::Case, String, u64) {
    let began = Instant::now();
    // (scaled-down runs are for development only and shrink less)
    let most = Duration::from_secs(if scale_pct() < 100 { 2 } else { 45 });
    let (mut best, mut best_msg) = (first, msg);
    let mut steps = 0;
    if !tree.simplify() {
        return (best, best_msg, 0);
    }
    while steps < 4000 && began.elapsed() < most {
        steps += 1;
        let c = tree.current();
        cur.set(&serde_json::to_vec(&c).unwrap());
        count.fetch_add(1, Ordering::Relaxed);
        let more = match eval(p, &c, &mut Cx::default()) {
            Err(m) => {
                best = c;
                best_msg = m;
                tree.simplify()
            }
            Ok(()) => tree.complicate(),
        };
        if !more {
            break;
        }
    }
    (best, best_msg, steps)
}

/// Re-runs one saved case. Exit status 0 if it passes, 1 if it fails.
pub fn replay<P: Prop>(p: &P, case: Value) -> i32 {
    let case: P::Case = match serde_json::from_value(case) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("replay: not a case of {}: {}", p.id(), e);
            return 2;
        }
    };
    match eval(p, &case, &mut Cx::default()) {
        Ok(()) => {
            println!("{}: passes", p.id());
            0
        }
        Err(m) => {
            println!("{}: {}", p.id(), m);
            1
        }
    }
}

fn limits(as_bytes: u64, cpu: u64) -> impl FnMut() -> std::io::Result<()> {
    move || {
        // SAFETY: setrlimit on the child before exec
        unsafe {
            let l = libc::rlimit { rlim_cur: as_bytes, rlim_max: as_bytes };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &c);
            if cpu > 0 {
                let l = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 5 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
            }
        }
        Ok(())
    }
}

fn known_findings(dirs: &Dirs, id: &str) -> Vec<(String, String)> {
    // `known: property=<id> case=<hash> <what fails>`
    let text = fs::read_to_string(dirs.verif.join("known_findings.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for l in text.lines() {
        let mut w = l.split_whitespace();
        if w.next() != Some("known:") || w.next() != Some(&format!("property={}", id)) {
            continue;
        }
        if let Some(h) = w.next().and_then(|x| x.strip_prefix("case=")) {
            v.push((h.to_owned(), w.collect::<Vec<_>>().join(" ")));
        }
    }
    v
}

/// The worker died: finds the case by running each thread's last one alone.
fn alone<P: Prop>(p: &P, exe: &Path, run_dir: &Path, tier: Tier) -> Vec<(String, Value, String)> {
    use std::os::unix::process::CommandExt;
    let mut violations = Vec::new();
    for t in 0..THREADS {
        let raw = match fs::read(run_dir.join(format!("cur-{}.json", t))) {
            Ok(r) => r,
            Err(_) => continue,
        };
        let end = raw.iter().position(|b| *b == b'\n').unwrap_or(0);
        if end == 0 {
            continue;
        }
        let case: Value = match serde_json::from_slice(&raw[..end]) {
            Ok(v) => v,
            Err(_) => continue,
        };
        let f = run_dir.join("single.json");
        fs::write(&f, serde_json::to_vec(&json!({"property": p.id(), "case": case})).unwrap()).unwrap();
        let mut c = Command::new(exe);
        c.arg("replay").arg(&f).env("TZ", ZONE).env("TMPDIR", run_dir).stdin(Stdio::null());
        c.stdout(Stdio::piped()).stderr(Stdio::piped());
        // SAFETY: only setrlimit between fork and exec
        unsafe { c.pre_exec(limits(4 << 30, case_cpu(tier))) };
        let o = c.output().expect("start replay");
        let how = match (o.status.code(), o.status.signal()) {
            (Some(0), _) | (Some(2), _) => continue,
            (Some(1), _) => String::from_utf8_lossy(&o.stdout).trim().trim_start_matches(p.id()).trim_start_matches(": ").to_owned(),
            (Some(k), _) => format!("the process exits with {}", k),
            (None, Some(libc::SIGXCPU)) | (None, Some(libc::SIGKILL)) => {
                format!("the call does not end within {} s of CPU time", case_cpu(tier))
            }
            (None, s) => {
                format!("the process is killed by signal {:?}: {}", s, trunc(String::from_utf8_lossy(&o.stderr).trim(), 300))
            }
        };
        violations.push((how, case, String::new()));
        break;
    }
    violations
}

/// Seconds of coverage-guided search in the thorough tier.
const GUIDED_SECS: u64 = 180;

/// Coverage-guided search by one libFuzzer process a thread. What it finds counts only if the case
/// fails again here, without libFuzzer.
fn search<P: Prop>(
    p: &P,
    exe: &Path,
    bin: &Path,
    run_dir: &Path,
    tier: Tier,
    seed: u64,
    violations: &mut Vec<(String, Value, String)>,
) -> Value {
    use std::os::unix::process::CommandExt;
    let secs = std::env::var("RUP_GUIDED_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(GUIDED_SECS);
    let mut kids = Vec::new();
    for t in 0..THREADS {
        let _ = fs::remove_file(run_dir.join(format!("cur-{}.json", t)));
        let corpus = run_dir.join(format!("corpus-{}", t));
        crate::guided::seeds(seed ^ (t as u64) << 56, 300, &corpus);
        let mut c = Command::new(bin);
        c.arg(&corpus).arg(format!("-max_total_time={}", secs)).arg(format!("-seed={}", seed as u32 as u64 * 8 + t as u64 + 1));
        c.args(["-timeout=0", "-rss_limit_mb=0", "-malloc_limit_mb=0", "-max_len=8192", "-len_control=0", "-verbosity=0"]);
        c.arg(format!("-use_value_profile={}", t % 2));
        c.env("RUP_FUZZ_ID", p.id()).env("RUP_FUZZ_DIR", run_dir).env("RUP_FUZZ_N", t.to_string());
        c.env("TZ", ZONE).env("TMPDIR", run_dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        c.current_dir(run_dir);
        // SAFETY: only setrlimit between fork and exec
        unsafe { c.pre_exec(limits(4 << 30, 0)) };
        kids.push(c.spawn().expect("start rup-fuzz"));
    }
    let end = Instant::now() + Duration::from_secs(secs + 60 + case_cpu(tier));
    let mut died = false;
    for k in kids.iter_mut() {
        loop {
            match k.try_wait().expect("wait") {
                Some(s) => {
                    died |= !s.success() && s.code() != Some(76);
                    break;
                }
                None if Instant::now() > end => {
                    let _ = k.kill();
                    let _ = k.wait();
                    died = true;
                    break;
                }
                None => std::thread::sleep(Duration::from_millis(100)),
            }
        }
    }
    let read = |name: String| -> Option<Value> { serde_json::from_slice(&fs::read(run_dir.join(name)).ok()?).ok() };
    let (mut evals, mut nontrivial, mut corpus) = (0, 0, 0);
    for t in 0..THREADS {
        if let Some(v) = read(format!("stats-{}.json", t)) {
            evals += v["evaluations"].as_u64().unwrap_or(0);
            nontrivial += v["distinct_nontrivial"].as_u64().unwrap_or(0);
        }
        corpus += fs::read_dir(run_dir.join(format!("corpus-{}", t))).map_or(0, |d| d.count());
        if let Some(v) = read(format!("fail-{}.json", t)) {
            let _ = fs::write(run_dir.join(format!("cur-{}.json", t)), v["case"].to_string() + "\n");
            died = true;
        }
    }
    if died && violations.is_empty() {
        *violations = alone(p, exe, run_dir, tier);
    }
    json!({
        "engine": "libFuzzer, its bytes in place of the generator's random numbers",
        "seconds": secs,
        "processes": THREADS,
        "evaluations": evals,
        "distinct_nontrivial_by_process": nontrivial,
        "corpus_files": corpus,
    })
}

/// The parent process. Returns the exit status of the check.
pub fn run<P: Prop>(p: &P, tier: Tier, seed: u64) -> i32 {
    use std::os::unix::process::CommandExt;
    let dirs = Dirs::new();
    let t0 = Instant::now();
    let run_dir = std::env::temp_dir().join(format!("rup-check-{}-{}", p.id(), std::process::id()));
    fs::create_dir_all(&run_dir).expect("run dir");
    let _ = fs::create_dir_all(dirs.verif.join("evidence"));
    let exe = std::env::current_exe().expect("exe");
    let mut cmd = Command::new(&exe);
    cmd.arg("worker").arg(p.id()).arg(tier.name()).arg(seed.to_string()).arg(&run_dir);
    cmd.env("TZ", ZONE).env("TMPDIR", &run_dir).stdin(Stdio::null());
    // SAFETY: only setrlimit between fork and exec
    unsafe { cmd.pre_exec(limits(16 << 30, 0)) };
    let status = cmd.status().expect("start worker");

    let mut violations: Vec<(String, Value, String)> = Vec::new();
    let mut rep = Report::default();
    let mut error = None;
    if status.success() {
        rep = serde_json::from_slice(&fs::read(run_dir.join("report.json")).expect("report")).expect("report json");
        rep.failures.sort_by_key(|f| (f.index, f.thread));
        for f in &rep.failures {
            let mut note = String::new();
            if let Some(o) = &f.shrunk_from {
                if *o != f.case {
                    note = trunc(&o.to_string(), 20_000);
                }
            }
            violations.push((f.message.clone(), f.case.clone(), note));
        }
    } else {
        eprintln!("worker ended with {} - looking for the case that did it", status);
        violations = alone(p, &exe, &run_dir, tier);
        if violations.is_empty() {
            error = Some(format!("worker ended with {} and no single case reproduces it", status));
        }
    }
    let mut guided = Value::Null;
    if let Some(bin) = std::env::var_os("RUP_FUZZ_BIN").filter(|_| tier == Tier::Thorough && violations.is_empty() && error.is_none()) {
        guided = search(p, &exe, Path::new(&bin), &run_dir, tier, seed, &mut violations);
    }

    let known = known_findings(&dirs, p.id());
    let mut unlisted = Vec::new();
    for v in violations {
        let h = format!("{:016x}", hash64(&serde_json::to_vec(&v.1).unwrap()));
        match known.iter().find(|k| k.0 == h) {
            Some(k) => println!("KNOWN-FINDING: property={} {}", p.id(), k.1),
            None => unlisted.push((v, h)),
        }
    }

    let ev = json!({
        "property": p.id(),
        "tier": tier.name(),
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": rep.evaluations,
            "distinct_nontrivial": rep.distinct_nontrivial,
            "nontrivial_evaluations": rep.nontrivial,
            "distinct_cases": rep.distinct,
            "saved_cases_rerun": rep.regressions,
            "fixed_cases": rep.fixed,
            "rule": p.rule(),
            "classes": rep.classes,
            "samples": rep.samples,
            "threads": THREADS,
            "stopped_by_time": rep.stopped_early,
            "coverage_guided": guided,
        },
        "assumptions": p.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": unlisted.len(),
    });
    let _ = fs::write(dirs.evidence(p.id()), serde_json::to_string_pretty(&ev).unwrap() + "\n");

    let mut status = 0;
    if let Some(e) = error {
        eprintln!("ERROR {}: {}", p.id(), e);
        status = 2;
    }
    if let Some(((msg, case, note), h)) = unlisted.first() {
        let _ = fs::create_dir_all(dirs.replays());
        let path = dirs.replays().join(format!("{}-{}.json", p.id(), h));
        let body = json!({
            "property": p.id(),
            "message": trunc(msg, 8000),
            "seed": seed,
            "tier": tier.name(),
            "case": case,
            "before_shrinking": note,
        });
        fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).expect("replay file");
        println!("{}: {}", p.id(), trunc(msg, 3000));
        println!("case: {}", trunc(&case.to_string(), 3000));
        println!("VIOLATION property={} replay={}", p.id(), path.display());
        status = 1;
    }
    if status == 0 {
        println!(
            "{}: held on {} cases ({} distinct and non-trivial), {:.1} s",
            p.id(),
            rep.evaluations,
            rep.distinct_nontrivial,
            t0.elapsed().as_secs_f64()
        );
    }
    let _ = fs::remove_dir_all(&run_dir);
    status
}
