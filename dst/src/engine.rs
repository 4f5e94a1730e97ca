//! Runs a property's simulation over many seeds in parallel, shrinks and
//! records violations, replays them, and writes the evidence file.
use crate::ctx::{self, Ctx, Res, Violation};
use crate::entropy::{self, hash64};
use crate::guard::{self, InFlight};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn() -> Res,
    /// Number of simulated runs of the quick and the thorough tier.
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub time_unit: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

#[derive(Clone)]
pub struct PanicInfo {
    loc: String,
    msg: String,
}
thread_local! {
    static LAST_PANIC: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
    static EXPECT_PANIC: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "(non-string panic)".into());
        if std::env::var_os("DST_BT").is_some() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(PanicInfo { loc, msg }));
    }));
}
/// Runs `f`, turning a panic into its location and message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            let p = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(PanicInfo { loc: "?".into(), msg: "?".into() });
            Err((p.loc, p.msg))
        }
    }
}

pub enum Outcome {
    Held,
    Violated(Violation),
    /// The harness itself failed: not a verdict about the code.
    Broken(String),
}
pub struct RunResult {
    pub outcome: Outcome,
    pub ctx: Ctx,
}

fn in_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/dst/")
}

/// Real time after which a run (milliseconds, normally) is given up.
pub const RUN_TIMEOUT: Duration = Duration::from_secs(60);
fn run_timeout() -> Duration {
    std::env::var("DST_RUN_TIMEOUT_MS").ok().and_then(|s| s.parse().ok()).map_or(RUN_TIMEOUT, Duration::from_millis)
}

enum Input {
    Seed,
    Tape(Vec<u64>),
}

/// Why a run gave no result.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Lost {
    Hang,
    Memory,
}
impl Lost {
    fn violation(self) -> Violation {
        match self {
            Lost::Hang => Violation {
                class: "hang".into(),
                msg: format!("the run made no progress for {} s of real time", RUN_TIMEOUT.as_secs()),
            },
            Lost::Memory => Violation {
                class: "memory".into(),
                msg: format!("the run held more than {} MB of memory (runs on the unchanged tree hold a few)", guard::LIMIT >> 20),
            },
        }
    }
}

/// One simulated run in a thread of its own, so that everything thread-local
/// (HashMap keys, the thread RNG) starts from the run's seed.
fn run_once(run: fn() -> Res, run_seed: u64, input: Input, tracing: bool, timeout: Duration) -> Result<RunResult, Lost> {
    let (tx, rx) = mpsc::channel();
    thread_local! {
        static FLAG: Cell<Option<&'static AtomicBool>> = const { Cell::new(None) };
    }
    let flag: &'static AtomicBool = FLAG.get().unwrap_or_else(|| Box::leak(Box::default()));
    FLAG.set(Some(flag));
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            entropy::reseed(run_seed);
            ctx::install(match input {
                Input::Seed => Ctx::from_seed(run_seed, tracing),
                Input::Tape(t) => Ctx::from_tape(t, tracing),
            });
            guard::watch(flag);
            let r = guarded(run);
            guard::unwatch();
            let ctx = ctx::take();
            let outcome = match r {
                Ok(Ok(())) => Outcome::Held,
                Ok(Err(v)) if v.class.starts_with("harness:") => Outcome::Broken(v.msg),
                Ok(Err(v)) => Outcome::Violated(v),
                Err((loc, msg)) if in_harness(&loc) => Outcome::Broken(format!("panic at {loc}: {msg}")),
                Err((loc, msg)) => Outcome::Violated(Violation {
                    class: format!("panic@{}", loc.trim_start_matches("/repo/")),
                    msg: format!("the code under test panicked at {loc}: {msg}"),
                }),
            };
            let _ = tx.send(RunResult { outcome, ctx });
        })
        .expect("spawn run thread");
    let end = Instant::now() + timeout;
    let lost = loop {
        match rx.recv_timeout(Duration::from_millis(250)) {
            Ok(r) => return Ok(r),
            Err(mpsc::RecvTimeoutError::Disconnected) => break Lost::Hang,
            Err(_) if flag.load(Ordering::SeqCst) => break Lost::Memory,
            Err(_) if Instant::now() > end => break Lost::Hang,
            Err(_) => {}
        }
    };
    // The abandoned thread keeps the flag.
    FLAG.set(None);
    Err(lost)
}

fn run_seed(verif_seed: u64, prop: &str, idx: u64) -> u64 {
    let p = prop.bytes().fold(0u64, |a, b| a * 257 + b as u64);
    hash64(&[verif_seed, p, idx])
}

pub struct Known {
    pub class: String,
    pub what: String,
}
fn known_findings(root: &Path, id: &str) -> Vec<Known> {
    let Ok(text) = std::fs::read_to_string(root.join("known-findings.txt")) else { return vec![] };
    text.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("finding: ")?;
            let mut it = rest.splitn(3, ' ');
            let p = it.next()?.strip_prefix("property=")?;
            let class = it.next()?.strip_prefix("class=")?;
            (p == id).then(|| Known { class: class.into(), what: it.next().unwrap_or("").into() })
        })
        .collect()
}

struct Found {
    idx: u64,
    seed: u64,
    v: Violation,
    tape: Option<Vec<u64>>,
    spans: Vec<(usize, usize)>,
}

#[derive(Default)]
struct Totals {
    runs: u64,
    time: u64,
    faults: BTreeMap<&'static str, (u64, u64)>, // (runs configured, times fired)
    probes: BTreeMap<&'static str, u64>,
    digests: HashSet<u64>,
    nontrivial_digests: HashSet<u64>,
    scheds: HashSet<u64>,
    states: HashSet<u64>,
    choices: u64,
    samples: Vec<(u64, u64)>,
    known: BTreeMap<String, u64>,
    broken: Option<(u64, String)>,
    nbroken: u64,
}

/// Runs this program with other arguments; `None` when a signal ended it.
fn child(args: &[&str], quiet: bool) -> Option<i32> {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.args(args).env("DST_CHILD", "1");
    if quiet {
        c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    }
    let st = c.status().expect("start a child process");
    if let (Some(n), false) = (std::os::unix::process::ExitStatusExt::signal(&st), quiet) {
        eprintln!("signal {n} ended the check's process");
    }
    st.code()
}

/// Bounds the memory of a child process, so that a run which takes all there is
/// fails an allocation there and then (a crash like any other).
pub fn limit_memory() {
    extern "C" {
        fn setrlimit(resource: i32, limits: *const [u64; 2]) -> i32;
    }
    const RLIMIT_AS: i32 = 9;
    let bytes = 20u64 << 30;
    let _ = unsafe { setrlimit(RLIMIT_AS, &[bytes, bytes]) };
}

/// Checks in a child process, so that a run which takes its process down
/// (abort, stack overflow) is a verdict too.
pub fn supervise(root: &Path, p: &Prop) -> i32 {
    let t0 = Instant::now();
    let slots = std::env::temp_dir().join(format!("dst-inflight-{}-{}", p.id, std::process::id()));
    let _ = std::fs::write(&slots, "");
    std::env::set_var("DST_INFLIGHT", &slots);
    let verif_seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    // When nothing in flight takes a process down again, the signal came from outside: check once more.
    for _ in 0..2 {
        let code = child(&["check", p.id], false);
        let runs = InFlight::read(&slots);
        if let Some(c) = code.or_else(|| lost(root, p, verif_seed, runs, t0)) {
            let _ = std::fs::remove_file(&slots);
            return c;
        }
        let _ = std::fs::write(&slots, "");
    }
    let _ = std::fs::remove_file(&slots);
    eprintln!("HARNESS ERROR: the check was ended by a signal twice, and no run in flight does that again");
    2
}

/// Which of the runs in flight took the process down?
fn lost(root: &Path, p: &Prop, verif_seed: u64, runs: Vec<(u64, u64)>, t0: Instant) -> Option<i32> {
    let v = Violation { class: "crash".into(), msg: "the run took its process down (abort, stack overflow or fatal signal)".into() };
    for (idx, seed) in runs {
        let path = write_replay(root, p.id, verif_seed, idx, seed, &v, None, None, 0, &[], 0);
        if child(&["replay", &path.display().to_string()], true).is_some() {
            let _ = std::fs::remove_file(&path);
            continue;
        }
        println!("violated: {}: {}", v.class, v.msg);
        print!("found at run {idx} (seed {seed:#018x})");
        if let Some((t, n, a, trace)) = shrink_lost(root, p.id, idx, seed, &v) {
            write_replay(root, p.id, verif_seed, idx, seed, &v, Some(&t), Some(n), a, &trace, 0);
            print!("; {n} choices minimised to {} in {a} attempts", t.len());
        }
        println!();
        println!("VIOLATION property={} replay={}", p.id, path.display());
        let t = Totals { runs: idx, ..Totals::default() };
        let w = t0.elapsed().as_secs_f64();
        let _ = std::fs::create_dir_all(root.join("evidence"));
        let ev = evidence(p, "quick", verif_seed, 0, 0, &t, w, w, 1, &[], Some(&path));
        let _ = std::fs::write(root.join("evidence").join(format!("{}.json", p.id)), ev);
        return Some(1);
    }
    None
}

pub fn check(root: &Path, p: &Prop) -> i32 {
    let t0 = Instant::now();
    let envn = |k: &str| std::env::var(k).ok().and_then(|s| s.trim().parse::<u64>().ok());
    let verif_seed = envn("VERIF_SEED").unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let total = envn("DST_RUNS").unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
    let cap = Duration::from_secs(envn("DST_BUDGET_S").unwrap_or(if tier == "thorough" { 660 } else { 240 }));
    let workers = envn("DST_WORKERS").unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(16)
    });
    let known = known_findings(root, p.id);
    let known_classes: HashSet<String> = known.iter().map(|k| k.class.clone()).collect();

    let inflight = InFlight::open();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let totals = Mutex::new(Totals::default());
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for slot in 0..workers as usize {
            let (stop, next, totals, found, known_classes, inflight) = (&stop, &next, &totals, &found, &known_classes, &inflight);
            s.spawn(move || loop {
                if stop.load(Ordering::Relaxed) || t0.elapsed() > cap {
                    break;
                }
                let idx = next.fetch_add(1, Ordering::Relaxed);
                if idx >= total {
                    break;
                }
                let seed = run_seed(verif_seed, p.id, idx);
                inflight.set(slot, idx, seed);
                match run_once(p.run, seed, Input::Seed, false, run_timeout()) {
                    Err(l) => {
                        stop.store(true, Ordering::Relaxed);
                        found.lock().unwrap().push(Found { idx, seed, v: l.violation(), tape: None, spans: vec![] });
                    }
                    Ok(r) => {
                        let mut t = totals.lock().unwrap();
                        t.runs += 1;
                        t.time += r.ctx.time;
                        t.choices += r.ctx.rec.len() as u64;
                        for (k, n) in &r.ctx.faults {
                            let e = t.faults.entry(k).or_default();
                            e.0 += 1;
                            e.1 += n;
                        }
                        for (k, n) in &r.ctx.probes {
                            *t.probes.entry(k).or_default() += n;
                        }
                        t.digests.insert(r.ctx.digest);
                        if r.ctx.nontrivial {
                            t.nontrivial_digests.insert(r.ctx.digest);
                            if t.samples.len() < 3 {
                                t.samples.push((idx, seed));
                            }
                        }
                        t.scheds.insert(r.ctx.sched);
                        if t.states.len() < 20_000_000 {
                            t.states.extend(&r.ctx.states);
                        }
                        match r.outcome {
                            Outcome::Held => {}
                            Outcome::Broken(m) => {
                                // No verdict from this run; another may show a violation.
                                if t.broken.as_ref().is_none_or(|b| b.0 > idx) {
                                    t.broken = Some((idx, m));
                                }
                                t.nbroken += 1;
                            }
                            Outcome::Violated(v) => {
                                if known_classes.contains(&v.class) {
                                    *t.known.entry(v.class).or_default() += 1;
                                } else {
                                    drop(t);
                                    stop.store(true, Ordering::Relaxed);
                                    found.lock().unwrap().push(Found {
                                        idx,
                                        seed,
                                        v,
                                        tape: Some(r.ctx.rec),
                                        spans: r.ctx.spans,
                                    });
                                }
                            }
                        }
                    }
                }
            });
        }
    });
    let search_s = t0.elapsed().as_secs_f64();
    let totals = totals.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.idx);

    for k in &known {
        println!("KNOWN-FINDING: property={} {} [{}; met in {} runs]", p.id, k.what, k.class, totals.known.get(&k.class).unwrap_or(&0));
    }

    let mut code = 0;
    let mut replay_path = None;
    if let Some(f) = found.into_iter().next() {
        code = 1;
        let deadline = Instant::now() + Duration::from_secs(envn("DST_SHRINK_S").unwrap_or(60));
        let mut orig_len = f.tape.as_ref().map(|t| t.len());
        let mut lost_trace = vec![];
        let (tape, attempts) = match f.tape {
            Some(t) => {
                let (t, a) = shrink(p, f.seed, t, f.spans, &f.v.class, deadline);
                (Some(t), a)
            }
            None => match shrink_lost(root, p.id, f.idx, f.seed, &f.v) {
                Some((t, n, a, trace)) => {
                    orig_len = Some(n);
                    lost_trace = trace;
                    (Some(t), a)
                }
                None => (None, 0),
            },
        };
        let lost = matches!(f.v.class.as_str(), "hang" | "memory");
        let fin = tape
            .clone()
            .filter(|_| !lost)
            .and_then(|t| run_once(p.run, f.seed, Input::Tape(t), true, RUN_TIMEOUT).ok());
        let (v, trace, digest) = match fin {
            Some(RunResult { outcome: Outcome::Violated(v), ctx }) => (v, ctx.trace, ctx.digest),
            _ => (f.v.clone(), lost_trace, 0),
        };
        let path = write_replay(root, p.id, verif_seed, f.idx, f.seed, &v, tape.as_deref(), orig_len, attempts, &trace, digest);
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .arg("replay")
            .arg(&path)
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
        let reproduced = matches!(st, Ok(s) if s.code() == Some(1));
        println!("violated: {}: {}", v.class, v.msg);
        for l in trace.iter().rev().take(30).rev() {
            println!("    {l}");
        }
        println!(
            "found at run {} (seed {:#018x}); {} choices minimised to {} in {} attempts; replayed in a fresh process: {}",
            f.idx,
            f.seed,
            orig_len.unwrap_or(0),
            tape.as_ref().map_or(0, |t| t.len()),
            attempts,
            if reproduced { "reproduced exactly" } else { "NOT reproduced" }
        );
        println!("VIOLATION property={} replay={}", p.id, path.display());
        replay_path = Some(path);
    } else if let Some((idx, m)) = &totals.broken {
        eprintln!("HARNESS ERROR in {} runs, first run {idx} (seed {:#x}): {m}", totals.nbroken, run_seed(verif_seed, p.id, *idx));
        code = 2;
    }
    let samples: Vec<(u64, u64, RunResult)> = totals
        .samples
        .iter()
        .take(2)
        .filter_map(|&(i, s)| run_once(p.run, s, Input::Seed, true, RUN_TIMEOUT).ok().map(|r| (i, s, r)))
        .collect();
    let ev = evidence(p, tier, verif_seed, workers, total, &totals, search_s, t0.elapsed().as_secs_f64(), code, &samples, replay_path.as_deref());
    let evp = root.join("evidence").join(format!("{}.json", p.id));
    let _ = std::fs::create_dir_all(root.join("evidence"));
    if let Err(e) = std::fs::write(&evp, ev) {
        eprintln!("cannot write {}: {e}", evp.display());
        code = code.max(2);
    }
    if code == 0 {
        println!(
            "{}: held on {} runs ({} distinct non-trivial, {} {} simulated) in {:.1} s",
            p.id,
            totals.runs,
            totals.nontrivial_digests.len(),
            totals.time,
            p.time_unit,
            search_s
        );
        if totals.runs == 0 || totals.nontrivial_digests.len() < 2 {
            eprintln!("HARNESS ERROR: nothing non-trivial was explored");
            code = 2;
        }
    }
    code
}

type Kept = Option<(Vec<u64>, Vec<(usize, usize)>)>;

fn shrink(p: &Prop, seed: u64, tape: Vec<u64>, spans: Vec<(usize, usize)>, class: &str, deadline: Instant) -> (Vec<u64>, u64) {
    let trial = |t: &[u64]| -> Kept {
        let r = run_once(p.run, seed, Input::Tape(t.to_vec()), false, Duration::from_secs(20)).ok()?;
        match r.outcome {
            Outcome::Violated(v) if v.class == class => {
                let mut rec = r.ctx.rec;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                Some((rec, r.ctx.spans))
            }
            _ => None,
        }
    };
    minimise(tape, spans, &trial, deadline)
}

/// Whether a replay file still loses its run in the same way: hung, out of
/// memory, or with its process. Asked of a child process, which leaves the
/// choices it drew and the trace behind.
fn lost_again(file: &Path, class: &str, timeout_ms: u64) -> Option<(Vec<u64>, Vec<String>)> {
    let out = file.with_extension("tape");
    let _ = std::fs::write(&out, "");
    let c = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["replay".as_ref(), file.as_os_str()])
        .env("DST_CHILD", "1")
        .env("DST_TAPE_OUT", &out)
        .env("DST_RUN_TIMEOUT_MS", timeout_ms.to_string())
        .stderr(std::process::Stdio::null())
        .output()
        .expect("start a child process");
    let tape = guard::TapeOut::read(&out);
    let _ = std::fs::remove_file(&out);
    let same = match c.status.code() {
        None => class == "crash",
        Some(1) => class != "crash",
        _ => false,
    };
    let text = String::from_utf8_lossy(&c.stdout).into_owned();
    same.then(|| (tape, text.lines().filter_map(|l| l.strip_prefix("~ ")).map(str::to_string).collect()))
}
/// Shrinks a run that gives no result, trial by trial in child processes.
/// Returns the tape, its length before, the attempts, and the trace.
fn shrink_lost(root: &Path, id: &str, idx: u64, seed: u64, v: &Violation) -> Option<(Vec<u64>, usize, u64, Vec<String>)> {
    if std::env::var("DST_SHRINK_S").as_deref() == Ok("0") {
        return None;
    }
    let dir = std::env::temp_dir().join(format!("dst-lost-{id}-{}", std::process::id()));
    let put = |t: Option<&[u64]>| write_replay(&dir, id, 0, idx, seed, v, t, None, 0, &[], 0);
    let first = lost_again(&put(None), &v.class, if v.class == "hang" { 8000 } else { RUN_TIMEOUT.as_millis() as u64 });
    let ms = if v.class == "hang" { 1500 } else { 20_000 };
    let last = RefCell::new(vec![]);
    let trial = |t: &[u64]| -> Kept {
        let (mut rec, trace) = lost_again(&put(Some(t)), &v.class, ms)?;
        while rec.last() == Some(&0) {
            rec.pop();
        }
        *last.borrow_mut() = trace;
        Some((rec, vec![]))
    };
    let r = first.and_then(|(tape, _)| {
        let n = tape.len();
        let (best, attempts) = minimise(tape, vec![], &trial, Instant::now() + Duration::from_secs(60));
        trial(&best)?;
        Some((best, n, attempts, last.borrow().clone()))
    });
    if dir.starts_with(std::env::temp_dir()) {
        let _ = std::fs::remove_dir_all(&dir);
    }
    let _ = root;
    r
}

fn minimise(tape: Vec<u64>, spans: Vec<(usize, usize)>, keeps: &dyn Fn(&[u64]) -> Kept, deadline: Instant) -> (Vec<u64>, u64) {
    let mut best = tape;
    let mut spans = spans;
    let mut attempts = 0u64;
    let trial = |t: &[u64], attempts: &mut u64| -> Kept {
        *attempts += 1;
        keeps(t)
    };
    let smaller = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    let over = || Instant::now() > deadline;
    let Some(r) = trial(&best, &mut attempts) else { return (best, attempts) };
    (best, spans) = r;
    loop {
        let before = best.clone();
        // Delete whole spans, the longest first.
        let mut order: Vec<_> = spans.clone();
        order.sort_by_key(|&(s, e)| std::cmp::Reverse(e - s));
        order.dedup();
        let mut i = 0;
        while i < order.len() && !over() {
            let (s, e) = order[i];
            i += 1;
            if e > best.len() {
                continue;
            }
            let mut t = best[..s].to_vec();
            t.extend_from_slice(&best[e..]);
            if let Some((r, sp)) = trial(&t, &mut attempts) {
                if smaller(&r, &best) {
                    best = r;
                    order = sp.clone();
                    spans = sp;
                    order.sort_by_key(|&(s, e)| std::cmp::Reverse(e - s));
                    order.retain(|&(s2, e2)| e2 - s2 <= e - s);
                    i = 0;
                }
            }
        }
        // Delete and zero chunks.
        let mut size = best.len().next_power_of_two().min(1024);
        while size >= 1 && !over() {
            let mut pos = best.len();
            while pos > 0 && !over() {
                let s = pos.saturating_sub(size);
                let e = pos.min(best.len());
                if s < e {
                    let mut t = best[..s].to_vec();
                    t.extend_from_slice(&best[e..]);
                    let del = trial(&t, &mut attempts).filter(|(r, _)| smaller(r, &best));
                    if let Some((r, sp)) = del {
                        best = r;
                        spans = sp;
                    } else if best[s..e].iter().any(|&x| x != 0) {
                        let mut t = best.clone();
                        t[s..e].fill(0);
                        if let Some((r, sp)) = trial(&t, &mut attempts).filter(|(r, _)| smaller(r, &best)) {
                            best = r;
                            spans = sp;
                        }
                    }
                }
                pos = s.min(best.len());
            }
            size /= 2;
        }
        // Minimise values.
        let mut k = 0;
        while k < best.len() && !over() {
            let (mut lo, mut hi) = (0u64, best[k]);
            while lo < hi && !over() {
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                t[k] = mid;
                match trial(&t, &mut attempts).filter(|(r, _)| smaller(r, &best)) {
                    Some((r, sp)) => {
                        best = r;
                        spans = sp;
                        if k >= best.len() {
                            break;
                        }
                        hi = mid.min(best[k]);
                    }
                    None => lo = mid + 1,
                }
            }
            k += 1;
        }
        if best == before || over() {
            break;
        }
    }
    (best, attempts)
}

#[allow(clippy::too_many_arguments)]
fn write_replay(
    root: &Path, id: &str, vseed: u64, idx: u64, seed: u64, v: &Violation, tape: Option<&[u64]>, orig: Option<usize>,
    attempts: u64, trace: &[String], digest: u64,
) -> PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{seed:016x}.replay"));
    let mut s = String::new();
    let one = |m: &str| m.replace('\n', "\\n");
    let _ = writeln!(s, "property: {id}");
    let _ = writeln!(s, "class: {}", one(&v.class));
    let _ = writeln!(s, "message: {}", one(&v.msg));
    let _ = writeln!(s, "verif_seed: {vseed}");
    let _ = writeln!(s, "run_index: {idx}");
    let _ = writeln!(s, "run_seed: {seed:#018x}");
    let _ = writeln!(s, "digest: {digest:#018x}");
    let _ = writeln!(s, "choices_before_minimising: {}", orig.unwrap_or(0));
    let _ = writeln!(s, "shrink_attempts: {attempts}");
    match tape {
        Some(t) => {
            let _ = writeln!(s, "tape: {}", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        }
        None => {
            let _ = writeln!(s, "tape: from-seed");
        }
    }
    let _ = writeln!(s, "# minimised schedule and fault trace:");
    for l in trace {
        let _ = writeln!(s, "#   {}", one(l));
    }
    let _ = std::fs::write(&path, s);
    path
}

pub fn replay(props: &[Prop], file: &Path) -> i32 {
    let Ok(text) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {}", file.display());
        return 2;
    };
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(": "))).map(str::to_string);
    let (Some(id), Some(class), Some(seed)) = (get("property"), get("class"), get("run_seed")) else {
        eprintln!("not a replay file");
        return 2;
    };
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("no property {id}");
        return 2;
    };
    let seed = u64::from_str_radix(seed.trim_start_matches("0x"), 16).expect("run_seed");
    if class == "crash" && std::env::var_os("DST_CHILD").is_none() {
        // It takes its process down: let it do that to a child.
        return match child(&["replay", &file.display().to_string()], true) {
            Some(code) => {
                println!("no crash: the replay exited with {code}");
                if code == 0 { 0 } else { 3 }
            }
            None => {
                println!("reproduced: the run took its process down");
                println!("VIOLATION property={id} replay={}", file.display());
                1
            }
        };
    }
    let input = match get("tape").as_deref() {
        Some("from-seed") => Input::Seed,
        None => Input::Tape(vec![]),
        Some(t) => Input::Tape(t.split_whitespace().map(|x| x.parse().expect("tape value")).collect()),
    };
    guard::TapeOut::open();
    match run_once(p.run, seed, input, true, run_timeout()) {
        Err(l) => {
            println!("{}", l.violation().msg);
            if l.violation().class == class {
                println!("reproduced");
                println!("VIOLATION property={id} replay={}", file.display());
                1
            } else {
                3
            }
        }
        Ok(r) => {
            for l in &r.ctx.trace {
                println!("  {l}");
            }
            match r.outcome {
                Outcome::Violated(v) => {
                    println!("{}: {}", v.class, v.msg);
                    let want = get("digest").unwrap_or_default();
                    let got = format!("{:#018x}", r.ctx.digest);
                    if v.class == class && (want == got || want == "0x0000000000000000") {
                        println!("reproduced exactly (execution digest {got})");
                        println!("VIOLATION property={id} replay={}", file.display());
                        1
                    } else {
                        println!("violated, but differently: recorded class {class}, digest {want}; now {} {got}", v.class);
                        3
                    }
                }
                Outcome::Held => {
                    println!("no violation on this tree");
                    0
                }
                Outcome::Broken(m) => {
                    println!("harness error: {m}");
                    2
                }
            }
        }
    }
}

/// Prints one line per run: the execution digest. Used to check determinism
/// across processes and worker counts.
pub fn digests(p: &Prop, n: u64, workers: u64) {
    let verif_seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = Mutex::new(vec![]);
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let idx = next.fetch_add(1, Ordering::Relaxed);
                if idx >= n {
                    break;
                }
                let r = run_once(p.run, run_seed(verif_seed, p.id, idx), Input::Seed, false, RUN_TIMEOUT);
                let line = match r {
                    Err(l) => format!("{} {idx} {l:?}", p.id),
                    Ok(r) => format!(
                        "{} {idx} {:016x} {:016x} {} {} {}",
                        p.id,
                        r.ctx.digest,
                        r.ctx.sched,
                        r.ctx.time,
                        r.ctx.rec.len(),
                        match r.outcome {
                            Outcome::Held => "held".into(),
                            Outcome::Violated(v) => v.class,
                            Outcome::Broken(m) => format!("broken {m}"),
                        }
                    ),
                };
                out.lock().unwrap().push((idx, line));
            });
        }
    });
    let mut o = out.into_inner().unwrap();
    o.sort();
    for (_, l) in o {
        println!("{l}");
    }
}

pub fn one(p: &Prop, idx: u64) -> i32 {
    let verif_seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match run_once(p.run, run_seed(verif_seed, p.id, idx), Input::Seed, true, RUN_TIMEOUT) {
        Err(l) => println!("{l:?}"),
        Ok(r) => {
            for l in &r.ctx.trace {
                println!("  {l}");
            }
            println!("probes {:?}\nfaults {:?}\nchoices {} time {}", r.ctx.probes, r.ctx.faults, r.ctx.rec.len(), r.ctx.time);
            match r.outcome {
                Outcome::Held => println!("held"),
                Outcome::Violated(v) => println!("VIOLATED {}: {}", v.class, v.msg),
                Outcome::Broken(m) => println!("BROKEN {m}"),
            }
        }
    }
    0
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(xs: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", xs.into_iter().collect::<Vec<_>>().join(", "))
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    p: &Prop, tier: &str, seed: u64, workers: u64, planned: u64, t: &Totals, search_s: f64, wall: f64, code: i32,
    samples: &[(u64, u64, RunResult)], replay: Option<&Path>,
) -> String {
    let per_h = |n: u64| (n as f64 / search_s.max(0.001) * 3600.0) as u64;
    let faults = t
        .faults
        .iter()
        .map(|(k, (c, f))| format!("{}: {{\"runs_configured\": {c}, \"times_fired\": {f}}}", js(k)))
        .collect::<Vec<_>>()
        .join(", ");
    let probes = t.probes.iter().map(|(k, n)| format!("{}: {n}", js(k))).collect::<Vec<_>>().join(", ");
    let samples = jlist(samples.iter().map(|(i, s, r)| {
        format!(
            "{{\"run_index\": {i}, \"run_seed\": {}, \"choices\": {}, \"simulated_time\": {}, \"digest\": {}, \"trace\": {}}}",
            js(&format!("{s:#018x}")),
            r.ctx.rec.len(),
            r.ctx.time,
            js(&format!("{:#018x}", r.ctx.digest)),
            jlist(r.ctx.trace.iter().take(40).map(|l| js(l)))
        )
    }));
    format!(
        r#"{{
  "property": {id},
  "tier": {tier},
  "seed": {seed},
  "level": {level},
  "coverage": {{
    "evaluations": {runs},
    "distinct_nontrivial": {dn},
    "rule": {rule},
    "samples": {samples},
    "simulated_runs": {runs},
    "runs_planned": {planned},
    "runs_and_seeds_per_hour": {rph},
    "simulated_time": {{"unit": {unit}, "total": {time}, "per_hour": {tph}}},
    "choices_drawn": {choices},
    "distinct_executions": {dd},
    "distinct_schedules": {ds},
    "distinct_abstract_states": {dst},
    "measure": "distinct executions = distinct rolling digests of everything observed in a run; distinct schedules = distinct sequences of scheduling and fault decisions; abstract states = distinct state fingerprints as described in DESIGN.md",
    "fault_kinds": {{{faults}}},
    "probes": {{{probes}}},
    "components_real": {real},
    "components_stub": {stub},
    "known_findings_met": {{{known}}},
    "workers": {workers},
    "search_wall_s": {search_s:.2},
    "replay": {replay}
  }},
  "assumptions": {assumptions},
  "wall_s": {wall:.2},
  "violations": {viol}
}}
"#,
        id = js(p.id),
        tier = js(tier),
        level = js(p.level),
        runs = t.runs,
        dn = t.nontrivial_digests.len(),
        rule = js(p.rule),
        rph = per_h(t.runs),
        unit = js(p.time_unit),
        time = t.time,
        tph = per_h(t.time),
        choices = t.choices,
        dd = t.digests.len(),
        ds = t.scheds.len(),
        dst = t.states.len(),
        real = jlist(p.real.iter().map(|s| js(s))),
        stub = jlist(p.stub.iter().map(|s| js(s))),
        known = t.known.iter().map(|(k, n)| format!("{}: {n}", js(k))).collect::<Vec<_>>().join(", "),
        replay = replay.map_or("null".into(), |r| js(&r.display().to_string())),
        assumptions = jlist(p.assumptions.iter().map(|s| js(s))),
        viol = (code == 1) as u32,
    )
}

#[allow(dead_code)]
pub type Shared<T> = Arc<Mutex<T>>;
