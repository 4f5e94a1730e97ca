//! Per-run simulation context: the choice tape, fault and probe counters, the
//! rolling digest of the execution, and the trace.
//!
//! Every decision a simulated run makes is one `below(n)` draw. A fresh run
//! draws from a PRNG seeded by the run seed and records the values; a replay
//! feeds a recorded tape back (modulo n; zero past its end). Zero is always
//! the simplest alternative, which is what the shrinker works towards.
use crate::entropy::splitmix;
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Violation>;
pub fn viol<T>(class: impl Into<String>, msg: impl Into<String>) -> Res<T> {
    Err(Violation { class: class.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($arg:tt)*) => {
        if !$c { return $crate::ctx::viol($class, format!($($arg)*)); }
    };
}

enum Source {
    Rng(u64),
    Tape(Vec<u64>, usize),
}

pub struct Ctx {
    source: Source,
    pub rec: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    open: Vec<usize>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub digest: u64,
    pub sched: u64,
    pub states: Vec<u64>,
    pub time: u64,
    pub nontrivial: bool,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub trace_dropped: u64,
}

impl Ctx {
    fn base(source: Source, tracing: bool) -> Self {
        Ctx {
            source,
            rec: vec![],
            spans: vec![],
            open: vec![],
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            digest: 0,
            sched: 0,
            states: vec![],
            time: 0,
            nontrivial: false,
            tracing,
            trace: vec![],
            trace_dropped: 0,
        }
    }
    pub fn from_seed(seed: u64, tracing: bool) -> Self {
        Self::base(Source::Rng(seed), tracing)
    }
    pub fn from_tape(tape: Vec<u64>, tracing: bool) -> Self {
        Self::base(Source::Tape(tape, 0), tracing)
    }
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
}
pub fn install(c: Ctx) {
    CTX.with(|x| *x.borrow_mut() = Some(c));
}
pub fn take() -> Ctx {
    CTX.with(|x| x.borrow_mut().take()).expect("context installed")
}
fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|x| f(x.borrow_mut().as_mut().expect("no simulation context on this thread")))
}

/// A value in `0..n`.
pub fn below(n: u64) -> u64 {
    with(|c| {
        let v = if n <= 1 {
            0
        } else {
            match &mut c.source {
                Source::Rng(s) => {
                    let r = splitmix(s);
                    ((r as u128 * n as u128) >> 64) as u64
                }
                Source::Tape(t, p) => {
                    // A tape cut short reads as zeros; a run that only waits
                    // for another value must still end.
                    assert!(*p < t.len() + 4_000_000, "the tape is exhausted");
                    let v = t.get(*p).copied().unwrap_or(0) % n;
                    *p += 1;
                    v
                }
            }
        };
        if n > 1 {
            c.rec.push(v);
            crate::guard::TapeOut::push(c.rec.len(), v);
        }
        v
    })
}
pub fn any_u64() -> u64 {
    with(|c| {
        let v = match &mut c.source {
            Source::Rng(s) => splitmix(s),
            Source::Tape(t, p) => {
                let v = t.get(*p).copied().unwrap_or(0);
                *p += 1;
                v
            }
        };
        c.rec.push(v);
        crate::guard::TapeOut::push(c.rec.len(), v);
        v
    })
}
/// True with probability num/den; the zero draw is `false`.
pub fn chance(num: u64, den: u64) -> bool {
    below(den) >= den - num
}
pub fn range(lo: u64, hi_incl: u64) -> u64 {
    lo + below(hi_incl - lo + 1)
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[below(xs.len() as u64) as usize]
}
pub fn weighted(w: &[u32]) -> usize {
    let total: u64 = w.iter().map(|&x| x as u64).sum();
    let mut v = below(total);
    for (i, &x) in w.iter().enumerate() {
        if v < x as u64 {
            return i;
        }
        v -= x as u64;
    }
    unreachable!()
}
pub fn coin() -> bool {
    below(2) == 1
}
pub fn word() -> u16 {
    below(65536) as u16
}
/// Groups the draws of `f` so the shrinker can remove them as one unit.
pub fn span<R>(f: impl FnOnce() -> R) -> R {
    with(|c| c.open.push(c.rec.len()));
    let r = f();
    with(|c| {
        let s = c.open.pop().expect("span");
        let e = c.rec.len();
        if e > s {
            c.spans.push((s, e));
        }
    });
    r
}

pub fn fault(name: &'static str) {
    with(|c| *c.faults.entry(name).or_insert(0) += 1);
}
/// Registers a fault kind as configured in this run, whether or not it fires.
pub fn fault_configured(name: &'static str) {
    with(|c| {
        c.faults.entry(name).or_insert(0);
    });
}
pub fn probe(name: &'static str) {
    with(|c| *c.probes.entry(name).or_insert(0) += 1);
}
pub fn probe_n(name: &'static str, n: u64) {
    with(|c| *c.probes.entry(name).or_insert(0) += n);
}
pub fn mix(v: u64) {
    with(|c| c.digest = (c.digest.rotate_left(5) ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15));
}
pub fn mix_bytes(b: &[u8]) {
    mix(b.len() as u64);
    for &x in b {
        mix(x as u64);
    }
}
/// Feeds the schedule fingerprint (which decisions and faults, when).
pub fn sched(v: u64) {
    with(|c| c.sched = (c.sched.rotate_left(7) ^ v).wrapping_mul(0xD6E8_FEB8_6659_FD93));
}
/// Records an abstract state that was reached.
pub fn state(v: u64) {
    with(|c| {
        if c.states.len() < 4096 {
            c.states.push(v)
        }
    });
}
pub fn tick(n: u64) {
    with(|c| c.time += n);
}
pub fn now() -> u64 {
    with(|c| c.time)
}
pub fn nontrivial() {
    with(|c| c.nontrivial = true);
}
pub fn tracing() -> bool {
    with(|c| c.tracing)
}
pub fn trace(f: impl FnOnce() -> String) {
    if tracing() {
        let s = f();
        if crate::guard::TapeOut::on() {
            println!("~ {}", s.replace('\n', "\\n"));
        }
        with(|c| {
            if c.trace.len() < 4000 {
                c.trace.push(s)
            } else {
                c.trace_dropped += 1
            }
        });
    }
}
