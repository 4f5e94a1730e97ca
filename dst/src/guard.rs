//! Containment of runaways: a run whose live memory exceeds a bound is parked
//! where it stands (an allocator must not unwind) and reported; a run that
//! takes the whole process down (abort, stack overflow) is found again by the
//! supervising process from the record of runs in flight.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};

pub const LIMIT: isize = 1 << 30;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static FLAG: Cell<Option<&'static AtomicBool>> = const { Cell::new(None) };
}
pub struct Counting;
#[global_allocator]
static ALLOC: Counting = Counting;

fn grow(n: usize) {
    let live = LIVE.get().saturating_add(n.min(isize::MAX as usize) as isize);
    LIVE.set(live);
    if live > LIMIT {
        if let Some(f) = FLAG.get() {
            f.store(true, SeqCst);
            loop {
                std::thread::park();
            }
        }
    }
}
fn shrink(n: usize) {
    LIVE.set(LIVE.get().saturating_sub(n as isize));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        shrink(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        shrink(l.size());
        grow(n);
        System.realloc(p, l, n)
    }
}
/// Bounds the memory of the current thread from here on.
pub fn watch(flag: &'static AtomicBool) {
    LIVE.set(0);
    FLAG.set(Some(flag));
}
pub fn unwatch() {
    FLAG.set(None);
}

/// The runs being executed (seed, 0 = none), in a file shared with the supervisor.
pub struct InFlight(Option<&'static [AtomicU64]>);
const SLOTS: usize = 64;
extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
impl InFlight {
    pub fn open() -> InFlight {
        use std::os::fd::AsRawFd;
        let map = std::env::var_os("DST_INFLIGHT").and_then(|p| {
            let f = std::fs::OpenOptions::new().read(true).write(true).open(p).ok()?;
            f.set_len(SLOTS as u64 * 16).ok()?;
            let m = unsafe { mmap(std::ptr::null_mut(), SLOTS * 16, 3, 1, f.as_raw_fd(), 0) };
            (m as isize != -1).then(|| unsafe { std::slice::from_raw_parts(m as *const AtomicU64, SLOTS * 2) })
        });
        InFlight(map)
    }
    pub fn set(&self, slot: usize, idx: u64, seed: u64) {
        if let Some(m) = self.0 {
            m[slot % SLOTS * 2].store(idx + 1, SeqCst);
            m[slot % SLOTS * 2 + 1].store(seed, SeqCst);
        }
    }
    /// (index, seed) of what was in flight.
    pub fn read(path: &std::path::Path) -> Vec<(u64, u64)> {
        let b = std::fs::read(path).unwrap_or_default();
        let at = |i: usize| u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        let mut v: Vec<_> = (0..b.len() / 16).filter(|&i| at(2 * i) != 0).map(|i| (at(2 * i) - 1, at(2 * i + 1))).collect();
        v.sort();
        v
    }
}

/// The choices of the run a child process executes, in a file that outlives it.
pub struct TapeOut;
const TAPE: usize = 1 << 20;
static OUT: std::sync::OnceLock<&'static [AtomicU64]> = std::sync::OnceLock::new();
impl TapeOut {
    pub fn open() {
        use std::os::fd::AsRawFd;
        let Some(p) = std::env::var_os("DST_TAPE_OUT") else { return };
        let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).open(p) else { return };
        if f.set_len(TAPE as u64 * 8).is_ok() {
            let m = unsafe { mmap(std::ptr::null_mut(), TAPE * 8, 3, 1, f.as_raw_fd(), 0) };
            if m as isize != -1 {
                let _ = OUT.set(unsafe { std::slice::from_raw_parts(m as *const AtomicU64, TAPE) });
            }
        }
    }
    pub fn on() -> bool {
        OUT.get().is_some()
    }
    pub fn push(n: usize, v: u64) {
        if let Some(o) = OUT.get() {
            if n < TAPE {
                o[n].store(v, Relaxed);
                o[0].store(n as u64, SeqCst);
            }
        }
    }
    pub fn read(path: &std::path::Path) -> Vec<u64> {
        let b = std::fs::read(path).unwrap_or_default();
        let at = |i: usize| u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        if b.len() < TAPE * 8 {
            return vec![];
        }
        (1..=at(0) as usize).map(at).collect()
    }
}
