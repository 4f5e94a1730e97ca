//! Simulated devices: scripted register files at I/O ports, interrupt
//! sources whose requests the scheduler sets at each instruction boundary,
//! and a kill switch that bounds a run.
use lc3_ensemble::sim::device::{ExternalDevice, Interrupt};
use std::collections::VecDeque;
use std::sync::atomic::{AtomicU64, AtomicU8, AtomicBool, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IoEv {
    Read { dev: u32, port: u16, effectful: bool, val: Option<u16> },
    Write { dev: u32, port: u16, data: u16, ok: bool },
    Reset { dev: u32 },
}
pub type Log = Arc<Mutex<Vec<IoEv>>>;

/// A device that answers from a queue of scripted values and records every
/// access it sees.
pub struct PortDev {
    pub id: u32,
    pub log: Log,
    /// Values for the next reads; the last one repeats.
    pub script: Arc<Mutex<VecDeque<Option<u16>>>>,
    pub reject_writes: Arc<AtomicBool>,
}
impl ExternalDevice for PortDev {
    fn io_read(&mut self, port: u16, effectful: bool) -> Option<u16> {
        let mut s = self.script.lock().unwrap();
        let val = if s.len() > 1 && effectful { s.pop_front().unwrap() } else { s.front().copied().unwrap_or(None) };
        self.log.lock().unwrap().push(IoEv::Read { dev: self.id, port, effectful, val });
        val
    }
    fn io_write(&mut self, port: u16, data: u16) -> bool {
        let ok = !self.reject_writes.load(Relaxed);
        self.log.lock().unwrap().push(IoEv::Write { dev: self.id, port, data, ok });
        ok
    }
    fn io_reset(&mut self) {
        self.log.lock().unwrap().push(IoEv::Reset { dev: self.id });
    }
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        None
    }
}

#[derive(Debug)]
pub struct HostSignal;
impl std::fmt::Display for HostSignal {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("host signal")
    }
}
impl std::error::Error for HostSignal {}

/// An interrupt line driven by the scheduler. Encoded as
/// `0` = quiet, else `1<<24 | external<<16 | prio<<8 | vect`.
#[derive(Clone, Default)]
pub struct Line(pub Arc<AtomicU64>);
impl Line {
    pub fn set(&self, r: Option<crate::model::Irq>) {
        self.0.store(
            r.map_or(0, |i| 1 << 24 | (i.external as u64) << 16 | (i.prio as u64) << 8 | i.vect as u64),
            Relaxed,
        );
    }
    pub fn get(&self) -> Option<crate::model::Irq> {
        let v = self.0.load(Relaxed);
        (v != 0).then(|| crate::model::Irq { vect: v as u8, prio: (v >> 8) as u8, external: v >> 16 & 1 != 0 })
    }
}
pub struct IrqDev {
    pub line: Line,
    pub polls: Arc<AtomicU64>,
}
impl ExternalDevice for IrqDev {
    fn io_read(&mut self, _: u16, _: bool) -> Option<u16> {
        None
    }
    fn io_write(&mut self, _: u16, _: u16) -> bool {
        false
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        self.polls.fetch_add(1, Relaxed);
        let i = self.line.get()?;
        Some(if i.external { Interrupt::external(HostSignal) } else { Interrupt::vectored(i.vect, i.prio) })
    }
}

/// Raises an external interrupt once `after` polls have happened, so that no
/// simulated execution is unbounded.
#[derive(Clone)]
pub struct Kill {
    pub polls: Arc<AtomicU64>,
    pub after: Arc<AtomicU64>,
    pub fired: Arc<AtomicU8>,
}
impl Kill {
    pub fn new(after: u64) -> Self {
        Kill { polls: Arc::default(), after: Arc::new(AtomicU64::new(after)), fired: Arc::default() }
    }
    pub fn polls(&self) -> u64 {
        self.polls.load(Relaxed)
    }
    pub fn fired(&self) -> bool {
        self.fired.load(Relaxed) != 0
    }
    pub fn rearm(&self, after: u64) {
        self.after.store(self.polls() + after, Relaxed);
        self.fired.store(0, Relaxed);
    }
}
impl ExternalDevice for Kill {
    fn io_read(&mut self, _: u16, _: bool) -> Option<u16> {
        None
    }
    fn io_write(&mut self, _: u16, _: u16) -> bool {
        false
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        if self.polls.fetch_add(1, Relaxed) >= self.after.load(Relaxed) {
            self.fired.store(1, Relaxed);
            return Some(Interrupt::external(HostSignal));
        }
        None
    }
}

/// A device whose `poll_interrupt` runs a closure: the simulated clock.
pub struct ClockDev<F: FnMut() -> Option<Interrupt> + Send + Sync + 'static>(pub F);
impl<F: FnMut() -> Option<Interrupt> + Send + Sync + 'static> ExternalDevice for ClockDev<F> {
    fn io_read(&mut self, _: u16, _: bool) -> Option<u16> {
        None
    }
    fn io_write(&mut self, _: u16, _: u16) -> bool {
        false
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        (self.0)()
    }
}
