//! C32: the port table. C34: timer intervals.
use super::rig::KBuf;
use crate::ctx::*;
use crate::devs::*;
use crate::ensure;
use crate::entropy;
use crate::lock::{err_name, known, REGS};
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard, ExternalDevice, NullDevice, TimerDevice};
use lc3_ensemble::sim::mem::Word;
use lc3_ensemble::sim::{InternalRegister, MemAccessCtx, SimErr, SimFlags, Simulator};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, RwLock};

// ---------------------------------------------------------------- C34

type Range = (Bound<u32>, Bound<u32>);
/// A drawn interval range with its smallest and largest value.
fn interval(small: bool) -> (Range, u64, u64) {
    use Bound::*;
    let top = if small { pick(&[4u32, 12]) } else { pick(&[3u32, 10, 60, 400]) };
    let lo = match (small, below(40)) {
        // Where narrower counters would wrap.
        (false, 0) => pick(&[0xFFF0u32, 0xFFFF, 0x1_0000, 0x1_0000, 0x1_0003, 0x1_1170, 0x2_0001]),
        (_, 1..=4) => pick(&[0x7Eu32, 0xFD, 0xFF, 0x100, 0x102, 0x200]),
        _ => below(top as u64) as u32,
    };
    let hi = lo + below(top as u64) as u32;
    match below(9) {
        0 => ((Included(lo + 1), Included(lo + 1)), lo as u64 + 1, lo as u64 + 1),
        1 => ((Included(lo), Included(hi)), lo as u64, hi as u64),
        2 => ((Included(lo), Excluded(hi + 1)), lo as u64, hi as u64),
        3 => ((Excluded(lo), Included(hi + 1)), lo as u64 + 1, hi as u64 + 1),
        4 => ((Excluded(lo), Excluded(hi + 2)), lo as u64 + 1, hi as u64 + 1),
        5 => ((Unbounded, Included(hi)), 0, hi as u64),
        6 => ((Unbounded, Excluded(hi + 1)), 0, hi as u64),
        7 => ((Included(1), Included(1 + lo % 3)), 1, 1 + lo as u64 % 3),
        _ => {
            let far = u32::MAX - lo;
            match below(3) {
                0 => ((Included(far), Included(far)), far as u64, far as u64),
                1 => ((Included(far), Unbounded), far as u64, u32::MAX as u64),
                _ => ((Excluded(far - 1), Included(u32::MAX)), far as u64, u32::MAX as u64),
            }
        }
    }
}
/// What the property allows, tracked over a timer's history.
struct Gauge {
    min: u64,
    max: u64,
    enabled: bool,
    /// Quiet polls since the last interrupt of an undisturbed stretch.
    gap: Option<u64>,
    /// Polls since the timer was enabled or reset with no interrupt yet.
    first: Option<u64>,
    fired: u64,
}
impl Gauge {
    fn new(min: u64, max: u64) -> Self {
        Gauge { min, max, enabled: false, gap: None, first: None, fired: 0 }
    }
    fn enable(&mut self, on: bool, known_range: bool) {
        if on != self.enabled {
            self.gap = None;
            // With a range changed since the count was drawn there is nothing to hold it to.
            self.first = (on && known_range).then_some(0);
        }
        self.enabled = on;
    }
    fn reset(&mut self) {
        self.gap = None;
        self.first = self.enabled.then_some(0);
    }
    fn range(&mut self, min: u64, max: u64) {
        (self.min, self.max) = (min, max);
        self.gap = None;
        self.first = None;
    }
    fn poll(&mut self, fired: bool, at: u64) -> Res {
        let (min, max) = (self.min, self.max);
        if !self.enabled {
            ensure!(!fired, "timer:disabled", "poll {at}: a disabled timer raised an interrupt");
            return Ok(());
        }
        if let Some(n) = &mut self.first {
            *n += 1;
            ensure!(*n <= max + 1 , "timer:first-late", "poll {at}: {n} polls after the timer was enabled or reset no interrupt was raised; its range is {min}..={max}");
        }
        if fired {
            if let Some(g) = self.gap {
                ensure!(g >= min, "timer:early", "poll {at}: interrupt after {g} polls, its range is {min}..={max}");
                probe("intervals checked");
            }
            self.fired += 1;
            self.first = None;
            self.gap = Some(0);
        } else if let Some(g) = &mut self.gap {
            *g += 1;
            ensure!(*g <= max, "timer:late", "poll {at}: no interrupt for {g} polls, its range is {min}..={max}");
        }
        Ok(())
    }
}

pub fn c34() -> Res {
    if coin() {
        timer_alone()
    } else {
        timer_in_machine()
    }
}

fn timer_alone() -> Res {
    let seed = crate::gen::seed();
    let stock = chance(1, 20);
    let seeded = !stock && !chance(1, 8);
    let (mut r, mut min, mut max) = interval(false);
    let mut prio0 = below(10) as u8;
    if stock {
        // What the crate hands out by default: every 50 polls, vector x81, priority 4.
        ((r, min, max), prio0) = ((((Bound::Included(50), Bound::Included(50))), 50, 50), 4);
        probe("default timers");
    }
    trace(|| format!("timer seed {seed:#x} seeded={seeded} range {r:?} ({min}..={max}) priority {prio0}"));
    let mut t = if stock { TimerDevice::default() } else { TimerDevice::new(seeded.then_some(seed), r, 0x81, prio0) };
    // The twin lives on another machine: other operating-system randomness.
    entropy::reseed(seed ^ 0xABCD_EF01);
    let mut twin = TimerDevice::new(Some(seed), r, 0x81, prio0);
    let mut g = Gauge::new(min, max);
    let (mut known_range, mut polls) = (true, 0u64);
    let ops = range(4, 24);
    for op in 0..ops {
        span(|| -> Res {
            match if op == 0 { 1 } else { weighted(&[10, 4, 2, 2, 2, 1]) } {
                0 => {
                    let n = pick(&[1u64, 2, 5, (g.max + 2).min(150_000), (3 * g.max + 7).min(400_000)]);
                    trace(|| format!("poll {n} times (from poll {polls})"));
                    for _ in 0..n {
                        polls += 1;
                        let i = t.poll_interrupt();
                        tick(1);
                        g.poll(i.is_some(), polls)?;
                        if let Some(i) = &i {
                            nontrivial();
                            mix(polls);
                            ensure!(i.priority() == Some(t.priority.min(7)), "timer:priority", "poll {polls}: priority {:?}, configured {}", i.priority(), t.priority);
                            known_range = true;
                        }
                        if seeded {
                            let j = twin.poll_interrupt();
                            ensure!(i.is_some() == j.is_some(), "timer:seed", "poll {polls}: two timers with the same seed and history differ ({} and {})", i.is_some(), j.is_some());
                        }
                    }
                }
                1 => {
                    let on = op == 0 || !chance(1, 3);
                    if on != t.enabled {
                        fault(if on { "timer enabled" } else { "timer disabled" });
                    }
                    trace(|| format!("enabled = {on}"));
                    t.enabled = on;
                    twin.enabled = on;
                    g.enable(on, known_range);
                }
                2 => {
                    let io = coin();
                    fault("timer reset");
                    trace(|| format!("reset ({})", if io { "io_reset" } else { "reset_remaining" }));
                    for x in [&mut t, &mut twin] {
                        if io {
                            x.io_reset()
                        } else {
                            x.reset_remaining()
                        }
                    }
                    known_range = true;
                    g.reset();
                }
                3 => {
                    let (r, min, max) = interval(false);
                    fault("range changed");
                    trace(|| format!("range {r:?} ({min}..={max})"));
                    if min == max {
                        t.set_exact(min as u32);
                        twin.set_exact(min as u32);
                    } else {
                        t.set_range(r);
                        twin.set_range(r);
                    }
                    known_range = false;
                    g.range(min, max);
                    if coin() {
                        t.reset_remaining();
                        twin.reset_remaining();
                        known_range = true;
                        g.reset();
                    }
                }
                4 => {
                    // A timer is no memory-mapped device.
                    let a = word();
                    ensure!(t.io_read(a, coin()).is_none() && !t.io_write(a, word()), "timer:io", "the timer answered an I/O access");
                    probe("timer as an I/O port");
                }
                _ => {
                    t.priority = below(12) as u8;
                    t.vect = word() as u8;
                }
            }
            sched(op << 32 | polls);
            Ok(())
        })?;
    }
    state(min.min(500) | max.min(1000) << 10 | g.fired.min(40) << 20 | (seeded as u64) << 28);
    Ok(())
}

/// The same timer inside the machine: taken at exactly the cycles a twin
/// polled by hand predicts.
fn timer_in_machine() -> Res {
    let seed = crate::gen::seed();
    let (r, min, max) = interval(true);
    let vect = pick(&[0x00u8, 0x01, 0x02, 0x03, 0x80, 0x81, 0x90, 0xFF]);
    let prio = below(9) as u8;
    let flags = SimFlags {
        strict: false,
        use_real_traps: coin(),
        machine_init: known(0),
        debug_frames: coin(),
        ignore_privilege: coin(),
    };
    let dev = Arc::new(RwLock::new(TimerDevice::new(Some(seed), r, vect, prio)));
    entropy::reseed(seed ^ 0x1357);
    let mut twin = TimerDevice::new(Some(seed), r, vect, prio);
    let mut sim = Simulator::new(flags);
    let _ = sim.device_handler.add_device(dev.clone(), &[]);
    let rival = Line::default();
    let with_rival = chance(1, 3);
    if with_rival {
        let _ = sim.device_handler.add_device(IrqDev { line: rival.clone(), polls: Default::default() }, &[]);
    }
    const HANDLER: u16 = 0x1000;
    const OTHER: u16 = 0x1800;
    let body = below(5) as u16;
    let level = below(8) as u16;
    let load = |sim: &mut Simulator| {
        for i in 0..20u16 {
            sim.mem[0x3000 + i].set(0x1021); // ADD R0, R0, #1
        }
        sim.mem[0x3014].set(0x0FEB); // BR back
        for i in 0..body {
            sim.mem[HANDLER + i].set(0x1261);
        }
        sim.mem[HANDLER + body].set(0x8000);
        sim.mem[OTHER].set(0x8000);
        sim.mem[0x100 + vect as u16].set(HANDLER);
        sim.mem[0x170].set(OTHER);
        let _ = sim.write_mem(0xFFFC, Word::new_init(0x8002 | level << 8), crate::lock::omni());
        sim.reg_file[REGS[6]].set(0xF000);
    };
    load(&mut sim);
    let mut g = Gauge::new(min, max);
    let mut known_range = true;
    let mut cycles = 0u64;
    trace(|| format!("in the machine: seed {seed:#x} range {r:?} vect x{vect:02x} priority {prio} level {level} handler {} instructions", body + 1));
    for op in 0..range(3, 16) {
        span(|| -> Res {
            match if op == 0 { 1 } else { weighted(&[10, 3, 2, 2, 1]) } {
                0 => {
                    let n = pick(&[1u64, 4, 30, 90]);
                    let locked = chance(1, 10);
                    let guard = locked.then(|| dev.read().unwrap());
                    if locked {
                        fault("timer locked by another thread");
                    }
                    for _ in 0..n {
                        let other = with_rival && chance(1, 6);
                        let op_prio = below(8) as u8;
                        rival.set(other.then_some(crate::model::Irq { vect: 0x70, prio: op_prio, external: false }));
                        let want = !locked && twin.poll_interrupt().is_some();
                        if !locked {
                            g.poll(want, cycles)?;
                        }
                        let cur = sim.psr().priority();
                        let p = prio.min(7);
                        let depth = sim.frame_stack.len();
                        cycles += 1;
                        tick(1);
                        if let Err(e) = sim.step_in() {
                            return viol("timer:error", format!("cycle {cycles}: step failed with {}", err_name(&Err(e))));
                        }
                        let in_timer = sim.pc == HANDLER && sim.psr().priority() == p && sim.frame_stack.len() == depth + 1;
                        // An equal-priority rival may win.
                        let must = want && p > cur && !(other && op_prio >= p);
                        let may = want && p > cur && !(other && op_prio > p);
                        ensure!(!must || in_timer, "timer:not-taken", "cycle {cycles}: the timer fires at priority {p} over level {cur}, but no interrupt is taken");
                        ensure!(may || !in_timer, "timer:spurious", "cycle {cycles}: a timer interrupt is taken when a timer of the same seed and history raises none");
                        if in_timer {
                            nontrivial();
                            probe("timer interrupts taken");
                            mix(cycles);
                        }
                        if want && !in_timer {
                            probe("timer interrupts masked or outranked");
                        }
                        state(cur as u64 | (p as u64) << 3 | (in_timer as u64) << 6 | (want as u64) << 7 | (other as u64) << 8 | (sim.pc as u64 & 0x1FF) << 9);
                    }
                    drop(guard);
                }
                1 => {
                    let on = op == 0 || !chance(1, 3);
                    fault(if on { "timer enabled" } else { "timer disabled" });
                    dev.write().unwrap().enabled = on;
                    twin.enabled = on;
                    g.enable(on, known_range);
                }
                2 => {
                    fault("machine reset");
                    sim.reset();
                    twin.io_reset();
                    load(&mut sim);
                    g.reset();
                    known_range = true;
                }
                3 => {
                    let (r, min, max) = interval(true);
                    fault("range changed");
                    dev.write().unwrap().set_range(r);
                    twin.set_range(r);
                    g.range(min, max);
                    known_range = false;
                }
                _ => {
                    fault("timer reset");
                    dev.write().unwrap().reset_remaining();
                    twin.reset_remaining();
                    g.reset();
                    known_range = true;
                }
            }
            sched(op << 32 | cycles);
            Ok(())
        })?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C32

/// What a port reaches, in the model.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Owner {
    Nobody,
    Dev(usize),
}
struct Dev {
    id: u16,
    log: Log,
    script: Arc<std::sync::Mutex<std::collections::VecDeque<Option<u16>>>>,
    reject: Arc<std::sync::atomic::AtomicBool>,
    /// Set when the device hides behind a lock the host can hold.
    lock: Option<Arc<RwLock<PortDev>>>,
    alive: bool,
}

const IO: u16 = 0xFE00;
fn port() -> u16 {
    match weighted(&[8, 5, 3, 3, 2, 3]) {
        0 => 0xFE10 + below(6) as u16,
        1 => pick(&[0xFE00, 0xFE02, 0xFE04, 0xFE06]),
        2 => pick(&[0xFE01, 0xFE03, 0xFE05, 0xFE07]),
        3 => pick(&[0xFFFC, 0xFFFE, 0xFFFF, 0xFFF0]),
        4 => IO + below(0x200) as u16,
        _ => pick(&[0xFDFF, 0xFDFE, 0x0000, 0x2FFF, 0x3000, 0x0010, 0x7E10]),
    }
}

struct Table {
    sim: Simulator,
    devs: Vec<Dev>,
    ports: BTreeMap<u16, u16>,
    iregs: BTreeMap<u16, InternalRegister>,
    /// device id -> index in devs, for ids owned by recording devices
    by_id: BTreeMap<u16, usize>,
    next_tag: u32,
    ssp: u16,
    kbuf: KBuf,
    dbuf: Arc<RwLock<Vec<u8>>>,
    /// The fixed slots hold: a recorder (index), the buffered device, or nothing.
    last_id: u16,
    used: BTreeSet<u16>,
    buffered: [bool; 2],
}
impl Table {
    fn given(&mut self, id: u16) -> Res {
        ensure!(self.used.insert(id), "ports:id-reused", "a new device got id {id}, which was given out before");
        self.last_id = id;
        Ok(())
    }
    fn owner(&self, a: u16) -> Owner {
        match self.ports.get(&a).and_then(|id| self.by_id.get(id)) {
            Some(&i) => Owner::Dev(i),
            None => Owner::Nobody,
        }
    }
    fn recorder(&mut self) -> PortDev {
        let tag = self.next_tag;
        self.next_tag += 1;
        let n = below(4);
        let script = (0..=n).map(|_| (!chance(1, 4)).then(word)).collect();
        PortDev {
            id: tag,
            log: Log::default(),
            script: Arc::new(std::sync::Mutex::new(script)),
            reject_writes: Arc::new(chance(1, 4).into()),
        }
    }
    fn register(&mut self, id: u16, d: &PortDev, lock: Option<Arc<RwLock<PortDev>>>) {
        self.by_id.insert(id, self.devs.len());
        self.devs.push(Dev { id, log: d.log.clone(), script: d.script.clone(), reject: d.reject_writes.clone(), lock, alive: true });
    }
    fn ireg_value(&self, r: InternalRegister) -> u16 {
        match r {
            InternalRegister::PC => self.sim.pc,
            InternalRegister::PSR => self.sim.psr().get(),
            InternalRegister::MCR => (self.sim.mcr().load(Relaxed) as u16) << 15,
            InternalRegister::SavedSP => self.ssp,
        }
    }
    fn drain_logs(&self) -> Vec<(usize, IoEv)> {
        let mut v = vec![];
        for (i, d) in self.devs.iter().enumerate() {
            for e in d.log.lock().unwrap().drain(..) {
                v.push((i, e));
            }
        }
        v
    }
}

/// A port something sits at, half of the time.
fn likely_port(t: &Table) -> u16 {
    let n = t.ports.len() + t.iregs.len();
    match below(4) {
        0 | 1 => port(),
        2 if !t.iregs.is_empty() => *t.iregs.keys().nth(below(t.iregs.len() as u64) as usize).unwrap(),
        _ => *t.ports.keys().chain(t.iregs.keys()).nth(below(n as u64) as usize).unwrap(),
    }
}
fn ctx_of() -> MemAccessCtx {
    MemAccessCtx { privileged: !chance(1, 6), strict: chance(1, 5), io_effects: !chance(1, 3), track_access: coin() }
}

pub fn c32() -> Res {
    let mut sim = Simulator::new(SimFlags { machine_init: known(0x5A5A), ignore_privilege: coin(), ..Default::default() });
    sim.mcr().store(true, Relaxed);
    let (kbuf, dbuf): (KBuf, Arc<RwLock<Vec<u8>>>) = Default::default();
    let mut t = Table {
        ports: [(0xFE00, 1), (0xFE02, 1), (0xFE04, 2), (0xFE06, 2)].into_iter().collect(),
        iregs: [(0xFFFC, InternalRegister::PSR), (0xFFFE, InternalRegister::MCR)].into_iter().collect(),
        sim,
        devs: vec![],
        by_id: BTreeMap::new(),
        next_tag: 0,
        ssp: 0x3000,
        kbuf,
        dbuf,
        last_id: 2,
        used: [0, 1, 2].into(),
        buffered: [false, false],
    };
    let ops = range(4, 60);
    if chance(1, 30) {
        // Many devices: ids at and past every narrow integer, up to the last one.
        let to = match below(8) {
            0 if chance(1, 8) => range(65_528, 65_535),
            1 | 2 => pick(&[127u64, 511, 767, 1023]) + below(5) - 1,
            3 => range(300, 600),
            _ => range(252, 258),
        };
        fault("hundreds of devices attached");
        for _ in 3..to {
            match t.sim.device_handler.add_device(NullDevice, &[]) {
                Ok(id) => t.given(id)?,
                Err(_) => return viol("ports:add", "a device that requests no port was refused".to_string()),
            }
        }
    }
    for op in 0..ops {
        tick(1);
        let r: Res<bool> = span(|| one_port_op(&mut t, op));
        if !r? {
            break;
        }
    }
    Ok(())
}

fn one_port_op(t: &mut Table, op: u64) -> Res<bool> {
    let kind = weighted(&[6, 4, 3, 4, 3, 12, 12, 4, 1, 1]);
    sched(op << 8 | kind as u64);
    match kind {
        0 => {
            let addrs: Vec<u16> = (0..below(5)).map(|_| port()).collect();
            let legal = addrs.iter().all(|a| *a >= IO && !t.ports.contains_key(a));
            let d = t.recorder();
            let tag = d.id;
            let shared = coin();
            trace(|| format!("add device {tag} at {addrs:04x?}{}", if shared { " (behind a lock)" } else { "" }));
            let (log, script, rej) = (d.log.clone(), d.script.clone(), d.reject_writes.clone());
            let twin = PortDev { id: tag, log, script, reject_writes: rej };
            let (res, lock) = if shared {
                let l = Arc::new(RwLock::new(d));
                (t.sim.device_handler.add_device(l.clone(), &addrs).map_err(|_| ()), Some(l))
            } else {
                (t.sim.device_handler.add_device(d, &addrs).map_err(|_| ()), None)
            };
            match res {
                Ok(id) => {
                    ensure!(legal, "ports:add", "a device was added at {addrs:04x?} although a port is no I/O address or is owned");
                    t.given(id)?;
                    for &a in &addrs {
                        t.ports.insert(a, id);
                    }
                    t.register(id, &twin, lock);
                    probe("devices added");
                }
                // Every id has been given out once.
                Err(()) if t.used.len() == 1 << 16 => probe("devices refused for want of an id"),
                Err(()) => {
                    ensure!(!legal, "ports:add", "a device was refused ports {addrs:04x?}, all free I/O addresses");
                    probe("devices refused");
                }
            }
        }
        1 => {
            let id = match below(6) {
                0 => below(4) as u16,
                1 => t.last_id.wrapping_add(below(3) as u16),
                2 if coin() => t.last_id ^ pick(&[0x80u16, 0x100, 0x200, 0xFF00, 0x8000]),
                2 => word(),
                _ if t.devs.is_empty() => 0,
                _ => t.devs[below(t.devs.len() as u64) as usize].id,
            };
            trace(|| format!("remove device {id}"));
            t.sim.device_handler.remove_device(id);
            if let Some(i) = t.by_id.remove(&id) {
                t.devs[i].alive = false;
                fault("device removed");
            }
            if id > 2 {
                t.ports.retain(|_, o| *o != id);
            } else if id > 0 {
                t.buffered[id as usize - 1] = false;
            }
        }
        2 => {
            let slot = 1 + below(2) as u16;
            if let Some(i) = t.by_id.remove(&slot) {
                t.devs[i].alive = false;
            }
            t.buffered[slot as usize - 1] = false;
            let what = below(4);
            fault("keyboard or display replaced");
            trace(|| format!("set {} to {}", if slot == 1 { "keyboard" } else { "display" }, ["a recorder", "nothing", "a buffered device", "a locked recorder"][what as usize]));
            match what {
                1 if slot == 1 => t.sim.device_handler.set_keyboard(NullDevice),
                1 => t.sim.device_handler.set_display(NullDevice),
                2 if slot == 1 => {
                    t.buffered[0] = true;
                    t.sim.device_handler.set_keyboard(BufferedKeyboard::new(t.kbuf.clone()))
                }
                2 => {
                    t.buffered[1] = true;
                    t.sim.device_handler.set_display(BufferedDisplay::new(t.dbuf.clone()))
                }
                _ => {
                    let d = t.recorder();
                    let twin = PortDev { id: d.id, log: d.log.clone(), script: d.script.clone(), reject_writes: d.reject_writes.clone() };
                    let lock = if what == 3 {
                        let l = Arc::new(RwLock::new(d));
                        if slot == 1 {
                            t.sim.device_handler.set_keyboard(l.clone())
                        } else {
                            t.sim.device_handler.set_display(l.clone())
                        }
                        Some(l)
                    } else {
                        if slot == 1 {
                            t.sim.device_handler.set_keyboard(d)
                        } else {
                            t.sim.device_handler.set_display(d)
                        }
                        None
                    };
                    t.register(slot, &twin, lock);
                }
            }
        }
        3 => {
            let a = port();
            let r = pick(&[InternalRegister::PC, InternalRegister::PSR, InternalRegister::MCR, InternalRegister::SavedSP]);
            trace(|| format!("map {r:?} at x{a:04X}"));
            let ok = t.sim.mmap_internal(a, r).is_ok();
            // A port owned by a device may be refused or overlaid.
            if a < IO || t.iregs.contains_key(&a) {
                ensure!(!ok, "ports:mmap", "mapping {r:?} at x{a:04X} succeeded");
            } else if !t.ports.contains_key(&a) {
                ensure!(ok, "ports:mmap", "mapping {r:?} at the free address x{a:04X} failed");
            }
            if ok {
                t.iregs.insert(a, r);
                probe("internal registers mapped");
            }
        }
        4 => {
            let a = if chance(1, 2) || t.iregs.is_empty() {
                port()
            } else {
                let k: Vec<u16> = t.iregs.keys().copied().collect();
                pick(&k)
            };
            trace(|| format!("unmap x{a:04X}"));
            let had = t.iregs.remove(&a).is_some();
            ensure!(t.sim.munmap_internal(a) == had, "ports:munmap", "unmapping x{a:04X} reports {}, a register was {}mapped there", !had, if had { "" } else { "not " });
        }
        5 | 6 => return access(t, kind == 6).map(|_| true),
        7 => return by_instruction(t),
        8 => {
            let held = lock_some(t, None);
            trace(|| "reset".to_string());
            fault("machine reset");
            t.sim.reset();
            t.ssp = 0x3000;
            t.sim.mcr().store(true, Relaxed);
            for (i, e) in t.drain_logs() {
                ensure!(matches!(e, IoEv::Reset { .. }), "ports:stray", "reset made device {} see {e:?}", t.devs[i].id);
            }
            drop(held);
        }
        _ if coin() => t.kbuf.write().unwrap().extend([0x61, 0x62, 0x63]),
        _ => {
            // Fresh script for some device.
            if !t.devs.is_empty() {
                let i = below(t.devs.len() as u64) as usize;
                let n = below(3);
                *t.devs[i].script.lock().unwrap() = (0..=n).map(|_| (!chance(1, 4)).then(word)).collect();
                t.devs[i].reject.store(chance(1, 3), Relaxed);
            }
        }
    }
    let stray = t.drain_logs();
    ensure!(stray.is_empty(), "ports:stray", "a configuration change made a device see {:?}", stray);
    state(kind as u64 | (t.ports.len().min(31) as u64) << 4 | (t.iregs.len().min(7) as u64) << 9 | (t.by_id.len().min(15) as u64) << 12);
    Ok(true)
}

/// Holds the lock of the device at the port for the duration of an access.
fn lock_some(t: &Table, a: Option<u16>) -> Option<(usize, Arc<RwLock<PortDev>>)> {
    let Some(a) = a else { return None };
    let Owner::Dev(i) = t.owner(a) else { return None };
    let l = t.devs[i].lock.clone()?;
    chance(1, 4).then_some((i, l))
}

fn access(t: &mut Table, write: bool) -> Res {
    let a = likely_port(t);
    let ctx = ctx_of();
    let data = if chance(1, 8) { Word::new_uninit(&mut ()) } else { Word::new_init(word()) };
    let locked = lock_some(t, Some(a));
    let guard = locked.as_ref().map(|(_, l)| l.read().unwrap());
    if guard.is_some() {
        fault("device locked by another thread");
    }
    let is_locked = guard.is_some();
    let before = t.sim.mem[a];
    let want_reg = t.iregs.get(&a).copied();
    let reg_val = want_reg.map(|r| t.ireg_value(r));
    let owner = t.owner(a);
    let frozen = (t.sim.pc, t.sim.psr().get(), t.sim.mcr().load(Relaxed));
    let (kb, db) = (t.kbuf.read().unwrap().len(), t.dbuf.read().unwrap().len());
    let what = format!(
        "{} x{a:04X} (privileged={} strict={} effects={}) mapped to {want_reg:?}, owned by {owner:?}{}",
        if write { "write" } else { "read" },
        ctx.privileged,
        ctx.strict,
        ctx.io_effects,
        if is_locked { ", locked" } else { "" }
    );
    trace(|| what.clone());
    let res: Result<Option<Word>, SimErr> =
        if write { t.sim.write_mem(a, data, ctx).map(|_| None) } else { t.sim.read_mem(a, ctx).map(Some) };
    drop(guard);
    let evs = t.drain_logs();
    let after = t.sim.mem[a];
    mix(a as u64 | (after.get() as u64) << 16 | (res.is_ok() as u64) << 32 | (evs.len() as u64) << 40);
    let user = (0x3000..IO).contains(&a);
    state(1 << 30 | a as u64 | (want_reg.is_some() as u64) << 16 | (write as u64) << 17 | (is_locked as u64) << 18 | ((owner != Owner::Nobody) as u64) << 19);
    // Refused before it reaches anything.
    let err = if !ctx.privileged && !user {
        Some("AccessViolation")
    } else if write && ctx.strict && !data.is_init() {
        Some(if a >= IO { "StrictIOSetUninit" } else { "StrictMemSetUninit" })
    } else {
        None
    };
    if let Some(e) = err {
        let got = err_name(&res.map(|_| ()));
        // At an owner-less or refusing port the write may end before the check.
        if a < IO || ctx.privileged {
            ensure!(got == e || (a >= IO && got == "Ok" && want_reg.is_none()), "ports:error", "{what}: returned {got}, expected {e}");
        } else {
            ensure!(got == e, "ports:error", "{what}: returned {got}, expected {e}");
        }
        ensure!(evs.is_empty(), "ports:refused-reached", "{what}: refused, but a device saw {evs:?}");
        ensure!(after == before, "ports:refused-wrote", "{what}: refused, but memory changed");
        probe("accesses refused");
        return Ok(());
    }
    let got = match res {
        Ok(g) => g,
        Err(e) => return viol("ports:error", format!("{what}: failed with {}", err_name(&Err(e)))),
    };
    let psr_same = |t: &Table| (t.sim.pc, t.sim.psr().get(), t.sim.mcr().load(Relaxed)) == frozen;
    if a < IO {
        ensure!(evs.is_empty(), "ports:not-io", "{what}: a device saw {evs:?}");
        ensure!(psr_same(t), "ports:not-io", "{what}: an internal register changed");
        let want = if write { data } else { before };
        ensure!(after == want && got.is_none_or(|g| g == before), "ports:plain-memory", "{what}: plain memory misbehaved");
        return Ok(());
    }
    nontrivial();
    let nothing_else = |t: &Table| kb == t.kbuf.read().unwrap().len() && db == t.dbuf.read().unwrap().len();
    if let Some(r) = want_reg {
        probe("accesses to an internal register");
        ensure!(evs.is_empty() && nothing_else(t), "ports:ireg-first", "{what}: the device behind a mapped register saw {evs:?}");
        if write {
            let v = data.get();
            match r {
                InternalRegister::PC => ensure!(t.sim.pc == v, "ports:ireg-write", "{what}: PC is x{:04X} after writing x{v:04X}", t.sim.pc),
                InternalRegister::PSR => ensure!(
                    (t.sim.psr().get() ^ v) & if (v & 7).count_ones() == 1 { 0x8707 } else { 0x8700 } == 0,
                    "ports:ireg-write",
                    "{what}: PSR is x{:04X} after writing x{v:04X}",
                    t.sim.psr().get()
                ),
                InternalRegister::MCR => ensure!(t.sim.mcr().load(Relaxed) == (v >> 15 == 1), "ports:ireg-write", "{what}: MCR not set from x{v:04X}"),
                InternalRegister::SavedSP => t.ssp = v,
            }
            let (pc, psr, mcr) = frozen;
            let now = (t.sim.pc, t.sim.psr().get(), t.sim.mcr().load(Relaxed));
            ensure!(
                (r == InternalRegister::PC || now.0 == pc) && (r == InternalRegister::PSR || now.1 == psr) && (r == InternalRegister::MCR || now.2 == mcr),
                "ports:ireg-write",
                "{what}: another register changed"
            );
        } else {
            ensure!(got.map(|g| g.get()) == reg_val, "ports:ireg-read", "{what}: read x{:04X}, the register holds x{:04X}", got.unwrap().get(), reg_val.unwrap());
            ensure!(psr_same(t), "ports:ireg-read", "{what}: a register changed");
        }
        return Ok(());
    }
    ensure!(psr_same(t), "ports:wrong-target", "{what}: an internal register changed");
    match owner {
        Owner::Dev(i) if !is_locked => {
            probe("accesses to a device");
            let want = match evs.as_slice() {
                [(j, IoEv::Read { port: p, effectful, val, .. })] if !write && *j == i && *p == a && *effectful == ctx.io_effects => Some((*val).map(Word::new_init)),
                [(j, IoEv::Write { port: p, data: d, ok, .. })] if write && *j == i && *p == a && *d == data.get() => Some(ok.then_some(data)),
                _ => None,
            };
            let Some(effect) = want else {
                return viol("ports:dispatch", format!("{what}: devices saw {evs:?}"));
            };
            ensure!(nothing_else(t), "ports:dispatch", "{what}: the keyboard or display buffer changed");
            match effect {
                Some(v) => {
                    ensure!(after.get() == v.get(), "ports:value", "{what}: memory holds x{:04X}, the device {} x{:04X}", after.get(), if write { "took" } else { "answered" }, v.get());
                    ensure!(got.is_none_or(|g| g.get() == v.get()), "ports:value", "{what}: read x{:04X}, the device answered x{:04X}", got.unwrap().get(), v.get());
                }
                None => ensure!(after == before && got.is_none_or(|g| g == before), "ports:refused-wrote", "{what}: the device took nothing, but memory changed"),
            }
        }
        _ => {
            ensure!(evs.is_empty(), "ports:dispatch", "{what}: nothing should be reached, but devices saw {evs:?}");
            let buffered = t.ports.get(&a).is_some_and(|id| *id <= 2 && t.buffered[*id as usize - 1]);
            if buffered {
                probe("accesses to a buffered device");
                let (k, d) = (t.kbuf.read().unwrap().len(), t.dbuf.read().unwrap().len());
                let taken = a == 0xFE02 && !write && ctx.io_effects && kb > 0;
                let shown = a == 0xFE06 && write;
                ensure!(kb - k == taken as usize, "ports:buffered", "{what}: the keyboard buffer went from {kb} to {k} bytes");
                ensure!(d - db == shown as usize, "ports:buffered", "{what}: the display buffer went from {db} to {d} bytes");
                return Ok(());
            }
            ensure!(nothing_else(t), "ports:dispatch", "{what}: the keyboard or display buffer changed");
            probe(if is_locked { "accesses to a locked device" } else { "accesses to nothing" });
            ensure!(after == before, "ports:nobody-wrote", "{what}: nothing is there, but memory changed from x{:04X} to x{:04X}", before.get(), after.get());
            ensure!(got.is_none_or(|g| g == before), "ports:nobody-read", "{what}: read x{:04X} from nothing", got.unwrap().get());
        }
    }
    Ok(())
}

/// The same through executed LDR and STR instructions.
fn by_instruction(t: &mut Table) -> Res<bool> {
    let a = IO | likely_port(t);
    let write = coin();
    let v = word();
    let sim = &mut t.sim;
    sim.mem[0x4000].set(if write { 0x7040 } else { 0x6040 }); // STR/LDR R0, R1, #0
    sim.reg_file[REGS[0]].set(v);
    sim.reg_file[REGS[1]].set(a);
    sim.pc = 0x4000;
    let psr = sim.psr().get();
    let privileged = psr >> 15 == 0 || sim.flags.ignore_privilege;
    sim.mcr().store(true, Relaxed);
    let depth = sim.frame_stack.len();
    let r = sim.step_in();
    if r.is_ok() && sim.frame_stack.len() > depth && t.buffered[0] {
        probe("keyboard interrupt instead of the access");
        return Ok(false);
    }
    let evs = t.drain_logs();
    let what = format!("{} x{a:04X} by an instruction", if write { "STR to" } else { "LDR from" });
    trace(|| what.clone());
    if !privileged {
        ensure!(err_name(&r) == "AccessViolation" && evs.is_empty() || r.is_ok(), "ports:error", "{what} in user mode: {} and devices saw {evs:?}", err_name(&r));
        ensure!(evs.is_empty(), "ports:refused-reached", "{what} in user mode: devices saw {evs:?}");
        // The exception handler pushed on a stack nobody set up; start over.
        return Ok(false);
    }
    ensure!(r.is_ok(), "ports:error", "{what}: failed with {}", err_name(&r));
    if let Some(reg) = t.iregs.get(&a).copied() {
        ensure!(evs.is_empty(), "ports:ireg-first", "{what}: the device behind a mapped register saw {evs:?}");
        if !write {
            let want = match reg {
                InternalRegister::PC => 0x4001,
                InternalRegister::PSR => psr,
                InternalRegister::MCR => 0x8000,
                InternalRegister::SavedSP => t.ssp,
            };
            let got = t.sim.reg_file[REGS[0]].get();
            ensure!(got == want, "ports:ireg-read", "{what}: loaded x{got:04X}, {reg:?} holds x{want:04X}");
        } else if reg == InternalRegister::SavedSP {
            t.ssp = v;
        }
        probe("instructions on an internal register");
        return Ok(true);
    }
    match t.owner(a) {
        Owner::Dev(i) => {
            let good = match evs.as_slice() {
                [(j, IoEv::Read { port: p, effectful: true, val, .. })] if !write && *j == i && *p == a => {
                    val.is_none_or(|x| t.sim.reg_file[REGS[0]].get() == x)
                }
                [(j, IoEv::Write { port: p, data, .. })] if write && *j == i && *p == a => *data == v,
                _ => false,
            };
            ensure!(good, "ports:dispatch", "{what}: device {i} owns it; devices saw {evs:?}, R0 is x{:04X}", t.sim.reg_file[REGS[0]].get());
            probe("instructions on a device");
        }
        Owner::Nobody => ensure!(evs.is_empty(), "ports:dispatch", "{what}: nobody owns it; devices saw {evs:?}"),
    }
    t.sim.mcr().store(true, Relaxed);
    Ok(true)
}
