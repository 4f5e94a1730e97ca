//! C33: another thread holds the keyboard or display lock at arbitrary
//! boundaries, types, drains the display, or dies with the lock held.
use super::rig::*;
use crate::ctx::*;
use crate::ensure;
use crate::lock::known;
use crate::prog::*;
use lc3_ensemble::sim::device::ExternalDevice;
use lc3_ensemble::sim::SimFlags;
use std::collections::VecDeque;
use std::sync::{RwLock, RwLockReadGuard, RwLockWriteGuard, TryLockError};

/// The guards another thread may hold while the machine executes.
#[allow(dead_code)]
enum Guard<'a, T> {
    R(RwLockReadGuard<'a, T>),
    W(RwLockWriteGuard<'a, T>),
}
struct Held<'a, T> {
    lock: &'a RwLock<T>,
    guard: Option<Guard<'a, T>>,
    left: u64,
    /// Probability of taking the lock at a boundary (1 in `rate`), 0 = never.
    rate: u64,
    max: u64,
}
fn write<T>(l: &RwLock<T>) -> RwLockWriteGuard<'_, T> {
    match l.try_write() {
        Ok(g) => g,
        Err(TryLockError::Poisoned(e)) => e.into_inner(),
        Err(TryLockError::WouldBlock) => panic!("harness: the simulator kept a buffer lock"),
    }
}
fn read<T>(l: &RwLock<T>) -> RwLockReadGuard<'_, T> {
    match l.try_read() {
        Ok(g) => g,
        Err(TryLockError::Poisoned(e)) => e.into_inner(),
        Err(TryLockError::WouldBlock) => panic!("harness: the simulator kept a buffer lock"),
    }
}
impl<'a, T> Held<'a, T> {
    fn new(lock: &'a RwLock<T>, rate: u64) -> Self {
        Held { lock, guard: None, left: 0, rate, max: pick(&[1, 1, 2, 6, 40]) }
    }
    /// One boundary: maybe releases, uses, or takes the lock.
    fn boundary(&mut self, at: u64, faults: bool, name: &'static str) {
        if self.guard.is_some() {
            self.left -= 1;
            if self.left == 0 || !faults {
                self.guard = None;
            }
        }
        if faults && self.guard.is_none() && self.rate > 0 && chance(1, self.rate) {
            self.left = range(1, self.max);
            self.guard = Some(if coin() { Guard::R(read(self.lock)) } else { Guard::W(write(self.lock)) });
            fault(name);
            sched(at << 8 | self.left);
        }
    }
    /// Runs `f` on the contents, as the lock's holder or by taking it briefly.
    fn with(&mut self, f: impl FnOnce(&mut T)) {
        match &mut self.guard {
            Some(Guard::W(g)) => f(g),
            Some(Guard::R(_)) => {
                self.guard = None;
                f(&mut write(self.lock));
                self.guard = Some(Guard::R(read(self.lock)));
            }
            None => f(&mut write(self.lock)),
        }
    }
    fn poison(&mut self) {
        self.guard = None;
        let l = self.lock;
        let _ = crate::engine::guarded(|| {
            let _g = write(l);
            std::panic::panic_any("the other thread dies");
        });
        fault("lock poisoned by a dying thread");
    }
}

/// Everything the other thread does.
pub struct Other<'a> {
    kb: Held<'a, VecDeque<u8>>,
    ds: Held<'a, Vec<u8>>,
    /// Bytes still to be typed.
    pub to_type: VecDeque<u8>,
    type_rate: u64,
    drain: bool,
    pub drained: Vec<u8>,
    poison: u64,
    /// Boundary after which nothing goes wrong any more.
    pub calm_after: u64,
    pub at: u64,
    pub log: Vec<(u64, &'static str)>,
}
impl<'a> Other<'a> {
    pub fn new(kbuf: &'a RwLock<VecDeque<u8>>, dbuf: &'a RwLock<Vec<u8>>, input: &[u8], hostile: bool) -> Other<'a> {
        span(|| {
            let rates: &[u64] = if hostile { &[2, 2, 3, 6, 20, 0] } else { &[0, 4, 20] };
            let (rk, rd) = (pick(rates), pick(rates));
            Other {
                kb: Held::new(kbuf, rk),
                ds: Held::new(dbuf, rd),
                to_type: input.iter().copied().collect(),
                type_rate: pick(&[1, 3, 10, 30]),
                drain: hostile && chance(1, 4),
                drained: vec![],
                poison: if chance(1, 5) { range(10, 200) } else { 0 },
                calm_after: range(1, if hostile { 1200 } else { 600 }),
                at: 0,
                log: vec![],
            }
        })
    }
    /// Called at every instruction boundary; the guards it leaves held are
    /// held while the next instruction executes.
    pub fn boundary(&mut self) {
        self.at += 1;
        let hot = self.at <= self.calm_after;
        let at = self.at;
        span(|| {
            if hot && self.poison > 0 && chance(1, self.poison) {
                if coin() {
                    self.kb.poison()
                } else {
                    self.ds.poison()
                }
            }
            self.kb.boundary(at, hot, "keyboard lock held across an instruction");
            self.ds.boundary(at, hot, "display lock held across an instruction");
            if let Some(&b) = self.to_type.front() {
                if !hot || chance(1, self.type_rate) {
                    self.to_type.pop_front();
                    self.kb.with(|q| q.push_back(b));
                    fault("key typed at a boundary");
                    sched(at << 8 | 0xF0);
                }
            }
            if self.drain && hot && chance(1, 20) {
                let mut v = vec![];
                self.ds.with(|d| v = std::mem::take(d));
                self.drained.extend(v);
                fault("display drained by the other thread");
            }
        });
        if hot {
            trace(|| format!("boundary {at}: keyboard {}, display {}", held(&self.kb), held(&self.ds)));
        }
    }
    pub fn release(&mut self) {
        self.kb.guard = None;
        self.ds.guard = None;
    }
}
fn held<T>(h: &Held<T>) -> &'static str {
    match h.guard {
        None => "free",
        Some(Guard::R(_)) => "held for reading",
        Some(Guard::W(_)) => "held for writing",
    }
}

/// Instructions between a readiness check and the data access.
fn filler(a: &mut Asm) {
    for _ in 0..pick(&[0u64, 0, 0, 1, 2, 5]) {
        match below(3) {
            0 => a.addi(2, 2, 1),
            1 => a.not(3, 2),
            _ => a.and(3, 2, 3),
        }
    }
}

struct Echo {
    asm: Asm,
    /// Interrupt handler, when the program is interrupt-driven.
    handler: Option<Asm>,
    expect: Vec<u8>,
}
pub const RECV: u16 = 0x5000;

/// What the upper half of a word written to the display holds.
fn upper() -> u16 {
    pick(&[0u16, 0, 0x8000, 0x4100, 0xFF00, 0x0100])
}
/// Polls the device registers itself; needs I/O access. At a priority that
/// masks the keyboard it may enable and disable the interrupt as well.
fn direct(n: u16, input: &[u8], masked: bool) -> Echo {
    let mut a = Asm::new(0x3000);
    let echo = below(3);
    let [kbsr, kbdr, dsr, ddr, hi, on, off] = std::array::from_fn(|_| a.label());
    let (toggles, hi_word) = (chance(1, 3), upper());
    let toggle = |a: &mut Asm| {
        if toggles && coin() {
            a.ld(7, if coin() { on } else { off });
            a.sti(7, kbsr);
            fault("keyboard interrupt switched by the program");
        }
    };
    a.konst(4, RECV);
    a.konst(5, n);
    let top = a.bound();
    let w = a.bound();
    a.ldi(0, kbsr);
    a.br(3, w);
    toggle(&mut a);
    filler(&mut a);
    toggle(&mut a);
    if chance(1, 6) {
        a.ldi(1, kbsr);
    }
    a.ldi(0, kbdr);
    filler(&mut a);
    toggle(&mut a);
    a.str(0, 4, 0);
    a.addi(4, 4, 1);
    for _ in 0..echo {
        let w = a.bound();
        a.ldi(1, dsr);
        a.br(3, w);
        filler(&mut a);
        if hi_word != 0 {
            a.ld(7, hi);
            a.add(7, 0, 7);
            a.sti(7, ddr);
        } else {
            a.sti(0, ddr);
        }
    }
    a.addi(5, 5, -1);
    a.br(1, top);
    a.w(HALT);
    let on_word = if masked { pick(&[0x4000u16, 0xFFFF, 0x4001]) } else { 0x8000 };
    let off_word = pick(&[0u16, 0xBFFF, 0x8000, 1]);
    for (l, p) in [(kbsr, 0xFE00u16), (kbdr, 0xFE02), (dsr, 0xFE04), (ddr, 0xFE06), (hi, hi_word), (on, on_word), (off, off_word)] {
        a.bind(l);
        a.w(p);
    }
    assert!(a.finish());
    let expect = input.iter().flat_map(|&b| std::iter::repeat_n(b, echo as usize)).collect();
    Echo { asm: a, handler: None, expect }
}

/// Uses the OS routines.
fn traps(input: &[u8]) -> Echo {
    let mut a = Asm::new(0x3000);
    let mut expect = vec![];
    let mut strs: Vec<(Label, Vec<u16>)> = vec![];
    a.konst(4, RECV);
    let (hi, hi_word) = (a.label(), upper());
    for &b in input {
        let prompt = chance(1, 8);
        if prompt {
            expect.extend(b"Input character: ");
            expect.push(b);
        }
        a.w(if prompt { IN } else { GETC });
        a.str(0, 4, 0);
        a.addi(4, 4, 1);
        if hi_word != 0 && coin() {
            a.ld(1, hi);
            a.add(0, 0, 1);
        }
        for _ in 0..below(3) {
            a.w(OUT);
            expect.push(b);
        }
        if chance(1, 4) && a.words.len() < 100 {
            let l = a.label();
            a.lea(0, l);
            let s: Vec<u8> = (0..range(1, 4)).map(|_| 1 + below(255) as u8).collect();
            expect.extend(&s);
            if coin() {
                a.w(PUTS);
                strs.push((l, s.iter().map(|&b| b as u16).chain([0]).collect()));
            } else {
                a.w(PUTSP);
                let mut ws: Vec<u16> = s.chunks(2).map(|c| c[0] as u16 | (c.get(1).copied().unwrap_or(0) as u16) << 8).collect();
                ws.push(0);
                strs.push((l, ws));
            }
        }
    }
    a.w(HALT);
    a.bind(hi);
    a.w(hi_word);
    for (l, s) in strs {
        a.bind(l);
        for w in s {
            a.w(w);
        }
    }
    assert!(a.finish());
    Echo { asm: a, handler: None, expect }
}

/// Takes its input in a keyboard interrupt handler.
fn interrupt(n: u16, input: &[u8]) -> Echo {
    let mut h = Asm::new(0x1600);
    let [kbsr, kbdr, dsr, ddr, ptr, cnt, hi, on] = std::array::from_fn(|_| h.label());
    let (echo, toggles, hi_word) = (coin(), chance(1, 3), upper());
    for r in [0, 1, 4] {
        h.push(r);
    }
    if toggles {
        h.andi(0, 0, 0);
        h.sti(0, kbsr);
        fault("keyboard interrupt switched by the program");
    }
    if chance(1, 3) {
        let w = h.bound();
        h.ldi(0, kbsr);
        h.br(3, w);
    }
    h.ldi(0, kbdr);
    h.ld(4, ptr);
    h.str(0, 4, 0);
    h.addi(4, 4, 1);
    h.st(4, ptr);
    if echo {
        let w = h.bound();
        h.ldi(1, dsr);
        h.br(3, w);
        h.ld(1, hi);
        h.add(0, 0, 1);
        h.sti(0, ddr);
    }
    h.ld(1, cnt);
    h.addi(1, 1, -1);
    h.st(1, cnt);
    if toggles {
        h.ld(0, on);
        h.sti(0, kbsr);
    }
    for r in [4, 1, 0] {
        h.pop(r);
    }
    h.w(RTI);
    for (l, p) in [(kbsr, 0xFE00u16), (kbdr, 0xFE02), (dsr, 0xFE04), (ddr, 0xFE06), (ptr, RECV), (hi, hi_word), (on, 0x4000)] {
        h.bind(l);
        h.w(p);
    }
    h.bind(cnt);
    h.w(n);
    let cnt_at = h.addr(cnt);
    assert!(h.finish());
    // Supervisor code that enables the interrupt and waits for the count.
    let mut a = Asm::new(0x3000);
    let [k, c, ie] = std::array::from_fn(|_| a.label());
    a.ld(0, ie);
    a.sti(0, k);
    let w = a.bound();
    filler(&mut a);
    a.ldi(0, c);
    a.br(1, w);
    a.w(HALT);
    a.bind(k);
    a.w(0xFE00);
    a.bind(c);
    a.w(cnt_at);
    a.bind(ie);
    a.w(0x4000);
    assert!(a.finish());
    Echo { asm: a, handler: Some(h), expect: if echo { input.to_vec() } else { vec![] } }
}

/// Drives `rig` to its end with `o` acting at every boundary.
pub fn drive(sim: &mut lc3_ensemble::sim::Simulator, o: &mut Other, mode: u64, budget: u64) -> Result<bool, lc3_ensemble::sim::SimErr> {
    let mut left = budget;
    let r = loop {
        if left == 0 {
            break Ok(false);
        }
        match mode {
            // One run; the tripwire is the boundary.
            0 => {
                sim.run_while(|_| {
                    o.boundary();
                    left -= 1;
                    left > 0
                })?;
                if left > 0 {
                    break Ok(sim.hit_halt());
                }
            }
            // Single steps until the halting instruction.
            1 => {
                if sim.mem[sim.pc].get() == HALT && !sim.flags.use_real_traps {
                    break Ok(true);
                }
                o.boundary();
                left -= 1;
                sim.mcr().store(true, std::sync::atomic::Ordering::Relaxed);
                sim.step_in()?;
                if !sim.mcr().load(std::sync::atomic::Ordering::Relaxed) {
                    break Ok(true);
                }
            }
            // Short paused segments, the lock held across each.
            _ => {
                o.boundary();
                let n = range(1, 3);
                left = left.saturating_sub(n);
                sim.run_with_limit(n)?;
                if sim.hit_halt() {
                    break Ok(true);
                }
            }
        }
    };
    tick(budget - left);
    r
}

pub fn c33() -> Res {
    let kind = below(3);
    let flags = SimFlags {
        strict: false,
        use_real_traps: coin(),
        machine_init: known(pick(&[0u16, 0x41, 0xFFFF])),
        debug_frames: coin(),
        ignore_privilege: kind == 0 && coin(),
    };
    let long = kind != 1 && chance(1, 30);
    let n = if long { range(250, 300) } else { range(1, if kind == 1 { 6 } else { 10 }) };
    if long {
        probe("inputs of more than 250 bytes");
    }
    // Repeated bytes make a lost byte and a duplicated one look alike unless counted.
    let pool: Vec<u8> = (0..if long { 60 } else { range(1, 4) }).map(|_| if coin() { below(256) as u8 } else { pick(&[0u8, 0xFF, b'a', 0x80]) }).collect();
    let extra = if kind == 2 { 0 } else { below(4) };
    let input: Vec<u8> = (0..n + extra).map(|_| pick(&pool)).collect();
    let mine = &input[..n as usize];
    let prio = if kind != 2 && coin() { below(8) as u16 } else { 0 };
    let e = match kind {
        0 => direct(n as u16, mine, prio >= 4),
        1 => traps(mine),
        _ => interrupt(n as u16, mine),
    };
    probe(["direct polling programs", "OS trap programs", "interrupt-driven programs"][kind as usize]);
    trace(|| format!("{flags:?} kind {kind} input {input:02x?}"));
    trace(|| format!("program {:04x?} handler {:04x?}", e.asm.words, e.handler.as_ref().map(|h| &h.words)));
    let mut g = Rig::new(flags);
    g.poke_all(0x3000, &e.asm.words);
    if let Some(h) = &e.handler {
        g.poke_all(h.base, &h.words);
        g.poke(0x180, h.base);
    }
    g.sim.pc = 0x3000;
    let user = kind == 1 || flags.ignore_privilege;
    g.set_psr(if user { 0x8002 } else { 2 } | prio << 8);
    if prio >= 4 && coin() {
        // Enabled, but the priority keeps it from being taken.
        let _ = g.sim.write_mem(0xFE00, lc3_ensemble::sim::mem::Word::new_init(0x4000), crate::lock::omni());
        fault("keyboard interrupt enabled and masked");
    }
    if coin() {
        super::os::add_sources(&mut g, 2);
    }
    g.set_reg(6, if user { 0xFD00 } else { 0x3000 });
    g.set_ssp(if user { 0x3000 } else { 0xFD00 });
    let (kbuf, dbuf) = (g.kbuf.clone(), g.dbuf.clone());
    let mut o = Other::new(&kbuf, &dbuf, &input, true);
    if coin() {
        let k = below(input.len() as u64 + 1);
        for _ in 0..k {
            let b = o.to_type.pop_front().unwrap();
            kbuf.write().unwrap().push_back(b);
        }
    }
    let mode = below(3);
    let bound = 3 * (o.calm_after + input.len() as u64) + 4000 + 600 * e.expect.len() as u64 + 200 * n;
    let done = drive(&mut g.sim, &mut o, mode, bound);
    o.release();
    let done = match done {
        Ok(d) => d,
        Err(err) => return viol("bytes:error", format!("the program stopped with {err:?}")),
    };
    let got: Vec<u16> = (0..n as u16).map(|i| g.sim.mem[RECV + i].get()).collect();
    let want: Vec<u16> = mine.iter().map(|&b| b as u16).collect();
    // One more readiness check of each device, with the locks free.
    g.sim.device_handler.io_read(0xFE00, false);
    g.sim.device_handler.io_read(0xFE04, false);
    let mut shown = o.drained.clone();
    shown.extend(g.out());
    let left: Vec<u8> = g.left().into_iter().chain(o.to_type.iter().copied()).collect();
    ensure!(
        done,
        "bytes:stuck",
        "the program is not done after {} instructions, at least 4000 of them with the locks free: received {got:02x?} of {want:02x?}, displayed {shown:02x?}",
        bound
    );
    ensure!(got == want, "bytes:input", "the program received {got:02x?}, typed were {want:02x?}");
    ensure!(shown == e.expect, "bytes:output", "displayed {shown:02x?}, the program wrote {:02x?}", e.expect);
    let rest = &input[n as usize..];
    ensure!(left == rest, "bytes:left", "unread input is {left:02x?}, expected {rest:02x?}");
    if o.at > 0 {
        nontrivial();
    }
    state(kind | mode << 2 | (o.at.min(4000)) << 4);
    mix(g.snap().hash());
    mix(o.at);
    Ok(())
}
